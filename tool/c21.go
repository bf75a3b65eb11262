package main

// C21: the limit on the size of integers. The operators that can make an integer longer are
// interpreted on symbolic integers and a symbolic limit.

import (
	"fmt"
	"go/token"
	"math/big"
)

func init() { checks["C21"] = checkC21 }

// slack is the length up to which the limit need not be observed: the machine arithmetic of small
// integers is not subject to it.
const slack = 64

type growSpec struct {
	op     string
	binary bool
	// bits is the estimate of the length of the result which may be used to refuse it.
	bits func(x []*big.Rat) *big.Int
	// before: the estimate has to come before the calculation.
	before bool
	// undef: the operation fails anyway.
	undef func(x []*big.Rat) bool
}

func bitsOf(r *big.Rat) int64 { return int64(r.Num().BitLen()) }

func growSpecs() []growSpec {
	max := func(a, b int64) int64 {
		if a > b {
			return a
		}
		return b
	}
	sum := func(x []*big.Rat) *big.Int { return big.NewInt(max(bitsOf(x[0]), bitsOf(x[1])) + 1) }
	return []growSpec{
		{"+", true, sum, false, nil},
		{"-", true, sum, false, nil},
		{"*", true, func(x []*big.Rat) *big.Int { return big.NewInt(bitsOf(x[0]) + bitsOf(x[1])) }, false, nil},
		{"<<", true, func(x []*big.Rat) *big.Int { return new(big.Int).Add(big.NewInt(bitsOf(x[0])), x[1].Num()) }, true,
			func(x []*big.Rat) bool { return x[1].Sign() < 0 || x[1].Cmp(big.NewRat(1<<31-1, 1)) >= 0 }},
		{"**", true, func(x []*big.Rat) *big.Int {
			k := new(big.Int).Abs(x[1].Num())
			z := new(big.Int).Mul(k, big.NewInt(bitsOf(x[0])))
			if k.Add(k, big.NewInt(1)); k.Cmp(z) > 0 && bitsOf(x[0]) > 1 {
				return k
			}
			if bitsOf(x[0]) <= 1 {
				return big.NewInt(1)
			}
			return z
		}, true, func(x []*big.Rat) bool {
			return x[1].Sign() < 0 && x[0].Sign() == 0 || x[1].Num().BitLen() > 62
		}},
		{"!", false, nil, true, func(x []*big.Rat) bool { return x[0].Sign() < 0 }},
	}
}

func (f *nfacts) maxbits() npoly { return natom("MAXBITS") }

// fitsBefore is fitsLimit before the calculation, where an estimate will do.
func (f *nfacts) fitsBefore(p npoly) bool {
	f.growing = true
	defer func() { f.growing = false }()
	return f.fitsLimit(p)
}

// fitsLimit: p has at most max bits (or so few that the limit does not matter), or there is no limit.
func (f *nfacts) fitsLimit(p npoly) bool {
	if r, ok := f.decide(f.maxbits(), token.EQL); ok && r {
		return true
	}
	p = f.simp(p)
	if v := f.interval(p); v.lo != nil && v.hi != nil && bitsOf(v.lo) <= slack && bitsOf(v.hi) <= slack {
		return true
	}
	le := func(b npoly) bool {
		r, ok := f.decide(b.sub(f.maxbits()), token.LEQ)
		return ok && r
	}
	if le(f.apply("bitlen", p)) {
		return true
	}
	if a, ok := p.single(); ok && f.atoms[a] != nil && f.atoms[a].fn == "fact" && f.growing && f.factorialFits(f.atoms[a].args[0]) {
		return true
	}
	n := int64(0)
	for m := len(p) - 1; m > 0; m >>= 1 {
		n++
	}
	for k, c := range p {
		if !c.IsInt() {
			return false
		}
		b := nint(n)
		if c := new(big.Int).Abs(c.Num()); c.Cmp(big.NewInt(1)) != 0 {
			b = b.add(nint(int64(c.BitLen())))
		}
		shift := npoly{}
		pow := false
		atoms := splitMono(k)
		for _, a := range atoms {
			at := f.atoms[a]
			if at == nil || at.fn != "exp" {
				b = b.add(f.apply("bitlen", natom(a)))
				continue
			}
			if isC(at.args[0], 2) {
				shift, pow = shift.add(at.args[1]), true
				continue
			}
			b = b.add(f.mul(f.apply("bitlen", at.args[0]), at.args[1]))
		}
		if pow {
			b = b.add(shift)
			if len(atoms) == 1 {
				b = b.add(nint(1))
			}
		}
		if !le(b) {
			return false
		}
	}
	return true
}

// factorialFits: the path knows that the logarithm of n! (or of (n-1)!) to the base 2 is within the
// limit, so that n! is not much longer than it.
func (f *nfacts) factorialFits(n npoly) bool {
	for name, at := range f.atoms {
		if at.fn != "trunc" {
			continue
		}
		for k, c := range at.args[0] {
			l := f.atoms[k]
			if l == nil || l.fn != "lgamma" || c.Cmp(big.NewRat(14, 10)) < 0 {
				continue
			}
			arg := l.args[0]
			if a, ok := arg.single(); ok && f.atoms[a] != nil && f.atoms[a].fn == "float" {
				arg = f.atoms[a].args[0]
			}
			if d, ok := arg.sub(n).isConst(); !ok || d.Sign() < 0 {
				continue
			}
			if r, ok := f.decide(natom(name).sub(f.maxbits()), token.LEQ); ok && r {
				return true
			}
		}
	}
	return false
}

// minBits is a lower bound of the length of p under the valuation, which may be too long to compute.
func (v *valuation) minBits(p npoly) *big.Int {
	if x := v.eval(p); x != nil {
		return big.NewInt(bitsOf(x))
	}
	if len(p) != 1 {
		return nil
	}
	sum := new(big.Int)
	for k := range p {
		for _, a := range splitMono(k) {
			if x := v.atom(a); x != nil {
				if !x.IsInt() {
					return nil
				}
				sum.Add(sum, big.NewInt(bitsOf(x)-1))
				continue
			}
			at := v.f.atoms[a]
			if at == nil || at.fn != "exp" {
				return nil
			}
			b, e := v.eval(at.args[0]), v.eval(at.args[1])
			if b == nil || e == nil || !b.IsInt() || !e.IsInt() || e.Sign() < 0 || bitsOf(b) < 2 {
				return nil
			}
			sum.Add(sum, new(big.Int).Mul(big.NewInt(bitsOf(b)-1), e.Num()))
		}
	}
	return sum
}

// limitCandidates are the operands and limits tried.
func limitCandidates(f *nfacts, kinds []string) [][]*big.Rat {
	var lim []*big.Rat
	for _, n := range []int64{0, 1, 32, 33, 40, 64, 65, 66, 67, 80, 99, 100, 101, 102, 128, 129, 130, 200, 500, 1000, 1001} {
		lim = append(lim, big.NewRat(n, 1))
	}
	if len(kinds) == 1 {
		for _, n := range []int64{33, 64, 99, 100, 101, 500, 1000} {
			lim = append(lim, big.NewRat(int64(new(big.Int).MulRange(1, n).BitLen())-1, 1))
		}
	}
	out := [][]*big.Rat{lim}
	for _, k := range kinds {
		var c []*big.Rat
		add := func(r *big.Rat) {
			for _, x := range []*big.Rat{r, new(big.Rat).Neg(r)} {
				if smallestKind(x) == k {
					c = append(c, x)
				}
			}
		}
		for _, n := range []int64{0, 1, 2, 3, 7, 33, 64, 99, 100, 101, 500, 1000, 100000, 1<<31 - 2} {
			add(big.NewRat(n, 1))
		}
		for _, n := range []int64{31, 32, 40, 62, 63, 64, 98, 99, 100, 199, 1000} {
			add(pow2(n))
			add(new(big.Rat).Sub(pow2(n), big.NewRat(1, 1)))
		}
		out = append(out, c)
	}
	return out
}

func checkC21(p *Prog, r *Report) {
	r.rule("limit", "an integer longer than the limit is an error, not a result", 15)
	r.rule("refusal", "a result is refused only if the estimate of its length is above the limit", 15)
	r.rule("before", "the length is estimated before a calculation that can be arbitrarily long", 6)
	tabs := p.opTables()
	ints := []string{"int", "bigInt"}
	for _, s := range growSpecs() {
		tab := tabs.unary
		combos := [][]string{{"int"}}
		if s.binary {
			tab = tabs.binary
			combos = nil
			for _, a := range ints {
				for _, b := range ints {
					combos = append(combos, []string{a, b})
				}
			}
		}
		e := tab[s.op]
		if e == nil {
			r.missing("limit", s.op)
			continue
		}
		for _, kinds := range combos {
			what := s.op + " of " + kinds[0]
			if s.binary {
				what = kinds[0] + " " + s.op + " " + kinds[1]
			}
			pos := token.NoPos
			for _, k := range []string{"bigInt", "int"} {
				if fn := e.fn[k]; fn != nil {
					pos = fn.Pos()
				}
			}
			names := append([]string{"MAXBITS"}, []string{"x", "y"}[:len(kinds)]...)
			legal := func(x []*big.Rat) bool { return true }
			type early struct {
				w  *arithWorld
				p  npoly
				at int
			}
			var earlies []early
			setup := func(w *arithWorld) {
				w.limit = true
				w.grow = func(op string, res npoly) {
					if (op == "Exp" || op == "Lsh" || op == "factorial") && !w.f.fitsBefore(res) {
						earlies = append(earlies, early{w, res, len(w.f.log)})
					}
				}
			}
			bad, refuse, first := "", "", ""
			und, und2, und3 := "", "", ""
			ret := 0
			for _, pa := range p.runArith(e, kinds, setup) {
				w, f := pa.w, pa.w.f
				if !f.ints["MAXBITS"] {
					f.ints["MAXBITS"] = true
					f.iv["MAXBITS"] = ival{lo: new(big.Rat), hi: pow2(30)}
				}
				cands := limitCandidates(f, kinds)
				find := func(at int, lenient bool, wrong func(v *valuation, x []*big.Rat) bool) string {
					if pa.vague {
						return ""
					}
					f.lenient = lenient
					defer func() { f.lenient = false }()
					if wit := f.witnessIn(at, names, cands, legal, wrong); wit != "" {
						return " for " + wit + f.cond()
					}
					return ""
				}
				tooLong := func(v *valuation, q npoly, times int64) bool {
					m := v.x["MAXBITS"]
					if m.Sign() == 0 {
						return false
					}
					n := v.minBits(q)
					lim := new(big.Int).Mul(m.Num(), big.NewInt(times))
					return n != nil && n.Cmp(big.NewInt(slack)) > 0 && n.Cmp(lim) > 0
				}
				for _, ea := range earlies {
					if ea.w != w {
						continue
					}
					if wit := find(ea.at, true, func(v *valuation, x []*big.Rat) bool { return tooLong(v, ea.p, 2) }); wit != "" {
						first = fmt.Sprintf("%s is computed before its length is estimated%s", f.simp(ea.p), wit)
					} else {
						und3 = fmt.Sprintf("%s is not seen to be within the limit%s", f.simp(ea.p), f.cond())
					}
				}
				end := len(f.log)
				switch {
				case w.float:
				case pa.out.aborted != "":
					und, und2 = pa.out.aborted, pa.out.aborted
				case pa.out.panicked:
					if s.bits == nil {
						continue
					}
					if wit := find(end, false, func(v *valuation, x []*big.Rat) bool {
						if s.undef != nil && s.undef(x[1:]) {
							return false
						}
						return x[0].Sign() == 0 || s.bits(x[1:]).Cmp(x[0].Num()) <= 0
					}); wit != "" {
						refuse = "it fails" + wit
					}
				default:
					ret++
					var got npoly
					ok := false
					if ki, isK := pa.out.ret.(kiface); isK {
						got, ok = w.num(ki.v)
					}
					if !ok {
						und = "the result is not known"
						continue
					}
					if !f.integer(got) {
						// The reciprocal of an integer.
						if inv := f.simp(f.inv(got)); f.integer(inv) {
							got = inv
						} else {
							continue
						}
					}
					if f.fitsLimit(got) {
						continue
					}
					if wit := find(end, true, func(v *valuation, x []*big.Rat) bool { return tooLong(v, got, 1) }); wit != "" {
						bad = fmt.Sprintf("it gives %s%s", f.simp(got), wit)
					} else {
						und = fmt.Sprintf("%s is not seen to be within the limit%s", f.simp(got), f.cond())
					}
				}
			}
			if ret == 0 && und == "" && bad == "" {
				und = "no result"
			}
			put := func(rule, bad, und string) {
				d := bad
				if bad == "" && und != "" {
					d = "not decided: " + und
				}
				r.add(rule, what, pos, bad == "", "%s", d)
			}
			put("limit", bad, und)
			if s.bits != nil {
				put("refusal", refuse, und2)
			}
			if s.before {
				put("before", first, und3)
			}
		}
	}
}
