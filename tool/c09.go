package main

// C09: exact arithmetic. Every implementation of an arithmetic operator for integers, rationals and
// complex numbers is interpreted on symbolic operands; on every path the result must be the exact
// one, in the smallest kind, and errors occur only where the operation is not defined.

import (
	"fmt"
	"go/token"
	"math/big"
)

func init() { checks["C09"] = checkC09 }

// arithSpec says what an operator computes.
type arithSpec struct {
	op     string
	binary bool
	kinds  []string
	// want is the result.
	want func(f *nfacts, x []npoly) npoly
	// undef says that the operation is not defined for these numbers.
	undef func(x []*big.Rat) bool
	// may says that it may fail all the same.
	may func(x []*big.Rat) bool
}

func arithSpecs() []arithSpec {
	var never func(x []*big.Rat) bool
	byZero := func(i int) func(x []*big.Rat) bool {
		return func(x []*big.Rat) bool { return x[i].Sign() == 0 }
	}
	ap := func(fn string) func(f *nfacts, x []npoly) npoly {
		return func(f *nfacts, x []npoly) npoly { return f.apply(fn, x...) }
	}
	cmp := func(fn string) func(f *nfacts, x []npoly) npoly {
		return func(f *nfacts, x []npoly) npoly { return f.apply(fn, x[0].sub(x[1])) }
	}
	// logic: the value for false-false, true-false, false-true and true-true.
	logic := func(c00, c10, c01, c11 int64) func(f *nfacts, x []npoly) npoly {
		return func(f *nfacts, x []npoly) npoly {
			a, b := f.apply("NEQ", x[0]), f.apply("NEQ", x[1])
			r := nint(c00).add(a.scale(big.NewRat(c10-c00, 1))).add(b.scale(big.NewRat(c01-c00, 1)))
			return r.add(f.mul(a, b).scale(big.NewRat(c11-c10-c01+c00, 1)))
		}
	}
	ints := []string{"int", "bigInt"}
	all := []string{"int", "bigInt", "bigRat"}
	id := func(f *nfacts, x []npoly) npoly { return x[0] }
	// Shift counts go up to 2^31-2.
	shift := func(x []*big.Rat) bool {
		return x[1].Sign() < 0 || x[1].Cmp(big.NewRat(1<<31-1, 1)) >= 0
	}
	return []arithSpec{
		{"+", false, all, id, never, nil},
		{"real", false, all, id, never, nil},
		{"conj", false, all, id, never, nil},
		{"imag", false, all, func(f *nfacts, x []npoly) npoly { return npoly{} }, never, nil},
		{"-", false, all, func(f *nfacts, x []npoly) npoly { return x[0].neg() }, never, nil},
		{"abs", false, all, ap("abs"), never, nil},
		{"sgn", false, all, ap("sign"), never, nil},
		{"floor", false, all, ap("floor"), never, nil},
		{"ceil", false, all, ap("ceil"), never, nil},
		{"/", false, all, ap("inv"), byZero(0), nil},
		{"inv", false, all, ap("inv"), byZero(0), nil},
		{"^", false, ints, func(f *nfacts, x []npoly) npoly { return nint(-1).sub(x[0]) }, never, nil},
		{"not", false, all, ap("EQL"), never, nil},
		{"+", true, all, func(f *nfacts, x []npoly) npoly { return x[0].add(x[1]) }, never, nil},
		{"-", true, all, func(f *nfacts, x []npoly) npoly { return x[0].sub(x[1]) }, never, nil},
		{"*", true, all, func(f *nfacts, x []npoly) npoly { return f.mul(x[0], x[1]) }, never, nil},
		{"/", true, all, func(f *nfacts, x []npoly) npoly { return f.mul(x[0], f.inv(x[1])) }, byZero(1), nil},
		{"idiv", true, ints, ap("quo"), byZero(1), nil},
		{"imod", true, ints, ap("rem"), byZero(1), nil},
		{"div", true, ints, ap("div"), byZero(1), nil},
		{"mod", true, all, ap("mod"), never, nil},
		{"&", true, ints, ap("and"), never, nil},
		{"|", true, ints, ap("or"), never, nil},
		{"^", true, ints, ap("xor"), never, nil},
		{"<<", true, ints, ap("lsh"), shift, nil},
		{">>", true, ints, func(f *nfacts, x []npoly) npoly { return f.app("rsh", x...) }, shift, nil},
		// The exponent may be too large for a machine word.
		{"**", true, all, ap("exp"), func(x []*big.Rat) bool { return x[1].Sign() < 0 && x[0].Sign() == 0 },
			func(x []*big.Rat) bool { return x[1].Num().BitLen() > 62 }},
		{"==", true, all, cmp("EQL"), never, nil},
		{"!=", true, all, cmp("NEQ"), never, nil},
		{"<", true, all, cmp("LSS"), never, nil},
		{"<=", true, all, cmp("LEQ"), never, nil},
		{">", true, all, cmp("GTR"), never, nil},
		{">=", true, all, cmp("GEQ"), never, nil},
		{"and", true, all, logic(0, 0, 0, 1), never, nil},
		{"or", true, all, logic(0, 1, 1, 1), never, nil},
		{"xor", true, all, logic(0, 1, 1, 0), never, nil},
		{"nand", true, all, logic(1, 1, 1, 0), never, nil},
		{"nor", true, all, logic(1, 0, 0, 0), never, nil},
		{"min", true, all, ap("min"), never, nil},
		{"max", true, all, ap("max"), never, nil},
	}
}

// operand sets up the facts about an operand of a kind.
func (w *arithWorld) operand(name, kind string, canonical bool) npoly {
	f := w.f
	switch kind {
	case "int":
		f.ints[name] = true
		f.iv[name] = ival{lo: new(big.Rat).Neg(pow2(31)), hi: new(big.Rat).Sub(pow2(31), big.NewRat(1, 1))}
	case "bigInt":
		f.ints[name] = true
		if canonical {
			f.setAbs(natom(name), pow2(31))
		}
	case "bigRat":
		if canonical {
			f.isInt[name] = false
			f.ne[name] = map[string]bool{"0": true}
		}
	}
	return natom(name)
}

// kindOf the result and whether it is the smallest for its number.
func (w *arithWorld) smallest(v av) (kind string, p npoly, why string) {
	ki, ok := v.(kiface)
	if !ok {
		return "", nil, "the result is not known"
	}
	kind = valueKindOfType(ki.t)
	p, ok = w.num(ki.v)
	if !ok {
		return kind, nil, "the result is not known"
	}
	f := w.f
	if st, ok := ki.v.(kstruct); ok {
		if pt, ok := st.f[0].(kptr); ok && w.canon[pt.o] && w.terms[pt.o].String() == p.String() {
			return kind, p, ""
		}
	}
	iv := f.interval(p)
	sp := f.simp(p)
	inRange := func(v ival) bool {
		return v.lo != nil && v.hi != nil && v.lo.Cmp(new(big.Rat).Neg(pow2(31))) >= 0 && v.hi.Cmp(pow2(31)) < 0
	}
	outRange := func(q npoly) bool {
		v := f.interval(q)
		if v.lo != nil && v.lo.Cmp(pow2(31)) >= 0 || v.hi != nil && v.hi.Cmp(new(big.Rat).Neg(pow2(31))) < 0 {
			return true
		}
		a := f.absLow(q)
		return a != nil && a.Cmp(pow2(31)) > 0
	}
	switch kind {
	case "int":
		if !inRange(iv) && !inRange(f.interval(sp)) {
			return kind, p, fmt.Sprintf("%s may be too large for a small integer and is not made a big one", sp)
		}
	case "bigInt":
		if !outRange(p) && !outRange(sp) {
			return kind, p, fmt.Sprintf("%s may be small but stays a big integer", sp)
		}
	case "bigRat":
		k, c, d := p.key()
		if is, ok := f.isInt[k]; c == nil || !ok || is || !d.IsInt() {
			return kind, p, fmt.Sprintf("%s may be an integer but stays a rational", sp)
		}
	}
	return kind, p, ""
}

// sameOperand: the result is an operand that is in its smallest kind to begin with, because there is
// no other or the other one is of a smaller kind.
func sameOperand(f *nfacts, x []npoly, kinds []string, kind string, got npoly) bool {
	for i, q := range x {
		if kinds[0] != kind || got.String() != q.String() {
			continue
		}
		if len(x) == 1 {
			return true
		}
		v := f.interval(x[1-i])
		if f.integer(x[1-i]) && (kind == "bigRat" || kind == "bigInt" && v.lo != nil && v.hi != nil && v.lo.Cmp(new(big.Rat).Neg(pow2(31))) >= 0 && v.hi.Cmp(pow2(31)) < 0) {
			return true
		}
	}
	return false
}

// smallestKind of a number.
func smallestKind(x *big.Rat) string {
	switch {
	case !x.IsInt():
		return "bigRat"
	case x.Cmp(new(big.Rat).Neg(pow2(31))) >= 0 && x.Cmp(pow2(31)) < 0:
		return "int"
	}
	return "bigInt"
}

type arithPath struct {
	vague bool // branches on something unknown
	w     *arithWorld
	x     []npoly
	out   outcome
	kinds []string
}

// runArith interprets an operator on symbolic operands of the kinds, with the promotions.
func (p *Prog) runArith(e *opEntry, kinds []string, setup func(w *arithWorld)) []arithPath {
	var w *arithWorld
	var paths []arithPath
	var xs []npoly
	number := map[string]int64{}
	kindOf := p.kindNumbers()
	for n, k := range kindOf {
		number[k] = n
	}
	outs := explore(p, func() *interp {
		w = &arithWorld{p: p, m: newModel(p), f: newNFacts(), terms: map[*obj]npoly{}, canon: map[*obj]bool{}}
		if setup != nil {
			setup(w)
		}
		return w.interp()
	}, func(in *interp) av {
		args := []av{ktok{"C"}}
		xs = nil
		for i, k := range kinds {
			name := string("xy"[i])
			if k == "complex" {
				re, im := w.operand(name+"re", "bigRat", false), w.operand(name+"im", "bigRat", false)
				xs = append(xs, re, im)
				args = append(args, kiface{p.namedType("value", "Complex"), kstruct{f: []av{w.value("bigRat", re), w.value("bigRat", im)}}})
				continue
			}
			x := w.operand(name, k, true)
			xs = append(xs, x)
			args = append(args, w.value(k, x))
		}
		paths = append(paths, arithPath{w: w, x: xs, kinds: kinds})
		k := kinds[0]
		if len(kinds) == 2 {
			if e.which == nil {
				in.abort("no promotion rule")
			}
			tu, ok := in.call(e.which, []av{iconst(number[kinds[0]]), iconst(number[kinds[1]])}, e.whichBind).(ktuple)
			if !ok || len(tu.f) != 2 {
				in.abort("promotion is not known")
			}
			for i := range kinds {
				n, ok := constOf(tu.f[i])
				if !ok {
					in.abort("promotion is not known")
				}
				k = kindOf[n]
				if k == kinds[i] {
					continue
				}
				ki := args[1+i].(kiface)
				tt := p.method("value", namedOf(ki.t).Obj().Name(), "toType")
				if tt == nil {
					in.abort("no conversion")
				}
				args[1+i] = in.call(tt, []av{ki.v, sconst(e.name), ktok{"CONF"}, iconst(n)}, nil)
			}
		}
		fn := e.fn[k]
		if fn == nil {
			panic(absPanic{sconst("not implemented on " + k)})
		}
		return in.call(fn, args, e.bind[k])
	}, 400)
	for i := range paths {
		paths[i].vague = paths[i].w.in.vague
		paths[i].out = outs[i]
	}
	for _, o := range outs[len(paths):] {
		paths = append(paths, arithPath{w: w, x: xs, out: o, kinds: kinds})
	}
	return paths
}

func checkC09(p *Prog, r *Report) {
	r.rule("exact", "the result is the exact one, and is an error only where the operation is not defined", 40)
	r.rule("smallest kind", "the result is a small integer if it fits, a big integer only if it does not, and a rational only if it is not an integer", 40)
	r.rule("complex", "complex arithmetic is that of the real and imaginary parts", 6)
	tabs := p.opTables()
	for _, s := range arithSpecs() {
		tab := tabs.unary
		if s.binary {
			tab = tabs.binary
		}
		e := tab[s.op]
		if e == nil {
			r.missing("exact", s.op)
			continue
		}
		var combos [][]string
		for _, k := range s.kinds {
			if !s.binary {
				combos = append(combos, []string{k})
				continue
			}
			for _, l := range s.kinds {
				combos = append(combos, []string{k, l})
			}
		}
		for _, kinds := range combos {
			kinds := kinds
			what := s.op + " of " + kinds[0]
			pos := token.NoPos
			if fn := e.fn[kinds[0]]; fn != nil {
				pos = fn.Pos()
			}
			if s.binary {
				what = kinds[0] + " " + s.op + " " + kinds[1]
			}
			names := []string{"x", "y"}[:len(kinds)]
			legal := func(x []*big.Rat) bool {
				for i, q := range x {
					if smallestKind(q) != kinds[i] {
						return false
					}
				}
				return true
			}
			bad, size, und, usize := "", "", "", ""
			ret, floats := 0, 0
			for _, pa := range p.runArith(e, kinds, nil) {
				w, f := pa.w, pa.w.f
				what := func(at int, wrong func(v *valuation, x []*big.Rat) bool) string {
					if pa.vague {
						return ""
					}
					if wit := f.witness(at, names, kinds, legal, wrong); wit != "" {
						return " for " + wit + f.cond()
					}
					return ""
				}
				for _, b := range w.bad {
					if wit := what(b.at, func(v *valuation, x []*big.Rat) bool {
						z := v.eval(b.p)
						return z != nil && signIs(z.Sign(), b.op)
					}); wit != "" {
						bad = b.what + wit
					}
				}
				end := len(f.log)
				switch {
				case w.float:
					floats++
					if s.op == "**" && kinds[1] == "bigRat" {
						continue
					}
					if wit := what(end, func(v *valuation, x []*big.Rat) bool { return true }); wit != "" {
						bad = "it goes to floating point" + wit
					}
				case pa.out.aborted != "":
					und = pa.out.aborted
				case pa.out.panicked:
					if wit := what(end, func(v *valuation, x []*big.Rat) bool {
						return (s.undef == nil || !s.undef(x)) && (s.may == nil || !s.may(x))
					}); wit != "" {
						bad = "it fails" + wit
					}
				default:
					ret++
					kind, got, why := w.smallest(pa.out.ret)
					if got == nil {
						und = why
						continue
					}
					want := s.want(f, pa.x)
					equal := f.equal(got, want)
					wrong := func(v *valuation, x []*big.Rat) bool {
						if s.undef != nil && s.undef(x) {
							return false
						}
						g, h := v.eval(got), v.eval(want)
						return g != nil && h != nil && g.Cmp(h) != 0
					}
					if s.undef != nil {
						f.lenient = true
						wit := what(end, func(v *valuation, x []*big.Rat) bool { return s.undef(x) })
						f.lenient = false
						if wit != "" {
							bad = fmt.Sprintf("it gives %s,%s", f.simp(got), wit)
						}
					}
					if equal {
					} else if wit := what(end, wrong); wit != "" {
						bad = fmt.Sprintf("it gives %s, not %s,%s", f.simp(got), f.simp(want), wit)
					} else if !equal {
						und = fmt.Sprintf("%s is not seen to be %s%s", f.simp(got), f.simp(want), f.cond())
					}
					if why != "" && !sameOperand(f, pa.x, kinds, kind, got) {
						if wit := what(end, func(v *valuation, x []*big.Rat) bool {
							g := v.eval(got)
							return g != nil && smallestKind(g) != kind
						}); wit != "" {
							size = why + wit
						} else {
							usize = why + f.cond()
						}
					}
				}
			}
			if ret == 0 && floats > 0 && bad == "" {
				continue // floating point only
			}
			if ret == 0 && bad == "" && und == "" {
				und = "no result"
			}
			detail := bad
			if bad == "" && und != "" {
				detail = "not decided: " + und
			}
			r.add("exact", what, pos, bad == "", "%s", detail)
			ok := size == ""
			if ok && usize != "" {
				size = "not decided: " + usize
			}
			r.add("smallest kind", what, pos, ok, "%s", size)
		}
	}
	p.complexRules(r)
}

type complexSpec struct {
	op     string
	binary bool
	want   func(f *nfacts, x []npoly) (re, im npoly)
	zero   func(x []*big.Rat) bool
}

func (p *Prog) complexRules(r *Report) {
	sq := func(f *nfacts, a, b npoly) npoly { return f.mul(a, a).add(f.mul(b, b)) }
	var never func(x []*big.Rat) bool
	zeroAt := func(i int) func(x []*big.Rat) bool {
		return func(x []*big.Rat) bool { return x[i].Sign() == 0 && x[i+1].Sign() == 0 }
	}
	// truth: the number is not zero.
	truth := func(f *nfacts, a, b npoly) npoly {
		return nint(1).sub(f.mul(f.apply("EQL", a), f.apply("EQL", b)))
	}
	specs := []complexSpec{
		{"+", true, func(f *nfacts, x []npoly) (npoly, npoly) { return x[0].add(x[2]), x[1].add(x[3]) }, never},
		{"-", true, func(f *nfacts, x []npoly) (npoly, npoly) { return x[0].sub(x[2]), x[1].sub(x[3]) }, never},
		{"*", true, func(f *nfacts, x []npoly) (npoly, npoly) {
			return f.mul(x[0], x[2]).sub(f.mul(x[1], x[3])), f.mul(x[0], x[3]).add(f.mul(x[1], x[2]))
		}, never},
		{"/", true, func(f *nfacts, x []npoly) (npoly, npoly) {
			d := f.inv(sq(f, x[2], x[3]))
			return f.mul(f.mul(x[0], x[2]).add(f.mul(x[1], x[3])), d), f.mul(f.mul(x[1], x[2]).sub(f.mul(x[0], x[3])), d)
		}, zeroAt(2)},
		{"-", false, func(f *nfacts, x []npoly) (npoly, npoly) { return x[0].neg(), x[1].neg() }, never},
		{"+", false, func(f *nfacts, x []npoly) (npoly, npoly) { return x[0], x[1] }, never},
		{"conj", false, func(f *nfacts, x []npoly) (npoly, npoly) { return x[0], x[1].neg() }, never},
		{"j", false, func(f *nfacts, x []npoly) (npoly, npoly) { return x[1].neg(), x[0] }, never},
		{"real", false, func(f *nfacts, x []npoly) (npoly, npoly) { return x[0], npoly{} }, never},
		{"imag", false, func(f *nfacts, x []npoly) (npoly, npoly) { return x[1], npoly{} }, never},
		{"==", true, func(f *nfacts, x []npoly) (npoly, npoly) {
			return f.mul(f.apply("EQL", x[0].sub(x[2])), f.apply("EQL", x[1].sub(x[3]))), npoly{}
		}, never},
		{"!=", true, func(f *nfacts, x []npoly) (npoly, npoly) {
			return nint(1).sub(f.mul(f.apply("EQL", x[0].sub(x[2])), f.apply("EQL", x[1].sub(x[3])))), npoly{}
		}, never},
		{"and", true, func(f *nfacts, x []npoly) (npoly, npoly) {
			return f.mul(truth(f, x[0], x[1]), truth(f, x[2], x[3])), npoly{}
		}, never},
		{"or", true, func(f *nfacts, x []npoly) (npoly, npoly) {
			a, b := truth(f, x[0], x[1]), truth(f, x[2], x[3])
			return a.add(b).sub(f.mul(a, b)), npoly{}
		}, never},
		{"/", false, func(f *nfacts, x []npoly) (npoly, npoly) {
			d := f.inv(sq(f, x[0], x[1]))
			return f.mul(x[0], d), f.mul(x[1], d).neg()
		}, zeroAt(0)},
	}
	tabs := p.opTables()
	for _, s := range specs {
		tab, kinds := tabs.unary, []string{"complex"}
		what := s.op + " of complex"
		if s.binary {
			tab, kinds = tabs.binary, []string{"complex", "complex"}
			what = "complex " + s.op + " complex"
		}
		e := tab[s.op]
		if e == nil || e.fn["complex"] == nil {
			r.missing("complex", what)
			continue
		}
		fn := e.fn["complex"]
		bad, und := "", ""
		ret := 0
		names, ks := []string{"xre", "xim"}, []string{"bigRat", "bigRat"}
		if s.binary {
			names, ks = append(names, "yre", "yim"), append(ks, "bigRat", "bigRat")
		}
		legal := func(x []*big.Rat) bool { return x[1].Sign() != 0 || len(x) > 2 && x[3].Sign() != 0 }
		for _, pa := range p.runArith(e, kinds, nil) {
			w, f := pa.w, pa.w.f
			what := func(at int, wrong func(v *valuation, x []*big.Rat) bool) string {
				if pa.vague {
					return ""
				}
				if wit := f.witness(at, names, ks, legal, wrong); wit != "" {
					return " for " + wit + f.cond()
				}
				return ""
			}
			for _, b := range w.bad {
				if wit := what(b.at, func(v *valuation, x []*big.Rat) bool {
					z := v.eval(b.p)
					return z != nil && signIs(z.Sign(), b.op) && (s.zero == nil || !s.zero(x))
				}); wit != "" {
					bad = b.what + wit
				}
			}
			end := len(f.log)
			switch {
			case pa.out.aborted != "":
				und = pa.out.aborted
			case pa.out.panicked:
				if wit := what(end, func(v *valuation, x []*big.Rat) bool { return s.zero == nil || !s.zero(x) }); wit != "" {
					bad = "it fails" + wit
				}
			default:
				ret++
				re, im, ok := w.parts(pa.out.ret)
				if !ok {
					und = "the result is not known"
					continue
				}
				wr, wi := s.want(f, pa.x)
				ki, _ := pa.out.ret.(kiface)
				cplx := valueKindOfType(ki.t) == "complex"
				equal := f.equal(re, wr) && f.equal(im, wi)
				if equal && s.zero == nil && (!cplx || f.nonzero(im)) {
					continue
				}
				if wit := what(end, func(v *valuation, x []*big.Rat) bool {
					a, b, c, d := v.eval(re), v.eval(im), v.eval(wr), v.eval(wi)
					if a == nil || b == nil {
						return false
					}
					return s.zero != nil && s.zero(x) || c != nil && d != nil && (a.Cmp(c) != 0 || b.Cmp(d) != 0) || cplx && b.Sign() == 0
				}); wit != "" {
					bad = fmt.Sprintf("it gives the parts %s and %s, not %s and %s,%s", f.simp(re), f.simp(im), f.simp(wr), f.simp(wi), wit)
				} else if !equal {
					und = fmt.Sprintf("the parts %s and %s are not seen to be %s and %s%s", f.simp(re), f.simp(im), f.simp(wr), f.simp(wi), f.cond())
				}
			}
		}
		if ret == 0 && bad == "" && und == "" {
			und = "no result"
		}
		detail := bad
		if bad == "" && und != "" {
			detail = "not decided: " + und
		}
		r.add("complex", what, fn.Pos(), bad == "", "%s", detail)
	}
}

// parts of a complex or real value.
func (w *arithWorld) parts(v av) (re, im npoly, ok bool) {
	ki, isK := v.(kiface)
	if !isK {
		return nil, nil, false
	}
	if valueKindOfType(ki.t) == "complex" {
		st, isS := ki.v.(kstruct)
		if !isS || len(st.f) != 2 {
			return nil, nil, false
		}
		re, ok1 := w.num(st.f[0])
		im, ok2 := w.num(st.f[1])
		return re, im, ok1 && ok2
	}
	re, ok = w.num(ki.v)
	return re, npoly{}, ok
}
