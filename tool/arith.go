package main

// Exact arithmetic for the abstract interpreter: numbers are polynomials with rational coefficients
// over atoms (the operands, and functions such as trunc, bitlen or exp of polynomials), and a path
// carries the facts (intervals, exclusions) its conditions establish.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// npoly maps monomials (atom names joined by sep, sorted) to coefficients.
type npoly map[string]*big.Rat

const sep = "\x00"

// knum is a symbolic number.
type knum struct{ p npoly }

func nconst(r *big.Rat) npoly {
	p := npoly{}
	if r.Sign() != 0 {
		p[""] = r
	}
	return p
}
func nint(i int64) npoly   { return nconst(big.NewRat(i, 1)) }
func natom(n string) npoly { return npoly{n: big.NewRat(1, 1)} }
func (p npoly) add(q npoly) npoly {
	out := npoly{}
	for k, c := range p {
		out[k] = c
	}
	for k, c := range q {
		if d, ok := out[k]; ok {
			s := new(big.Rat).Add(c, d)
			if s.Sign() == 0 {
				delete(out, k)
			} else {
				out[k] = s
			}
		} else {
			out[k] = c
		}
	}
	return out
}
func (p npoly) scale(r *big.Rat) npoly {
	out := npoly{}
	if r.Sign() == 0 {
		return out
	}
	for k, c := range p {
		out[k] = new(big.Rat).Mul(c, r)
	}
	return out
}
func (p npoly) neg() npoly        { return p.scale(big.NewRat(-1, 1)) }
func (p npoly) sub(q npoly) npoly { return p.add(q.neg()) }
func (p npoly) isConst() (*big.Rat, bool) {
	if len(p) == 0 {
		return new(big.Rat), true
	}
	if c, ok := p[""]; ok && len(p) == 1 {
		return c, true
	}
	return nil, false
}
func (p npoly) keys() []string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (p npoly) String() string {
	if len(p) == 0 {
		return "0"
	}
	var s []string
	for _, k := range p.keys() {
		c := p[k].RatString()
		m := strings.ReplaceAll(k, sep, "*")
		switch {
		case k == "":
			s = append(s, c)
		case c == "1":
			s = append(s, m)
		case c == "-1":
			s = append(s, "-"+m)
		default:
			s = append(s, c+"*"+m)
		}
	}
	return strings.ReplaceAll(strings.Join(s, "+"), "+-", "-")
}

// lead is the coefficient of the first monomial that is not the constant.
func (p npoly) lead() *big.Rat {
	for _, k := range p.keys() {
		if k != "" {
			return p[k]
		}
	}
	return nil
}

// atom describes a function application.
type atom struct {
	fn   string
	args []npoly
}

type ival struct {
	lo, hi         *big.Rat // nil: unbounded
	loOpen, hiOpen bool
}

func (v ival) String() string {
	f := func(r *big.Rat) string {
		if r == nil {
			return "inf"
		}
		return r.RatString()
	}
	return "[" + f(v.lo) + "," + f(v.hi) + "]"
}

type nfacts struct {
	atoms map[string]*atom // shared
	ints  map[string]bool  // atoms that are integers (operands)
	iv    map[string]ival
	ne    map[string]map[string]bool
	abs   map[string]*big.Rat // lower bound of the absolute value
	isInt map[string]bool
	busy  map[string]bool
	log   []ncond // what the path decided
	// lenient: see valuation.
	lenient bool
	growing bool
}

// ncond is a condition of the path: p op 0; or p is (not) an integer.
type ncond struct {
	p    npoly
	op   token.Token
	frac int // 1: p is an integer, -1: it is not
}

func newNFacts() *nfacts {
	return &nfacts{atoms: map[string]*atom{}, ints: map[string]bool{}, iv: map[string]ival{}, ne: map[string]map[string]bool{}, abs: map[string]*big.Rat{}, isInt: map[string]bool{}, busy: map[string]bool{}}
}

// app makes an atom.
func (f *nfacts) app(fn string, args ...npoly) npoly {
	var s []string
	for _, a := range args {
		s = append(s, a.String())
	}
	name := fn + "(" + strings.Join(s, ",") + ")"
	if f.atoms[name] == nil {
		f.atoms[name] = &atom{fn, args}
	}
	return natom(name)
}

// mul multiplies, cancelling x*inv(x).
func (f *nfacts) mul(p, q npoly) npoly {
	out := npoly{}
	for k1, c1 := range p {
		for k2, c2 := range q {
			out = out.add(f.monomial(append(splitMono(k1), splitMono(k2)...), new(big.Rat).Mul(c1, c2)))
		}
	}
	return out
}

func splitMono(k string) []string {
	if k == "" {
		return nil
	}
	return strings.Split(k, sep)
}

func (f *nfacts) monomial(as []string, c *big.Rat) npoly {
	sort.Strings(as)
	for i, a := range as {
		at := f.atoms[a]
		if at == nil || at.fn != "inv" {
			continue
		}
		// inv(x): x is a polynomial that is one atom.
		if x, ok := at.args[0].single(); ok {
			for j, b := range as {
				if b == x && i != j {
					var rest []string
					for n, z := range as {
						if n != i && n != j {
							rest = append(rest, z)
						}
					}
					return f.monomial(rest, c)
				}
			}
			// num(t)*inv(den(t)) is t, and the other way around.
			if d := f.atoms[x]; d != nil && (d.fn == "den" || d.fn == "num") {
				for j, b := range as {
					if n := f.atoms[b]; n != nil && n.fn != d.fn && (n.fn == "num" || n.fn == "den") && n.args[0].String() == d.args[0].String() {
						var rest []string
						for m, z := range as {
							if m != i && m != j {
								rest = append(rest, z)
							}
						}
						if d.fn == "num" {
							return f.mul(f.monomial(rest, c), f.inv(d.args[0]))
						}
						return f.mul(f.monomial(rest, c), d.args[0])
					}
				}
			}
		}
	}
	return npoly{strings.Join(as, sep): c}
}

// single: the polynomial is one atom with coefficient one.
func (p npoly) single() (string, bool) {
	if len(p) != 1 {
		return "", false
	}
	for k, c := range p {
		if k != "" && !strings.Contains(k, sep) && c.Cmp(big.NewRat(1, 1)) == 0 {
			return k, true
		}
	}
	return "", false
}

// inv is the reciprocal.
func (f *nfacts) inv(p npoly) npoly {
	if c, ok := p.isConst(); ok && c.Sign() != 0 {
		return nconst(new(big.Rat).Inv(c))
	}
	if len(p) == 1 {
		for k, c := range p {
			out := nconst(new(big.Rat).Inv(c))
			for _, a := range splitMono(k) {
				if at := f.atoms[a]; at != nil && at.fn == "inv" {
					out = f.mul(out, at.args[0])
				} else {
					out = f.mul(out, f.app("inv", natom(a)))
				}
			}
			return out
		}
	}
	l := p.lead()
	if l == nil {
		return f.app("inv", p)
	}
	li := new(big.Rat).Inv(l)
	return f.app("inv", p.scale(li)).scale(li)
}

// key normalises p to c*k+d, with k's leading coefficient one and no constant.
func (p npoly) key() (k string, c, d *big.Rat) {
	d = new(big.Rat)
	q := npoly{}
	for m, x := range p {
		if m == "" {
			d = x
		} else {
			q[m] = x
		}
	}
	c = q.lead()
	if c == nil {
		return "", nil, d
	}
	return q.scale(new(big.Rat).Inv(c)).String(), c, d
}

// integer: every value of p is an integer.
func (f *nfacts) integer(p npoly) bool {
	if k, c, d := p.key(); c != nil && c.IsInt() && d.IsInt() {
		if v, ok := f.isInt[k]; ok && v {
			return true
		}
	}
	for k, c := range p {
		if !c.IsInt() {
			return false
		}
		for _, a := range splitMono(k) {
			if !f.atomInt(a) {
				return false
			}
		}
	}
	return true
}

func (f *nfacts) atomInt(a string) bool {
	if f.ints[a] {
		return true
	}
	if v, ok := f.isInt[a]; ok && v {
		return true
	}
	at := f.atoms[a]
	if at == nil {
		return false
	}
	switch at.fn {
	case "trunc", "floor", "ceil", "bitlen", "sign", "and", "or", "xor", "num", "den", "rsh", "fact", "wrap", "LSS", "LEQ", "GTR", "GEQ", "EQL", "NEQ":
		return true
	case "rem", "mod", "div", "abs":
		for _, x := range at.args {
			if !f.integer(x) {
				return at.fn == "div"
			}
		}
		return true
	case "exp":
		v := f.interval(at.args[1])
		return f.integer(at.args[0]) && v.lo != nil && v.lo.Sign() >= 0
	}
	return false
}

func ivAdd(a, b ival) ival {
	var out ival
	if a.lo != nil && b.lo != nil {
		out.lo, out.loOpen = new(big.Rat).Add(a.lo, b.lo), a.loOpen || b.loOpen
	}
	if a.hi != nil && b.hi != nil {
		out.hi, out.hiOpen = new(big.Rat).Add(a.hi, b.hi), a.hiOpen || b.hiOpen
	}
	return out
}

func ivScale(a ival, c *big.Rat) ival {
	s := func(r *big.Rat) *big.Rat {
		if r == nil {
			return nil
		}
		return new(big.Rat).Mul(r, c)
	}
	if c.Sign() >= 0 {
		return ival{s(a.lo), s(a.hi), a.loOpen, a.hiOpen}
	}
	return ival{s(a.hi), s(a.lo), a.hiOpen, a.loOpen}
}

func ivMul(a, b ival) ival {
	nonneg := func(v ival) bool { return v.lo != nil && v.lo.Sign() >= 0 }
	if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
		// Only signs.
		switch {
		case nonneg(a) && nonneg(b):
			out := ival{lo: new(big.Rat).Mul(a.lo, b.lo)}
			if a.lo.Sign() == 0 && a.loOpen && (b.lo.Sign() > 0 || b.loOpen) || b.lo.Sign() == 0 && b.loOpen && (a.lo.Sign() > 0 || a.loOpen) {
				out.loOpen = true
			}
			return out
		case a.hi != nil && a.hi.Sign() <= 0 && b.hi != nil && b.hi.Sign() <= 0:
			return ival{lo: new(big.Rat)}
		case nonneg(a) && b.hi != nil && b.hi.Sign() <= 0 || nonneg(b) && a.hi != nil && a.hi.Sign() <= 0:
			return ival{hi: new(big.Rat)}
		}
		return ival{}
	}
	var out ival
	for _, x := range []*big.Rat{a.lo, a.hi} {
		for _, y := range []*big.Rat{b.lo, b.hi} {
			m := new(big.Rat).Mul(x, y)
			if out.lo == nil || m.Cmp(out.lo) < 0 {
				out.lo = m
			}
			if out.hi == nil || m.Cmp(out.hi) > 0 {
				out.hi = m
			}
		}
	}
	if nonneg(a) && nonneg(b) && out.lo.Sign() == 0 && (a.lo.Sign() > 0 || a.loOpen) && (b.lo.Sign() > 0 || b.loOpen) {
		out.loOpen = true
	}
	return out
}

func ivMeet(a, b ival) ival {
	out := a
	if b.lo != nil && (out.lo == nil || b.lo.Cmp(out.lo) > 0 || b.lo.Cmp(out.lo) == 0 && b.loOpen) {
		out.lo, out.loOpen = b.lo, b.loOpen
	}
	if b.hi != nil && (out.hi == nil || b.hi.Cmp(out.hi) < 0 || b.hi.Cmp(out.hi) == 0 && b.hiOpen) {
		out.hi, out.hiOpen = b.hi, b.hiOpen
	}
	return out
}

// interval bounds p.
func (f *nfacts) interval(p npoly) ival {
	out := ival{lo: new(big.Rat), hi: new(big.Rat)}
	for k, c := range p {
		v := ival{lo: big.NewRat(1, 1), hi: big.NewRat(1, 1)}
		as := splitMono(k)
		// A square is not negative.
		if len(as) == 2 && as[0] == as[1] {
			a := f.atomIv(as[0])
			v = ivMul(a, a)
			v = ivMeet(v, ival{lo: new(big.Rat)})
			out = ivAdd(out, ivScale(v, c))
			continue
		}
		for _, a := range as {
			v = ivMul(v, f.atomIv(a))
		}
		if len(as) > 1 {
			if w, ok := f.iv[npoly{k: big.NewRat(1, 1)}.String()]; ok {
				v = ivMeet(v, w)
			}
		}
		out = ivAdd(out, ivScale(v, c))
	}
	if k, c, d := p.key(); c != nil {
		if v, ok := f.iv[k]; ok {
			v = ivAdd(ivScale(v, c), ival{lo: d, hi: d})
			out = ivMeet(out, v)
		}
	}
	if f.integer(p) {
		out = intIv(out)
	}
	// Excluded end points.
	for i := 0; i < 4; i++ {
		n := out
		if n.lo != nil && !n.loOpen && f.excluded(p, n.lo) {
			n.loOpen = true
		}
		if n.hi != nil && !n.hiOpen && f.excluded(p, n.hi) {
			n.hiOpen = true
		}
		if f.integer(p) {
			n = intIv(n)
		}
		if n == out {
			break
		}
		out = n
	}
	return out
}

func intIv(v ival) ival {
	if v.lo != nil {
		q := new(big.Int).Div(v.lo.Num(), v.lo.Denom())
		r := new(big.Rat).SetInt(q)
		if r.Cmp(v.lo) < 0 || v.loOpen {
			r.Add(r, big.NewRat(1, 1))
		}
		if r.Cmp(v.lo) != 0 || v.loOpen {
			v.lo = r
		}
		v.loOpen = false
	}
	if v.hi != nil {
		q := new(big.Int).Div(v.hi.Num(), v.hi.Denom())
		r := new(big.Rat).SetInt(q)
		if r.Cmp(v.hi) == 0 && v.hiOpen {
			r.Sub(r, big.NewRat(1, 1))
		}
		if r.Cmp(v.hi) != 0 {
			v.hi = r
		}
		v.hiOpen = false
	}
	return v
}

func (f *nfacts) excluded(p npoly, x *big.Rat) bool {
	k, c, d := p.key()
	if c == nil {
		return false
	}
	// c*k+d == x  <=>  k == (x-d)/c
	y := new(big.Rat).Sub(x, d)
	y.Quo(y, c)
	return f.ne[k][y.RatString()]
}

var two = big.NewInt(2)

func pow2(n int64) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Exp(two, big.NewInt(n), nil))
}

// atomIv bounds an atom.
func (f *nfacts) atomIv(a string) ival {
	v := f.iv[a]
	if f.busy[a] {
		return v
	}
	f.busy[a] = true
	defer delete(f.busy, a)
	at := f.atoms[a]
	if at == nil {
		if f.ints[a] {
			v = intIv(v)
		}
		n, d := "num("+a+")", "den("+a+")"
		if f.atoms[n] != nil && f.atoms[d] != nil {
			// Numerator and denominator known.
			vn, vd := f.atomIv(n), f.atomIv(d)
			if vn.lo != nil && vn.hi != nil && vn.lo.Cmp(vn.hi) == 0 && vd.lo != nil && vd.hi != nil && vd.lo.Cmp(vd.hi) == 0 && vd.lo.Sign() != 0 {
				q := new(big.Rat).Quo(vn.lo, vd.lo)
				v = ivMeet(v, ival{lo: q, hi: q})
			}
		}
		return f.excl(a, v)
	}
	one := big.NewRat(1, 1)
	meet := func(w ival) { v = ivMeet(v, w) }
	maxAbs := func(p npoly) *big.Rat {
		w := f.interval(p)
		if w.lo == nil || w.hi == nil {
			return nil
		}
		m := new(big.Rat).Abs(w.lo)
		if h := new(big.Rat).Abs(w.hi); h.Cmp(m) > 0 {
			m = h
		}
		return m
	}
	sym := func(m *big.Rat) {
		if m != nil {
			meet(ival{lo: new(big.Rat).Neg(m), hi: m})
		}
	}
	switch at.fn {
	case "inv":
		w := f.interval(at.args[0])
		if f.integer(at.args[0]) && f.nonzero(at.args[0]) {
			meet(ival{lo: new(big.Rat).Neg(one), hi: one})
		}
		if w.lo != nil && (w.lo.Sign() > 0 || w.lo.Sign() == 0 && w.loOpen) {
			meet(ival{lo: new(big.Rat), loOpen: true})
			if w.lo.Sign() > 0 {
				meet(ival{hi: new(big.Rat).Inv(w.lo)})
			}
		}
		if w.hi != nil && (w.hi.Sign() < 0 || w.hi.Sign() == 0 && w.hiOpen) {
			meet(ival{hi: new(big.Rat), hiOpen: true})
			if w.hi.Sign() < 0 {
				meet(ival{lo: new(big.Rat).Inv(w.hi)})
			}
		}
	case "trunc":
		w := f.interval(at.args[0])
		if w.lo != nil {
			l := w.lo
			if l.Sign() >= 0 {
				l = new(big.Rat).SetInt(new(big.Int).Div(l.Num(), l.Denom()))
			}
			meet(ival{lo: l})
		}
		if w.hi != nil {
			h := w.hi
			if h.Sign() <= 0 {
				h = new(big.Rat).Neg(new(big.Rat).SetInt(new(big.Int).Div(new(big.Int).Neg(h.Num()), h.Denom())))
			}
			meet(ival{hi: h})
		}
		v = intIv(v)
	case "abs":
		meet(ival{lo: new(big.Rat)})
		if m := maxAbs(at.args[0]); m != nil {
			meet(ival{hi: m})
		}
	case "sign":
		meet(ival{lo: big.NewRat(-1, 1), hi: one})
		if s, ok := f.sign(at.args[0]); ok {
			r := big.NewRat(int64(s), 1)
			meet(ival{lo: r, hi: r})
		}
	case "bitlen":
		meet(ival{lo: new(big.Rat), hi: pow2(32)}) // half a gigabyte
		if m := maxAbs(at.args[0]); m != nil && m.IsInt() {
			meet(ival{hi: big.NewRat(int64(m.Num().BitLen()), 1)})
		}
		if f.nonzero(at.args[0]) {
			meet(ival{lo: one})
		}
	case "den":
		meet(ival{lo: one})
	case "num":
		if s, ok := f.sign(at.args[0]); ok && s != 0 {
			if s > 0 {
				meet(ival{lo: one})
			} else {
				meet(ival{hi: big.NewRat(-1, 1)})
			}
		}
	case "rem":
		sym(maxAbs(at.args[0]))
		if m := maxAbs(at.args[1]); m != nil && f.integer(at.args[1]) {
			sym(new(big.Rat).Sub(m, one))
		}
		// It lies between zero and the dividend.
		if w := f.interval(at.args[0]); true {
			if w.lo != nil {
				if w.lo.Sign() >= 0 {
					meet(ival{lo: new(big.Rat)})
				} else {
					meet(ival{lo: w.lo})
				}
			}
			if w.hi != nil {
				if w.hi.Sign() <= 0 {
					meet(ival{hi: new(big.Rat)})
				} else {
					meet(ival{hi: w.hi})
				}
			}
		}
	case "mod":
		meet(ival{lo: new(big.Rat)})
		if m := maxAbs(at.args[1]); m != nil && f.integer(at.args[1]) {
			meet(ival{hi: new(big.Rat).Sub(m, one)})
		}
	case "and", "or", "xor":
		m, n := maxAbs(at.args[0]), maxAbs(at.args[1])
		if m != nil && n != nil {
			if n.Cmp(m) > 0 {
				m = n
			}
			// Both fit in as many bits as the larger: [-2^k, 2^k-1].
			k := int64(0)
			for _, w := range []ival{f.interval(at.args[0]), f.interval(at.args[1])} {
				for {
					if w.lo.Cmp(new(big.Rat).Neg(pow2(k))) >= 0 && w.hi.Cmp(pow2(k)) < 0 {
						break
					}
					k++
				}
			}
			meet(ival{lo: new(big.Rat).Neg(pow2(k)), hi: new(big.Rat).Sub(pow2(k), one)})
		}
		if at.fn == "and" {
			for _, x := range at.args {
				if w := f.interval(x); w.lo != nil && w.lo.Sign() >= 0 {
					meet(ival{lo: new(big.Rat), hi: w.hi})
				}
			}
		}
	case "rsh":
		sym(maxAbs(at.args[0]))
	case "LSS", "LEQ", "GTR", "GEQ", "EQL", "NEQ":
		meet(ival{lo: new(big.Rat), hi: one})
	case "float":
		if w := f.interval(at.args[0]); w.lo != nil && w.hi != nil && w.lo.Cmp(new(big.Rat).Neg(pow2(53))) >= 0 && w.hi.Cmp(pow2(53)) <= 0 {
			meet(w)
		}
	case "lgamma":
		if w := f.interval(at.args[0]); w.lo != nil && w.lo.Cmp(one) >= 0 {
			meet(ival{lo: new(big.Rat)})
			if w.hi != nil && w.hi.Cmp(pow2(53)) <= 0 {
				meet(ival{hi: new(big.Rat).Mul(w.hi, big.NewRat(53, 1))})
			}
		}
	case "fact":
		meet(ival{lo: one})
		if w := f.interval(at.args[0]); w.hi != nil && w.hi.Cmp(big.NewRat(20, 1)) <= 0 {
			meet(ival{hi: pow2(62)})
		}
	case "exp":
		if w := f.interval(at.args[0]); w.lo != nil && w.lo.Sign() > 0 {
			meet(ival{lo: new(big.Rat), loOpen: true})
		}
	case "wrap":
		if t, ok := at.args[1].isConst(); ok {
			bits := t.Num().Int64()
			if bits < 0 {
				bits = -bits
				meet(ival{lo: new(big.Rat).Neg(pow2(bits - 1)), hi: new(big.Rat).Sub(pow2(bits-1), one)})
			} else {
				meet(ival{lo: new(big.Rat), hi: new(big.Rat).Sub(pow2(bits), one)})
			}
		}
	}
	return f.excl(a, v)
}

func (f *nfacts) excl(a string, v ival) ival {
	for i := 0; i < 3; i++ {
		w := v
		if w.lo != nil && !w.loOpen && f.ne[a][w.lo.RatString()] {
			w.loOpen = true
		}
		if w.hi != nil && !w.hiOpen && f.ne[a][w.hi.RatString()] {
			w.hiOpen = true
		}
		if f.atomInt(a) {
			w = intIv(w)
		}
		if w == v {
			break
		}
		v = w
	}
	return v
}

// setAbs records that the absolute value of p is at least lo, absLow looks it up.
func (f *nfacts) setAbs(p npoly, lo *big.Rat) {
	if c := p.lead(); c != nil {
		f.abs[p.scale(new(big.Rat).Inv(c)).String()] = new(big.Rat).Quo(lo, new(big.Rat).Abs(c))
	}
}

func (f *nfacts) absLow(p npoly) *big.Rat {
	c := p.lead()
	if c == nil {
		return nil
	}
	a := f.abs[p.scale(new(big.Rat).Inv(c)).String()]
	if a == nil {
		return nil
	}
	return new(big.Rat).Mul(a, new(big.Rat).Abs(c))
}

// nonzero: p is never zero.
func (f *nfacts) nonzero(p npoly) bool {
	if c, ok := p.isConst(); ok {
		return c.Sign() != 0
	}
	if f.excluded(p, new(big.Rat)) {
		return true
	}
	if a := f.absLow(p); a != nil && a.Sign() > 0 {
		return true
	}
	if k, c, d := p.key(); c != nil {
		if is, ok := f.isInt[k]; ok && !is && new(big.Rat).Quo(d, c).IsInt() {
			return true
		}
	}
	v := f.interval(p)
	if v.lo != nil && (v.lo.Sign() > 0 || v.lo.Sign() == 0 && v.loOpen) || v.hi != nil && (v.hi.Sign() < 0 || v.hi.Sign() == 0 && v.hiOpen) {
		return true
	}
	if len(p) == 1 {
		// A product of nonzero atoms, reciprocals and the like.
		for k := range p {
			as := splitMono(k)
			for _, a := range as {
				at := f.atoms[a]
				if at != nil && (at.fn == "inv" || at.fn == "den" || at.fn == "fact") {
					continue
				}
				if at != nil && (at.fn == "exp" || at.fn == "num" || at.fn == "abs") && f.nonzero(at.args[0]) {
					continue
				}
				if len(as) > 1 && f.nonzero(natom(a)) {
					continue
				}
				return false
			}
			return len(as) > 0
		}
	}
	return false
}

// sign of p if known.
func (f *nfacts) sign(p npoly) (int, bool) {
	v := f.interval(p)
	if v.lo != nil && v.hi != nil && v.lo.Sign() == 0 && v.hi.Sign() == 0 {
		return 0, true
	}
	nz := f.nonzero(p)
	if v.lo != nil && v.lo.Sign() >= 0 && nz {
		return 1, true
	}
	if v.hi != nil && v.hi.Sign() <= 0 && nz {
		return -1, true
	}
	return 0, false
}

// learn records p >= 0, p > 0, p <= 0 ... p == 0, p != 0.
func (f *nfacts) learn(p npoly, op token.Token) {
	k, c, d := p.key()
	if c == nil {
		return
	}
	// c*k + d op 0
	b := new(big.Rat).Quo(new(big.Rat).Neg(d), c)
	if c.Sign() < 0 {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	var v ival
	switch op {
	case token.EQL:
		v = ival{lo: b, hi: b}
	case token.NEQ:
		if f.ne[k] == nil {
			f.ne[k] = map[string]bool{}
		}
		f.ne[k][b.RatString()] = true
		return
	case token.LSS:
		v = ival{hi: b, hiOpen: true}
	case token.LEQ:
		v = ival{hi: b}
	case token.GTR:
		v = ival{lo: b, loOpen: true}
	case token.GEQ:
		v = ival{lo: b}
	}
	norm := p.add(nconst(new(big.Rat).Neg(d))).scale(new(big.Rat).Inv(c))
	if f.integer(norm) {
		v = intIv(v)
	}
	f.iv[k] = ivMeet(f.iv[k], v)
	// What it says about each atom by itself.
	for m, cm := range norm {
		if m == "" || strings.Contains(m, sep) || len(norm) < 2 {
			continue
		}
		rest := npoly{}
		for n, x := range norm {
			if n != m {
				rest[n] = x
			}
		}
		// cm*m = norm - rest
		w := ivScale(ivAdd(f.iv[k], ivScale(f.interval(rest), big.NewRat(-1, 1))), new(big.Rat).Inv(cm))
		if w.lo != nil || w.hi != nil {
			f.iv[m] = ivMeet(f.iv[m], w)
		}
	}
	// A bit length says how large the number is.
	if at := f.atoms[k]; at != nil && at.fn == "bitlen" {
		w := f.iv[k]
		if w.hi != nil && w.hi.Cmp(pow2(12)) < 0 {
			n := w.hi.Num().Int64()
			lim := new(big.Rat).Sub(pow2(n), big.NewRat(1, 1))
			f.learn(at.args[0].sub(nconst(lim)), token.LEQ)
			f.learn(at.args[0].add(nconst(lim)), token.GEQ)
		}
		if w.lo != nil && w.lo.Sign() > 0 && w.lo.Cmp(pow2(12)) < 0 {
			n := w.lo.Num().Int64()
			f.setAbs(at.args[0], pow2(n-1))
		}
	}
}

// decide says whether p op 0, if the facts tell.
func (f *nfacts) decide(p npoly, op token.Token) (bool, bool) {
	v := f.interval(p)
	lt, le, gt, ge := false, false, false, false
	if v.hi != nil {
		lt = v.hi.Sign() < 0 || v.hi.Sign() == 0 && v.hiOpen
		le = v.hi.Sign() <= 0
	}
	if v.lo != nil {
		gt = v.lo.Sign() > 0 || v.lo.Sign() == 0 && v.loOpen
		ge = v.lo.Sign() >= 0
	}
	ne := lt || gt || f.nonzero(p)
	if ne && le {
		lt = true
	}
	if ne && ge {
		gt = true
	}
	eq := le && ge
	switch op {
	case token.LSS:
		return lt, lt || ge
	case token.LEQ:
		return le, le || gt
	case token.GTR:
		return gt, gt || le
	case token.GEQ:
		return ge, ge || lt
	case token.EQL:
		return eq, eq || ne
	case token.NEQ:
		return ne, eq || ne
	}
	return false, false
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	}
	return token.EQL
}

// simp rewrites p with what is known: atoms with one value, signs, definitions.
func (f *nfacts) simp(p npoly) npoly {
	for n := 0; n < 12; n++ {
		q := f.simp1(p)
		if q.String() == p.String() {
			return q
		}
		p = q
	}
	return p
}

func (f *nfacts) simp1(p npoly) npoly {
	if v := f.interval(p); v.lo != nil && v.hi != nil && v.lo.Cmp(v.hi) == 0 {
		return nconst(v.lo)
	}
	out := npoly{}
	for k, c := range p {
		m := nconst(c)
		for _, a := range splitMono(k) {
			m = f.mul(m, f.simpAtom(a))
		}
		out = out.add(m)
	}
	if v := f.interval(out); v.lo != nil && v.hi != nil && v.lo.Cmp(v.hi) == 0 {
		return nconst(v.lo)
	}
	return out
}

func (f *nfacts) simpAtom(a string) npoly {
	v := f.atomIv(a)
	if v.lo != nil && v.hi != nil && v.lo.Cmp(v.hi) == 0 {
		return nconst(v.lo)
	}
	at := f.atoms[a]
	if at == nil {
		return natom(a)
	}
	var x []npoly
	for _, y := range at.args {
		x = append(x, f.simp(y))
	}
	return f.apply(at.fn, x...)
}

// truthOps are the atoms that are 1 if the number compares so with zero, and 0 otherwise.
var truthOps = map[string]token.Token{"LSS": token.LSS, "LEQ": token.LEQ, "GTR": token.GTR, "GEQ": token.GEQ, "EQL": token.EQL, "NEQ": token.NEQ}

func minusOneP(p npoly) bool { c, ok := p.isConst(); return ok && c.Cmp(big.NewRat(-1, 1)) == 0 }
func isC(p npoly, n int64) bool {
	c, ok := p.isConst()
	return ok && c.Cmp(big.NewRat(n, 1)) == 0
}

// apply builds fn(x...) using its definition as far as the facts allow.
func (f *nfacts) apply(fn string, x ...npoly) npoly {
	flip := func(p npoly) bool { l := p.lead(); return l != nil && l.Sign() < 0 }
	switch fn {
	case "inv":
		return f.inv(x[0])
	case "abs":
		if s, ok := f.sign(x[0]); ok {
			return x[0].scale(big.NewRat(int64(s), 1))
		}
		if v := f.interval(x[0]); v.lo != nil && v.lo.Sign() >= 0 {
			return x[0]
		} else if v.hi != nil && v.hi.Sign() <= 0 {
			return x[0].neg()
		}
		if flip(x[0]) {
			return f.app("abs", x[0].neg())
		}
	case "sign":
		if s, ok := f.sign(x[0]); ok {
			return nint(int64(s))
		}
	case "trunc":
		if f.integer(x[0]) {
			return x[0]
		}
		if c, ok := x[0].isConst(); ok {
			return nconst(new(big.Rat).SetInt(new(big.Int).Quo(c.Num(), c.Denom())))
		}
		if flip(x[0]) {
			return f.app("trunc", x[0].neg()).neg()
		}
	case "floor":
		if f.integer(x[0]) {
			return x[0]
		}
		if v := f.interval(x[0]); v.lo != nil && v.lo.Sign() >= 0 {
			return f.apply("trunc", x[0])
		} else if k, c, d := x[0].key(); v.hi != nil && v.hi.Sign() <= 0 && c != nil && d.Sign() == 0 {
			if is, ok := f.isInt[k]; ok && !is {
				return f.apply("trunc", x[0]).sub(nint(1))
			}
		}
	case "ceil":
		return f.apply("floor", x[0].neg()).neg()
	case "quo":
		return f.apply("trunc", f.mul(x[0], f.inv(x[1])))
	case "rem":
		if f.nonzero(x[1]) {
			return x[0].sub(f.mul(x[1], f.apply("quo", x[0], x[1])))
		}
	case "mod", "div":
		if isC(x[1], 0) && fn == "mod" {
			return x[0]
		}
		sb, ok := f.sign(x[1])
		va := f.interval(x[0])
		if !ok || sb == 0 {
			break
		}
		y := x[1].scale(big.NewRat(int64(sb), 1))
		var m npoly
		switch {
		case va.lo != nil && va.lo.Sign() >= 0:
			m = f.apply("rem", x[0], y)
		case va.hi != nil && va.hi.Sign() <= 0:
			r := f.app("rem", x[0].neg(), y)
			re := f.apply("rem", x[0].neg(), y)
			if s, ok := f.sign(r); ok && s == 0 {
				m = npoly{}
			} else if s, ok := f.sign(re); ok && s == 0 {
				m = npoly{}
			} else if f.nonzero(r) || f.nonzero(re) {
				m = y.sub(re)
			}
		}
		if m == nil {
			break
		}
		if fn == "mod" {
			return m
		}
		return f.mul(x[0].sub(m), f.inv(x[1]))
	case "and":
		switch {
		case isC(x[0], 0) || isC(x[1], 0):
			return npoly{}
		case minusOneP(x[0]):
			return x[1]
		case minusOneP(x[1]):
			return x[0]
		}
	case "or":
		switch {
		case minusOneP(x[0]) || minusOneP(x[1]):
			return nint(-1)
		case isC(x[0], 0):
			return x[1]
		case isC(x[1], 0):
			return x[0]
		}
	case "xor":
		switch {
		case isC(x[0], 0):
			return x[1]
		case isC(x[1], 0):
			return x[0]
		case minusOneP(x[0]):
			return nint(-1).sub(x[1])
		case minusOneP(x[1]):
			return nint(-1).sub(x[0])
		}
	case "num":
		if f.integer(x[0]) {
			return x[0]
		}
		if flip(x[0]) {
			return f.app("num", x[0].neg()).neg()
		}
	case "den":
		if f.integer(x[0]) {
			return nint(1)
		}
		if flip(x[0]) {
			return f.app("den", x[0].neg())
		}
	case "bitlen":
		if c, ok := x[0].isConst(); ok && c.IsInt() {
			return nint(int64(c.Num().BitLen()))
		}
		if flip(x[0]) {
			return f.app("bitlen", x[0].neg())
		}
	case "exp":
		k := x[1]
		vk := f.interval(k)
		pos := vk.lo != nil && (vk.lo.Sign() > 0 || vk.loOpen && vk.lo.Sign() == 0)
		neg := vk.hi != nil && (vk.hi.Sign() < 0 || vk.hiOpen && vk.hi.Sign() == 0)
		switch {
		case isC(k, 0) || isC(x[0], 1):
			return nint(1)
		case isC(k, 1):
			return x[0]
		case neg:
			return f.inv(f.apply("exp", x[0], k.neg()))
		case isC(x[0], 0) && pos:
			return npoly{}
		case minusOneP(x[0]):
			par := f.apply("and", nint(1), k)
			if v := f.interval(par); v.lo != nil && v.hi != nil && v.lo.Cmp(v.hi) == 0 {
				if v.lo.Sign() == 0 {
					return nint(1)
				}
				return nint(-1)
			}
			if f.nonzero(par) {
				return nint(-1)
			}
		case pos && !f.integer(x[0]) && f.integer(k):
			return f.mul(f.app("exp", f.apply("num", x[0]), k), f.inv(f.app("exp", f.apply("den", x[0]), k)))
		}
	case "LSS", "LEQ", "GTR", "GEQ", "EQL", "NEQ":
		if r, ok := f.decide(x[0], truthOps[fn]); ok {
			if r {
				return nint(1)
			}
			return npoly{}
		}
		if (fn == "EQL" || fn == "NEQ") && flip(x[0]) {
			return f.app(fn, x[0].neg())
		}
	case "min", "max":
		if r, ok := f.decide(x[0].sub(x[1]), token.LEQ); ok {
			if r == (fn == "min") {
				return x[0]
			}
			return x[1]
		}
		if r, ok := f.decide(x[0].sub(x[1]), token.GEQ); ok {
			if r == (fn == "max") {
				return x[0]
			}
			return x[1]
		}
	case "lsh":
		return f.mul(x[0], f.apply("exp", nint(2), x[1]))
	}
	if (fn == "and" || fn == "or" || fn == "xor") && x[0].String() > x[1].String() {
		x[0], x[1] = x[1], x[0]
	}
	return f.app(fn, x...)
}

func (f *nfacts) equal(p, q npoly) bool {
	return f.simp(p.sub(q)).String() == "0" || f.simp(f.simp(p).sub(f.simp(q))).String() == "0"
}

// ---------------------------------------------------------------- the interpreter's view

type arithWorld struct {
	p     *Prog
	m     *model
	f     *nfacts
	in    *interp
	terms map[*obj]npoly // big numbers
	canon map[*obj]bool  // results of evaluation, in their smallest kind
	bad   []arithBad
	// grow is called before a big integer operation that can make a number longer.
	grow  func(op string, res npoly)
	float bool // the path went to floating point
	limit bool // the number of bits is limited
	hook  func(in *interp, callee *ssa.Function, m *types.Func, args []av) (av, bool)
}

func (w *arithWorld) num(a av) (npoly, bool) {
	switch x := a.(type) {
	case knum:
		return x.p, true
	case kconst:
		if x.v != nil && (x.v.Kind() == constant.Int || x.v.Kind() == constant.Float) {
			r, ok := new(big.Rat).SetString(x.v.ExactString())
			if ok {
				return nconst(r), true
			}
		}
	case kiface:
		return w.num(x.v)
	case kptr:
		if x.o != nil {
			if t, ok := w.terms[x.o]; ok {
				return t, true
			}
			if n := namedOf(x.o.elem); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() != "Float" {
				return npoly{}, true // the zero value
			}
		}
	case kstruct:
		if len(x.f) == 1 {
			return w.num(x.f[0])
		}
	}
	return nil, false
}

func (w *arithWorld) av(p npoly) av {
	if c, ok := p.isConst(); ok && c.IsInt() {
		return kconst{constant.Make(new(big.Int).Set(c.Num()))}
	}
	return knum{p}
}

// arithBad is an operation that may be undefined: it is if p op 0.
type arithBad struct {
	what string
	p    npoly
	op   token.Token
	at   int // conditions of the path so far
}

// typeBits: size of an integer type, negative if signed.
func typeBits(t types.Type) (int64, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -8, true
	case types.Int16:
		return -16, true
	case types.Int32:
		return -32, true
	case types.Int, types.Int64:
		return -64, true
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	}
	return 64, true
}

func (w *arithWorld) fits(p npoly, bits int64) bool {
	v := w.f.interval(p)
	if v.lo == nil || v.hi == nil {
		return false
	}
	if bits < 0 {
		return v.lo.Cmp(new(big.Rat).Neg(pow2(-bits-1))) >= 0 && v.hi.Cmp(pow2(-bits-1)) < 0
	}
	return v.lo.Sign() >= 0 && v.hi.Cmp(pow2(bits)) < 0
}

// wrap is p as the integer type holds it.
func (w *arithWorld) wrap(p npoly, t types.Type) npoly {
	bits, ok := typeBits(t)
	if !ok || w.fits(p, bits) {
		return p
	}
	return w.f.app("wrap", p, nint(bits))
}

// cmp decides x op y, forking if the facts do not tell.
func (w *arithWorld) cmp(p npoly, op token.Token) bool {
	if r, ok := w.f.decide(p, op); ok {
		return r
	}
	// A sign: turn it into what it says about the number.
	if k, c, d := p.key(); c != nil {
		if at := w.f.atoms[k]; at != nil && at.fn == "sign" {
			t := at.args[0]
			possible := func(s int) bool {
				var o token.Token
				switch s {
				case -1:
					o = token.LSS
				case 0:
					o = token.EQL
				case 1:
					o = token.GTR
				}
				r, known := w.f.decide(t, o)
				return r || !known
			}
			var yes, no []int
			for s := -1; s <= 1; s++ {
				if !possible(s) {
					continue
				}
				v := new(big.Rat).Add(new(big.Rat).Mul(c, big.NewRat(int64(s), 1)), d)
				if constant.Compare(constant.MakeInt64(int64(v.Sign())), op, constant.MakeInt64(0)) {
					yes = append(yes, s)
				} else {
					no = append(no, s)
				}
			}
			set := func(s []int) {
				key := fmt.Sprint(s)
				for k, o := range map[string]token.Token{"[-1]": token.LSS, "[0]": token.EQL, "[1]": token.GTR, "[-1 0]": token.LEQ, "[0 1]": token.GEQ, "[-1 1]": token.NEQ} {
					if k == key {
						w.f.log = append(w.f.log, ncond{p: t, op: o})
						w.f.learn(t, o)
					}
				}
			}
			if len(no) == 0 {
				return true
			}
			if len(yes) == 0 {
				return false
			}
			r := w.in.decide()
			if r {
				set(yes)
			} else {
				set(no)
			}
			return r
		}
	}
	r := w.in.decide()
	if !r {
		op = negOp(op)
	}
	w.f.log = append(w.f.log, ncond{p: p, op: op})
	w.f.learn(p, op)
	return r
}

func (w *arithWorld) divisor(p npoly, what string) {
	if !w.f.nonzero(p) {
		w.bad = append(w.bad, arithBad{fmt.Sprintf("%s by %s, which may be zero", what, p), p, token.EQL, len(w.f.log)})
	}
}

func (w *arithWorld) interp() *interp {
	in := &interp{p: w.p, max: 60000}
	w.in = in
	in.onCmp = func(op token.Token, x, y av) (bool, bool) {
		_, k1 := x.(knum)
		_, k2 := y.(knum)
		if !k1 && !k2 {
			if kx, ok := x.(kiface); ok {
				if ky, ok := y.(kiface); ok && types.Identical(kx.t, ky.t) {
					a, ok1 := w.num(kx)
					b, ok2 := w.num(ky)
					if ok1 && ok2 {
						if _, isStruct := kx.v.(kstruct); !isStruct {
							return w.cmp(a.sub(b), op), true
						}
					}
				}
			}
			return tokNotNil(op, x, y)
		}
		a, ok1 := w.num(x)
		b, ok2 := w.num(y)
		if !ok1 || !ok2 {
			return false, false
		}
		return w.cmp(a.sub(b), op), true
	}
	in.onBin = func(op token.Token, x, y av, t types.Type) (av, bool) {
		a, ok1 := w.num(x)
		b, ok2 := w.num(y)
		if !ok1 || !ok2 {
			return nil, false
		}
		_, k1 := x.(knum)
		_, k2 := y.(knum)
		if !k1 && !k2 {
			return nil, false
		}
		f := w.f
		if _, ok := typeBits(t); !ok {
			// Floating point: as if it were exact, but see isLog.
			if !w.isLog(a) && !w.isLog(b) {
				w.in.vague = true
			}
			switch op {
			case token.ADD:
				return knum{a.add(b)}, true
			case token.SUB:
				return knum{a.sub(b)}, true
			case token.MUL:
				return knum{f.mul(a, b)}, true
			case token.QUO:
				if f.nonzero(b) {
					return knum{f.mul(a, f.inv(b))}, true
				}
			}
			return kunknown{}, true
		}
		var r npoly
		switch op {
		case token.ADD:
			r = a.add(b)
		case token.SUB:
			r = a.sub(b)
		case token.MUL:
			r = f.mul(a, b)
		case token.QUO:
			w.divisor(b, "division")
			r = f.apply("quo", a, b)
		case token.REM:
			w.divisor(b, "remainder")
			r = f.app("rem", a, b)
		case token.AND:
			r = f.apply("and", a, b)
		case token.OR:
			r = f.apply("or", a, b)
		case token.XOR:
			r = f.apply("xor", a, b)
		case token.SHL:
			r = f.apply("lsh", a, b)
		case token.SHR:
			r = f.app("rsh", a, b)
		default:
			return nil, false
		}
		return w.av(w.wrap(r, t)), true
	}
	in.onUn = func(op token.Token, x av, t types.Type) (av, bool) {
		k, ok := x.(knum)
		if !ok {
			return nil, false
		}
		switch op {
		case token.SUB:
			return w.av(w.wrap(k.p.neg(), t)), true
		case token.XOR:
			if b, ok := typeBits(t); ok && b < 0 {
				return w.av(w.wrap(nint(-1).sub(k.p), t)), true
			}
		}
		return kunknown{}, true
	}
	in.onConv = func(x av, from, to types.Type) (av, bool) {
		k, ok := x.(knum)
		if !ok {
			return nil, false
		}
		if _, ok := typeBits(to); ok {
			if _, ok := typeBits(from); ok {
				return w.av(w.wrap(k.p, to)), true
			}
		}
		_, fromInt := typeBits(from)
		_, toInt := typeBits(to)
		switch {
		case fromInt && !toInt:
			return knum{w.f.app("float", k.p)}, true
		case !fromInt && toInt:
			return w.av(w.wrap(w.f.apply("trunc", k.p), to)), true
		}
		return x, true
	}
	in.onGlobal = w.global
	in.onCall = w.call
	return in
}

// global evaluates the initialiser of a package variable.
func (w *arithWorld) global(in *interp, g *ssa.Global) (av, bool) {
	if !w.p.inModulePkg(g.Pkg) {
		return nil, false
	}
	sts := w.p.storesToGlobal(g)
	if len(sts) != 1 || sts[0].Parent().Name() != "init" {
		return nil, false
	}
	n := namedOf(g.Type().(*types.Pointer).Elem())
	if n != nil && n.Obj().Name() == "Float" {
		return nil, false
	}
	fr := &frame{fn: sts[0].Parent(), env: map[ssa.Value]av{}}
	cost := 0
	var lazy func(v ssa.Value) bool
	lazy = func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		if !ok || v.Parent() != fr.fn {
			return true
		}
		if _, done := fr.env[v]; done {
			return true
		}
		if cost++; cost > 30 {
			return false
		}
		switch v.(type) {
		case *ssa.Call, *ssa.MakeInterface, *ssa.Alloc, *ssa.UnOp, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Slice, *ssa.IndexAddr:
		default:
			return false
		}
		var rs []*ssa.Value
		for _, o := range i.Operands(rs) {
			if o != nil && *o != nil && !lazy(*o) {
				return false
			}
		}
		fr.env[v] = in.eval(fr, v)
		if al, ok := v.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				switch x := ref.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					xv := x.(ssa.Value)
					if !lazy(xv) {
						return false
					}
					for _, r2 := range *xv.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == xv {
							if !lazy(st.Val) {
								return false
							}
							if pt, ok := in.val(fr, xv).(kptr); ok && pt.o != nil {
								in.store(pt.o, in.val(fr, st.Val))
							}
						}
					}
				}
			}
		}
		return true
	}
	if !lazy(sts[0].Val) {
		return nil, false
	}
	v := in.val(fr, sts[0].Val)
	if _, unk := v.(kunknown); unk {
		return nil, false
	}
	return v, true
}

func (w *arithWorld) bigObj(kind string, p npoly) av {
	n := w.p.bigType(kind)
	o := &obj{elem: n}
	w.terms[o] = p
	return kptr{o}
}

// bigType is math/big's Int, Rat or Float.
func (p *Prog) bigType(name string) types.Type {
	for _, k := range []string{"BigInt", "BigRat", "BigFloat"} {
		n := p.namedType("value", k)
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || st.NumFields() != 1 {
			continue
		}
		if m := namedOf(st.Field(0).Type()); m != nil && m.Obj().Name() == name {
			return m
		}
	}
	return types.Typ[types.Invalid]
}

// value makes an ivy value of a kind.
func (w *arithWorld) value(kind string, p npoly) av {
	switch kind {
	case "int":
		return kiface{w.p.namedType("value", "Int"), w.av(p)}
	case "bigInt":
		return kiface{w.p.namedType("value", "BigInt"), kstruct{f: []av{w.bigObj("Int", p)}}}
	case "bigRat":
		return kiface{w.p.namedType("value", "BigRat"), kstruct{f: []av{w.bigObj("Rat", p)}}}
	}
	return kunknown{}
}

// evaluated is the result of an ivy operator on values, in its smallest kind.
func (w *arithWorld) evaluated(p npoly) av {
	v := w.value("bigRat", p).(kiface)
	w.canon[v.v.(kstruct).f[0].(kptr).o] = true
	return v
}

// isCanon: v is the result of evaluation, whose kind is not known.
func (w *arithWorld) isCanon(v av) bool {
	if k, ok := v.(kiface); ok {
		v = k.v
	}
	if st, ok := v.(kstruct); ok && len(st.f) == 1 {
		v = st.f[0]
	}
	pt, ok := v.(kptr)
	return ok && pt.o != nil && w.canon[pt.o]
}

func (w *arithWorld) call(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
	if w.hook != nil {
		if v, ok := w.hook(in, callee, m, args); ok {
			return v, true
		}
	}
	name := ""
	if callee != nil {
		name = callee.Name()
	} else if m != nil {
		name = m.Name()
	}
	if callee == nil {
		switch name {
		case "Config":
			return ktok{"CONF"}, true
		case "EvalUnary", "EvalBinary":
			return w.evalOp(name == "EvalBinary", args[1:]), true
		case "UserDefined":
			return kunknown{}, true
		}
		return nil, false
	}
	if relPkg(callee) == "config" {
		switch name {
		case "MaxBits", "MaxDigits", "FloatPrec", "Origin":
			if name == "MaxBits" && !w.limit {
				return iconst(0), true
			}
			n := strings.ToUpper(name)
			if !w.f.ints[n] {
				w.f.ints[n] = true
				w.f.iv[n] = ival{lo: new(big.Rat), hi: pow2(30)}
			}
			return knum{natom(n)}, true
		}
		if callee.Signature.Results().Len() == 1 {
			return ktok{"CONF." + name}, true
		}
		return kunknown{}, true
	}
	if relPkg(callee) == "value" {
		recv := recvName(callee)
		switch {
		case name == "Errorf" && recv == "":
			panic(absPanic{sconst("error")})
		case name == "toType" && len(args) == 4:
			if p, ok := w.num(args[0]); ok {
				if n, ok := constOf(args[3]); ok {
					switch k := w.p.kindNumbers()[n]; k {
					case "bigInt", "bigRat":
						if w.isCanon(args[0]) {
							return w.value(k, p), true
						}
					case "bigFloat":
						w.float = true
						in.abort("float")
					}
				}
			}
		case name == "floatSelf" || name == "power":
			w.float = true
			in.abort("float")
		case name == "factorial" && len(args) == 1:
			if n, ok := w.num(args[0]); ok {
				if w.grow != nil {
					w.grow("factorial", w.f.app("fact", n))
				}
				return w.bigObj("Int", w.f.app("fact", n)), true
			}
		case (name == "EvalUnary" || name == "EvalBinary") && recv != "":
			if len(args) >= 3 {
				return kunknown{}, true
			}
		}
		return nil, false
	}
	if relTo(callee) == "math" && name == "Lgamma" && len(args) == 1 {
		if k, ok := args[0].(knum); ok {
			return ktuple{[]av{knum{w.f.app("lgamma", k.p)}, kunknown{}}}, true
		}
	}
	if relTo(callee) == "math/big" || strings.HasSuffix(name, "$thunk") && callee.Object() != nil && callee.Object().Pkg() != nil && callee.Object().Pkg().Path() == "math/big" {
		return w.big(in, callee, args)
	}
	if !w.p.inModule(callee) {
		for _, a := range args {
			if pt, ok := a.(kptr); ok && pt.o != nil {
				if _, ok := w.terms[pt.o]; ok {
					in.vague = true
				}
			}
		}
	}
	return nil, false
}

// evalOp is an operator applied through the context.
func (w *arithWorld) evalOp(binary bool, args []av) av {
	f := w.f
	var op string
	var xs []av
	if binary {
		op, _ = constString(args[1])
		xs = []av{args[0], args[2]}
	} else {
		op, _ = constString(args[0])
		xs = []av{args[1]}
	}
	var ps []npoly
	for _, x := range xs {
		p, ok := w.num(x)
		if !ok {
			return kunknown{}
		}
		ps = append(ps, p)
	}
	if !binary {
		switch op {
		case "-":
			return w.evaluated(ps[0].neg())
		case "+":
			return w.evaluated(ps[0])
		case "/":
			w.divisor(ps[0], "reciprocal")
			return w.evaluated(f.inv(ps[0]))
		case "abs", "floor", "ceil":
			return w.evaluated(f.apply(op, ps[0]))
		}
		return kunknown{}
	}
	a, b := ps[0], ps[1]
	switch op {
	case "+":
		return w.evaluated(a.add(b))
	case "-":
		return w.evaluated(a.sub(b))
	case "*":
		return w.evaluated(f.mul(a, b))
	case "/":
		w.divisor(b, "division")
		return w.evaluated(f.mul(a, f.inv(b)))
	case "**":
		return w.evaluated(f.apply("exp", a, b))
	case "idiv":
		w.divisor(b, "division")
		return w.evaluated(f.apply("quo", a, b))
	case "mod", "div":
		return w.evaluated(f.apply(op, a, b))
	case "==", "!=", "<", "<=", ">", ">=":
		t := map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}[op]
		n := int64(0)
		if w.cmp(a.sub(b), t) {
			n = 1
		}
		return kiface{w.p.namedType("value", "Int"), iconst(n)}
	}
	return kunknown{}
}

// big models math/big.
func (w *arithWorld) big(in *interp, callee *ssa.Function, args []av) (av, bool) {
	f := w.f
	recv := recvName(callee)
	n := callee.Name()
	if strings.HasSuffix(n, "$thunk") && callee.Object() != nil {
		// A method expression.
		if sig, ok := callee.Object().Type().(*types.Signature); ok && sig.Recv() != nil {
			n = callee.Object().Name()
			if nt := namedOf(sig.Recv().Type()); nt != nil {
				recv = nt.Obj().Name()
			}
		}
	}
	get := func(i int) npoly {
		if i >= len(args) {
			in.abort("math/big." + n)
		}
		p, ok := w.num(args[i])
		if !ok {
			if w.isFloat(args[i]) {
				w.float = true
				in.abort("float")
			}
			in.abort("operand of math/big's %s is not known", n)
		}
		return p
	}
	if recv == "" {
		switch n {
		case "NewInt":
			return w.bigObj("Int", get(0)), true
		case "NewRat":
			b := get(1)
			w.divisor(b, "NewRat")
			return w.bigObj("Rat", f.mul(get(0), f.inv(b))), true
		}
		return kunknown{}, true
	}
	if recv == "Float" {
		w.float = true
		in.abort("float")
	}
	set := func(p npoly) (av, bool) {
		pt, ok := args[0].(kptr)
		if !ok || pt.o == nil {
			return w.bigObj(recv, p), true
		}
		w.terms[pt.o] = p
		return pt, true
	}
	grow := func(p npoly) npoly {
		if w.grow != nil {
			w.grow(n, p)
		}
		return p
	}
	switch n {
	case "Set", "SetInt64", "SetUint64", "SetInt":
		return set(get(1))
	case "SetFrac", "SetFrac64":
		b := get(2)
		w.divisor(b, n)
		return set(f.mul(get(1), f.inv(b)))
	case "Add":
		return set(grow(get(1).add(get(2))))
	case "Sub":
		return set(grow(get(1).sub(get(2))))
	case "Mul":
		return set(grow(f.mul(get(1), get(2))))
	case "Neg":
		return set(get(1).neg())
	case "Abs":
		return set(f.apply("abs", get(1)))
	case "Inv":
		w.divisor(get(1), n)
		return set(f.inv(get(1)))
	case "Not":
		return set(nint(-1).sub(get(1)))
	case "Quo":
		b := get(2)
		w.divisor(b, n)
		if recv == "Rat" {
			return set(f.mul(get(1), f.inv(b)))
		}
		return set(f.apply("quo", get(1), b))
	case "Rem":
		b := get(2)
		w.divisor(b, n)
		return set(f.app("rem", get(1), b))
	case "Div", "Mod":
		b := get(2)
		w.divisor(b, n)
		return set(f.app(strings.ToLower(n), get(1), b))
	case "DivMod", "QuoRem":
		a, b := get(1), get(2)
		w.divisor(b, n)
		q, r := f.app("div", a, b), f.app("mod", a, b)
		if n == "QuoRem" {
			q, r = f.apply("quo", a, b), f.app("rem", a, b)
		}
		pt, ok := args[3].(kptr)
		if !ok || pt.o == nil {
			in.abort("remainder of " + n)
		}
		w.terms[pt.o] = r
		res, _ := set(q)
		return ktuple{[]av{res, pt}}, true
	case "And", "Or", "Xor":
		return set(f.apply(strings.ToLower(n), get(1), get(2)))
	case "Lsh":
		return set(grow(f.apply("lsh", get(1), get(2))))
	case "Rsh":
		return set(f.app("rsh", get(1), get(2)))
	case "Exp":
		if k, ok := args[3].(kconst); !ok || k.v != nil {
			in.abort("modular Exp")
		}
		k := get(2)
		if v := f.interval(k); v.lo == nil || v.lo.Sign() < 0 {
			w.bad = append(w.bad, arithBad{fmt.Sprintf("Exp with the exponent %s, which may be negative, gives 1", k), k, token.LSS, len(f.log)})
		}
		return set(grow(f.apply("exp", get(1), k)))
	case "Sign":
		return w.av(f.apply("sign", get(0))), true
	case "Cmp":
		return w.av(f.apply("sign", get(0).sub(get(1)))), true
	case "CmpAbs":
		return w.av(f.apply("sign", f.apply("abs", get(0)).sub(f.apply("abs", get(1))))), true
	case "BitLen":
		return w.av(f.apply("bitlen", get(0))), true
	case "Int64":
		return w.av(w.wrap(get(0), types.Typ[types.Int64])), true
	case "Uint64":
		return w.av(w.wrap(get(0), types.Typ[types.Uint64])), true
	case "IsInt64", "IsUint64":
		p := get(0)
		lo, hi := new(big.Rat).Neg(pow2(63)), pow2(63)
		if n == "IsUint64" {
			lo, hi = new(big.Rat), pow2(64)
		}
		if !w.cmp(p.sub(nconst(lo)), token.GEQ) {
			return bconst(false), true
		}
		return bconst(w.cmp(p.sub(nconst(hi)), token.LSS)), true
	case "Bit":
		if c, ok := get(1).isConst(); ok && c.Sign() == 0 {
			return w.av(f.apply("and", get(0), nint(1))), true
		}
	case "IsInt":
		p := get(0)
		if f.integer(p) {
			return bconst(true), true
		}
		k, c, d := p.key()
		if c == nil {
			return bconst(d.IsInt()), true
		}
		if d.Sign() == 0 && c.Num().IsInt64() && c.IsInt() && (c.Num().Int64() == 1 || c.Num().Int64() == -1) {
			if v, ok := f.isInt[k]; ok {
				return bconst(v), true
			}
			v := in.decide()
			f.isInt[k] = v
			if v {
				f.log = append(f.log, ncond{p: p, frac: 1})
			} else {
				f.log = append(f.log, ncond{p: p, frac: -1})
			}
			return bconst(v), true
		}
		return kunknown{}, true
	case "Num", "Denom":
		fn := map[string]string{"Num": "num", "Denom": "den"}[n]
		return w.bigObj("Int", f.apply(fn, get(0))), true
	}
	switch n {
	case "String", "Text", "Append", "Format", "RatString", "FloatString", "Float64", "Float32":
	default:
		w.in.vague = true // may change the receiver
	}
	return kunknown{}, true
}

// isLog: p is made of the logarithm of a factorial, where approximation does not matter.
func (w *arithWorld) isLog(p npoly) bool {
	for k := range p {
		for _, a := range splitMono(k) {
			if at := w.f.atoms[a]; at != nil && at.fn == "lgamma" {
				return true
			}
		}
	}
	return false
}

func (w *arithWorld) isFloat(a av) bool {
	if pt, ok := a.(kptr); ok && pt.o != nil {
		n := namedOf(pt.o.elem)
		return n != nil && n.Obj().Name() == "Float"
	}
	if t, ok := a.(ktok); ok {
		return strings.Contains(t.name, "loat")
	}
	return false
}
