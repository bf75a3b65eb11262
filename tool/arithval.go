package main

// Valuations of the abstract numbers: an obligation that the facts of a path do not establish is
// reported only together with operands that satisfy the path's conditions and contradict it.

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"
)

// valuation gives the operands values and computes the atoms from them.
type valuation struct {
	f    *nfacts
	x    map[string]*big.Rat
	memo map[string]*big.Rat
	// lenient: conditions on numbers too large to compute count as satisfied.
	lenient bool
}

func newValuation(f *nfacts) *valuation {
	return &valuation{f: f, x: map[string]*big.Rat{}, memo: map[string]*big.Rat{}}
}

func (v *valuation) eval(p npoly) *big.Rat {
	sum := new(big.Rat)
	for k, c := range p {
		m := new(big.Rat).Set(c)
		for _, a := range splitMono(k) {
			x := v.atom(a)
			if x == nil {
				return nil
			}
			m.Mul(m, x)
		}
		sum.Add(sum, m)
	}
	return sum
}

func (v *valuation) atom(a string) *big.Rat {
	if x, ok := v.x[a]; ok {
		return x
	}
	if x, ok := v.memo[a]; ok {
		return x
	}
	v.memo[a] = nil
	at := v.f.atoms[a]
	if at == nil {
		return nil
	}
	var xs []*big.Rat
	for _, p := range at.args {
		x := v.eval(p)
		if x == nil {
			return nil
		}
		xs = append(xs, x)
	}
	r := evalAtom(at.fn, xs)
	v.memo[a] = r
	return r
}

func ratInt(i *big.Int) *big.Rat { return new(big.Rat).SetInt(i) }
func truncRat(r *big.Rat) *big.Int {
	return new(big.Int).Quo(r.Num(), r.Denom())
}
func floorRat(r *big.Rat) *big.Int { return new(big.Int).Div(r.Num(), r.Denom()) }

func evalAtom(fn string, x []*big.Rat) *big.Rat {
	ints := func() bool {
		for _, r := range x {
			if !r.IsInt() {
				return false
			}
		}
		return true
	}
	switch fn {
	case "inv":
		if x[0].Sign() == 0 {
			return nil
		}
		return new(big.Rat).Inv(x[0])
	case "abs":
		return new(big.Rat).Abs(x[0])
	case "sign":
		return big.NewRat(int64(x[0].Sign()), 1)
	case "trunc":
		return ratInt(truncRat(x[0]))
	case "floor":
		return ratInt(floorRat(x[0]))
	case "ceil":
		return ratInt(new(big.Int).Neg(floorRat(new(big.Rat).Neg(x[0]))))
	case "num":
		return ratInt(x[0].Num())
	case "den":
		return ratInt(x[0].Denom())
	case "bitlen":
		if !ints() {
			return nil
		}
		return big.NewRat(int64(x[0].Num().BitLen()), 1)
	case "LSS", "LEQ", "GTR", "GEQ", "EQL", "NEQ":
		if signIs(x[0].Sign(), truthOps[fn]) {
			return big.NewRat(1, 1)
		}
		return new(big.Rat)
	case "min", "max":
		if (x[0].Cmp(x[1]) < 0) == (fn == "min") {
			return x[0]
		}
		return x[1]
	case "quo":
		if x[1].Sign() == 0 {
			return nil
		}
		return ratInt(truncRat(new(big.Rat).Quo(x[0], x[1])))
	case "rem", "mod", "div":
		if x[1].Sign() == 0 {
			if fn == "mod" {
				return x[0]
			}
			return nil
		}
		q := truncRat(new(big.Rat).Quo(x[0], x[1]))
		r := new(big.Rat).Sub(x[0], new(big.Rat).Mul(x[1], ratInt(q)))
		if fn == "rem" {
			return r
		}
		if r.Sign() < 0 {
			r.Add(r, new(big.Rat).Abs(x[1]))
		}
		if fn == "mod" {
			return r
		}
		return r.Quo(r.Sub(x[0], r), x[1])
	case "and", "or", "xor":
		if !ints() {
			return nil
		}
		z := new(big.Int)
		switch fn {
		case "and":
			z.And(x[0].Num(), x[1].Num())
		case "or":
			z.Or(x[0].Num(), x[1].Num())
		case "xor":
			z.Xor(x[0].Num(), x[1].Num())
		}
		return ratInt(z)
	case "exp":
		if !x[1].IsInt() || !x[1].Num().IsInt64() {
			return nil
		}
		k := x[1].Num().Int64()
		if k < 0 && x[0].Sign() == 0 {
			return nil
		}
		neg := k < 0
		if neg {
			k = -k
		}
		if n := x[0].Num().BitLen() + x[0].Denom().BitLen() - 2; n > 0 && k > int64(3000/n) {
			return nil
		}
		if x[0].Num().BitLen() == 1 && x[0].Denom().BitLen() == 1 {
			k = 2 - k%2 // plus or minus one: parity is enough
		}
		e := big.NewInt(k)
		if k > 3000 {
			return nil
		}
		z := new(big.Rat).SetFrac(new(big.Int).Exp(x[0].Num(), e, nil), new(big.Int).Exp(x[0].Denom(), e, nil))
		if neg {
			z.Inv(z)
		}
		return z
	case "rsh":
		if !ints() || x[1].Sign() < 0 || !x[1].Num().IsInt64() {
			return nil
		}
		n := x[1].Num().Int64()
		if n > 100000 {
			n = 100000
		}
		return ratInt(new(big.Int).Rsh(x[0].Num(), uint(n)))
	case "float":
		if x[0].Num().BitLen() > 53 {
			return nil
		}
		return x[0]
	case "lgamma":
		n, _ := x[0].Float64()
		l, _ := math.Lgamma(n)
		return new(big.Rat).SetFloat64(l)
	case "fact":
		if !ints() || x[0].Sign() < 0 || x[0].Cmp(big.NewRat(2000, 1)) > 0 {
			return nil
		}
		return ratInt(new(big.Int).MulRange(1, x[0].Num().Int64()))
	case "wrap":
		if !ints() {
			return nil
		}
		bits := x[1].Num().Int64()
		signed := bits < 0
		if signed {
			bits = -bits
		}
		m := new(big.Int).Exp(two, big.NewInt(bits), nil)
		z := new(big.Int).Mod(x[0].Num(), m)
		if signed && z.Bit(int(bits-1)) == 1 {
			z.Sub(z, m)
		}
		return ratInt(z)
	}
	return nil
}

func signIs(s int, op token.Token) bool {
	switch op {
	case token.LSS:
		return s < 0
	case token.LEQ:
		return s <= 0
	case token.GTR:
		return s > 0
	case token.GEQ:
		return s >= 0
	case token.EQL:
		return s == 0
	case token.NEQ:
		return s != 0
	}
	return false
}

// holds: the valuation satisfies the conditions.
func (v *valuation) holds(cs []ncond) bool {
	for _, c := range cs {
		x := v.eval(c.p)
		if x == nil {
			if v.lenient {
				continue
			}
			return false
		}
		if c.frac != 0 {
			if x.IsInt() != (c.frac > 0) {
				return false
			}
			continue
		}
		if !signIs(x.Sign(), c.op) {
			return false
		}
	}
	return true
}

// candidates are the values tried for an operand: the ends of its range, those near the constants
// the path compares with, and a few of each sign and size.
func (f *nfacts) candidates(kind string) []*big.Rat {
	seen := map[string]bool{}
	var out []*big.Rat
	lo, hi := new(big.Rat).Neg(pow2(31)), new(big.Rat).Sub(pow2(31), big.NewRat(1, 1))
	add := func(r *big.Rat) {
		switch kind {
		case "int":
			if !r.IsInt() || r.Cmp(lo) < 0 || r.Cmp(hi) > 0 {
				return
			}
		case "bigInt":
			if !r.IsInt() {
				return
			}
		case "bits":
			if !r.IsInt() || r.Sign() < 0 || r.Cmp(pow2(30)) > 0 {
				return
			}
		}
		if s := r.RatString(); !seen[s] {
			seen[s] = true
			out = append(out, r)
		}
	}
	near := func(r *big.Rat) {
		for _, d := range []int64{0, -1, 1} {
			x := new(big.Rat).Add(r, big.NewRat(d, 1))
			add(x)
			add(new(big.Rat).Neg(x))
		}
	}
	for _, n := range []int64{0, 2, 3, 5, 7, 10, 12, 31, 32, 33, 63, 64} {
		near(big.NewRat(n, 1))
	}
	for _, n := range []int64{16, 30, 31, 32, 33, 34, 53, 62, 63, 64, 65, 70} {
		near(pow2(n))
	}
	add(big.NewRat(123456789, 1))
	add(big.NewRat(-987654321, 1))
	add(ratInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(21), nil)))
	for _, c := range f.log {
		_, k, d := c.p.key()
		if k == nil {
			continue
		}
		near(new(big.Rat).Quo(d, k))
	}
	if kind == "bigRat" {
		for _, r := range []*big.Rat{big.NewRat(1, 2), big.NewRat(1, 3), big.NewRat(2, 3), big.NewRat(3, 2), big.NewRat(5, 2), big.NewRat(7, 3), big.NewRat(22, 7),
			new(big.Rat).SetFrac(pow2(33).Num(), big.NewInt(3)), new(big.Rat).SetFrac(big.NewInt(3), pow2(33).Num()), new(big.Rat).SetFrac(pow2(40).Num(), big.NewInt(5))} {
			add(r)
			add(new(big.Rat).Neg(r))
		}
	}
	return out
}

var witnessStart = time.Now()

// witness looks for operands of the kinds that satisfy the path's first n conditions and for which bad says
// that something is wrong.
func (f *nfacts) witness(n int, names, kinds []string, legal func(x []*big.Rat) bool, bad func(v *valuation, x []*big.Rat) bool) string {
	var cands [][]*big.Rat
	for _, k := range kinds {
		c := f.candidates(k)
		if len(kinds) > 2 && len(c) > 12 {
			small := []*big.Rat{new(big.Rat), big.NewRat(1, 1), big.NewRat(-1, 1), big.NewRat(2, 1), big.NewRat(-2, 1), big.NewRat(3, 1), big.NewRat(1, 2)}
			c = small
		}
		cands = append(cands, c)
	}
	return f.witnessIn(n, names, cands, legal, bad)
}

// witnessIn is witness with the values to try.
func (f *nfacts) witnessIn(n int, names []string, cands [][]*big.Rat, legal func(x []*big.Rat) bool, bad func(v *valuation, x []*big.Rat) bool) string {
	if time.Since(witnessStart) > 5*time.Minute {
		return "" // enough: the obligation stays undecided
	}
	x := make([]*big.Rat, len(names))
	// The conditions that the first i operands settle.
	index := map[string]int{}
	for i, n := range names {
		index[n] = i
	}
	var level func(p npoly) int
	level = func(p npoly) int {
		l := 0
		for k := range p {
			for _, a := range splitMono(k) {
				if i, ok := index[a]; ok && i > l {
					l = i
				}
				if at := f.atoms[a]; at != nil {
					for _, q := range at.args {
						if m := level(q); m > l {
							l = m
						}
					}
				}
			}
		}
		return l
	}
	conds := make([][]ncond, len(names))
	for _, c := range f.log[:n] {
		l := level(c.p)
		conds[l] = append(conds[l], c)
	}
	var found string
	var rec func(i int) bool
	rec = func(i int) bool {
		for _, c := range cands[i] {
			x[i] = c
			v := newValuation(f)
			v.lenient = f.lenient
			for j, n := range names[:i+1] {
				v.x[n] = x[j]
			}
			if i == len(names)-1 && !legal(x) || !v.holds(conds[i]) {
				continue
			}
			if i < len(names)-1 {
				if rec(i + 1) {
					return true
				}
				continue
			}
			if bad(v, x) {
				var s []string
				for j, n := range names {
					s = append(s, n+"="+x[j].RatString())
				}
				sort.Strings(s)
				found = strings.Join(s, ", ")
				return true
			}
		}
		return false
	}
	rec(0)
	return found
}

func (c ncond) String() string {
	switch c.frac {
	case 1:
		return fmt.Sprintf("%s is an integer", c.p)
	case -1:
		return fmt.Sprintf("%s is not an integer", c.p)
	}
	return fmt.Sprintf("%s %s 0", c.p, c.op)
}

// cond renders the path's conditions.
func (f *nfacts) cond() string {
	var s []string
	for _, c := range f.log {
		s = append(s, c.String())
	}
	if len(s) == 0 {
		return ""
	}
	t := strings.Join(s, ", ")
	if len(t) > 400 {
		t = t[:400] + "..."
	}
	return " on the path where " + t
}
