package main

// C12: comparison, ordering, boolean and selection operators mean the same thing
// on every numeric kind. Decided by abstract interpretation over the finite set of
// orderings, signs and truth values of the operands.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

var kindGoType = map[string]string{"int": "Int", "char": "Char", "bigInt": "BigInt", "bigRat": "BigRat", "bigFloat": "BigFloat", "complex": "Complex", "vector": "Vector", "matrix": "Matrix"}
var goTypeKind = map[string]string{"Int": "int", "Char": "char", "BigInt": "bigInt", "BigRat": "bigRat", "BigFloat": "bigFloat", "Complex": "complex", "Vector": "vector", "Matrix": "matrix"}

// valueKindOfType: which ivy kind a Go type implements, or "".
func valueKindOfType(t types.Type) string {
	ptr := false
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/value" {
		return ""
	}
	k := goTypeKind[n.Obj().Name()]
	if ptr != (k == "vector" || k == "matrix") {
		return ""
	}
	return k
}

// scen is one abstract scenario for operands u and v.
type scen struct {
	kind map[string]string // token -> kind
	ord  map[string]int    // "a|b" -> -1,0,1
	sign map[string]int
	desc string
}

func (s *scen) norm(name string) string {
	for _, suf := range []string{".Int", ".Rat", ".Float", ".*"} {
		for strings.HasSuffix(name, suf) {
			name = strings.TrimSuffix(name, suf)
		}
	}
	return name
}

func (s *scen) order(a, b string) (int, bool) {
	a, b = s.norm(a), s.norm(b)
	if a == b {
		return 0, true
	}
	if o, ok := s.ord[a+"|"+b]; ok {
		return o, true
	}
	if o, ok := s.ord[b+"|"+a]; ok {
		return -o, true
	}
	return 0, false
}

func tokOf(a av) (string, bool) {
	switch x := a.(type) {
	case ktok:
		return x.name, true
	case kiface:
		return tokOf(x.v)
	case kstruct:
		// A copy of a value held in a local variable: fields of one token.
		base := ""
		for _, f := range x.f {
			t, ok := f.(ktok)
			if !ok {
				return "", false
			}
			i := strings.LastIndexByte(t.name, '.')
			if i < 0 || (base != "" && t.name[:i] != base) {
				return "", false
			}
			base = t.name[:i]
		}
		return base, base != ""
	}
	return "", false
}

func constOf(a av) (int64, bool) {
	switch x := a.(type) {
	case kconst:
		if x.v != nil && x.v.Kind() == constant.Int {
			n, ok := constant.Int64Val(x.v)
			return n, ok
		}
	case kiface:
		return constOf(x.v)
	}
	return 0, false
}

func cmpInt(op token.Token, a, b int) bool {
	return constant.Compare(constant.MakeInt64(int64(a)), op, constant.MakeInt64(int64(b)))
}

// newScenInterp builds an interpreter whose hooks answer queries about the operand tokens.
func newScenInterp(p *Prog, s *scen) *interp {
	intT := p.namedType("value", "Int")
	in := &interp{p: p}
	in.onAssert = func(x av, t types.Type) (av, bool, bool) {
		name, ok := tokOf(x)
		if !ok {
			return nil, false, false
		}
		k, ok := s.kind[s.norm(name)]
		if !ok {
			return nil, false, false
		}
		if types.IsInterface(t) {
			return nil, false, false
		}
		if vk := valueKindOfType(t); vk != "" {
			return ktok{name}, true, vk == k
		}
		return nil, true, false
	}
	in.onCmp = func(op token.Token, x, y av) (bool, bool) {
		a, ok1 := tokOf(x)
		b, ok2 := tokOf(y)
		if ok1 && ok2 {
			if o, ok := s.order(a, b); ok {
				return cmpInt(op, o, 0), true
			}
			return false, false
		}
		if ok1 {
			if c, ok := constOf(y); ok && c == 0 {
				if sg, ok := s.sign[s.norm(a)]; ok {
					return cmpInt(op, sg, 0), true
				}
			}
		}
		if ok2 {
			if c, ok := constOf(x); ok && c == 0 {
				if sg, ok := s.sign[s.norm(b)]; ok {
					return cmpInt(op, 0, sg), true
				}
			}
		}
		return false, false
	}
	in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
		name := ""
		if callee != nil {
			name = callee.Name()
		} else if m != nil {
			name = m.Name()
		}
		switch name {
		case "Inner", "shrink", "Eval":
			if len(args) >= 1 {
				if t, ok := tokOf(args[0]); ok {
					return ktok{t}, true
				}
			}
		case "Cmp":
			if len(args) == 2 {
				a, ok1 := tokOf(args[0])
				b, ok2 := tokOf(args[1])
				if ok1 && ok2 {
					if o, ok := s.order(a, b); ok {
						return iconst(int64(o)), true
					}
				}
			}
		case "Sign":
			if len(args) == 1 {
				if a, ok := tokOf(args[0]); ok {
					if sg, ok := s.sign[s.norm(a)]; ok {
						return iconst(int64(sg)), true
					}
				}
			}
		case "Signbit":
			if len(args) == 1 {
				if a, ok := tokOf(args[0]); ok {
					if sg, ok := s.sign[s.norm(a)]; ok && sg != 0 {
						return bconst(sg < 0), true
					}
				}
			}
		case "EvalBinary":
			if m != nil && len(args) == 4 {
				a, ok1 := tokOf(args[1])
				b, ok2 := tokOf(args[3])
				if opc, ok := args[2].(kconst); ok && ok1 && ok2 && opc.v != nil {
					if o, ok := s.order(a, b); ok {
						if tok, ok := cmpTok[constant.StringVal(opc.v)]; ok {
							r := int64(0)
							if cmpInt(tok, o, 0) {
								r = 1
							}
							return kiface{intT, iconst(r)}, true
						}
					}
				}
			}
			return kunknown{}, true
		case "EvalUnary":
			return kunknown{}, m != nil
		}
		return nil, false
	}
	return in
}

var cmpTok = map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}

func showAV(a av) string {
	switch x := a.(type) {
	case kconst:
		if x.v == nil {
			return "nil"
		}
		return x.v.ExactString()
	case ktok:
		return x.name
	case kiface:
		return showAV(x.v)
	case ktuple:
		var s []string
		for _, f := range x.f {
			s = append(s, showAV(f))
		}
		return "(" + strings.Join(s, ",") + ")"
	case kunknown:
		return "?"
	}
	return fmt.Sprintf("%T", a)
}

// runScen evaluates fn(c,u,v) in the scenario, returning the set of possible results as strings.
func runScen(p *Prog, s *scen, fn *ssa.Function, bind []av, args []av) []string {
	outs := explore(p, func() *interp { return newScenInterp(p, s) }, func(in *interp) av { return in.call(fn, args, bind) }, 200)
	seen := map[string]bool{}
	var res []string
	for _, o := range outs {
		r := ""
		switch {
		case o.aborted != "":
			r = "undecided:" + o.aborted
		case o.panicked:
			r = "error"
		default:
			if t, ok := tokOf(o.ret); ok {
				r = s.norm(t)
			} else {
				r = showAV(o.ret)
			}
		}
		if !seen[r] {
			seen[r] = true
			res = append(res, r)
		}
	}
	return res
}

// orderScens enumerates the 13 consistent (sign u, sign v, order) combinations.
func orderScens(ku, kv string) []*scen {
	var out []*scen
	for su := -1; su <= 1; su++ {
		for sv := -1; sv <= 1; sv++ {
			for o := -1; o <= 1; o++ {
				if su < sv && o != -1 || su > sv && o != 1 || su == 0 && sv == 0 && o != 0 {
					continue
				}
				if (ku == "char" && su < 0) || (kv == "char" && sv < 0) {
					continue
				}
				out = append(out, &scen{
					kind: map[string]string{"u": ku, "v": kv},
					ord:  map[string]int{"u|v": o},
					sign: map[string]int{"u": su, "v": sv},
					desc: fmt.Sprintf("sign(u)=%d sign(v)=%d cmp(u,v)=%d", su, sv, o),
				})
			}
		}
	}
	return out
}

func complexScens() []*scen {
	var out []*scen
	for r := -1; r <= 1; r++ {
		for i := -1; i <= 1; i++ {
			for m := 0; m < 16; m++ {
				b := func(k int) int { return (m >> k) & 1 }
				ur, ui, vr, vi := b(0), b(1), b(2), b(3)
				// equal components have equal zero-ness; zero/non-zero mix cannot be equal
				if r == 0 && ur != vr || i == 0 && ui != vi || (r != 0 && ur == 0 && vr == 0) || (i != 0 && ui == 0 && vi == 0) {
					continue
				}
				sg := func(nz, other, ord, side int) int {
					if nz == 0 {
						return 0
					}
					if other == 0 { // compared with zero: sign follows the order
						if side == 0 {
							return ord
						}
						return -ord
					}
					return 1
				}
				out = append(out, &scen{
					kind: map[string]string{"u": "complex", "v": "complex", "u.real": "int", "u.imag": "int", "v.real": "int", "v.imag": "int"},
					ord:  map[string]int{"u.real|v.real": r, "u.imag|v.imag": i},
					sign: map[string]int{"u.real": sg(ur, vr, r, 0), "v.real": sg(vr, ur, r, 1), "u.imag": sg(ui, vi, i, 0), "v.imag": sg(vi, ui, i, 1)},
					desc: fmt.Sprintf("cmp(real)=%d cmp(imag)=%d nonzero(ur,ui,vr,vi)=%d%d%d%d", r, i, ur, ui, vr, vi),
				})
			}
		}
	}
	return out
}

func b2s(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func in(s string, set ...string) bool {
	for _, x := range set {
		if s == x {
			return true
		}
	}
	return false
}

func checkC12(p *Prog, r *Report) {
	r.rule("compare-table", "each comparison operator, on each scalar kind that implements it, yields exactly the boolean its mathematical ordering dictates in every ordering/sign scenario", 26)
	r.rule("boolean-table", "and/or/xor/nand/nor/not yield exactly their truth table over zero/non-zero operands on every kind that implements them", 34)
	r.rule("select-table", "min/max return the correct operand and sgn the correct sign on every kind", 14)
	r.rule("char-equality", "== and != between a char and another scalar kind are 0 and 1", 12)
	r.rule("total-order", "the total order used by sort, unique, union, intersect, in, iota, ===, up and down agrees with the numeric order and is antisymmetric over all kinds", 60)
	t := p.opTables()
	if t.err != "" {
		r.bad("compare-table", "operator tables", token.NoPos, "cannot resolve operator tables: %s", t.err)
		return
	}
	scalar := []string{"int", "char", "bigInt", "bigRat", "bigFloat"}
	cu, cv := ktok{"u"}, ktok{"v"}
	ctx := ktok{"c"}
	run2 := func(rule string, e *opEntry, kind string, scens []*scen, want func(s *scen) []string) {
		fn := e.fn[kind]
		key := fmt.Sprintf("binary %s on %s", e.name, kind)
		if fn == nil {
			return
		}
		for _, s := range scens {
			got := runScen(p, s, fn, e.bind[kind], []av{ctx, cu, cv})
			w := want(s)
			for _, g := range got {
				if !in(g, w...) {
					r.bad(rule, key, fn.Pos(), "in scenario %s the operator can yield %s; required %s (entry %s)", s.desc, g, strings.Join(w, " or "), fname(fn))
					return
				}
			}
		}
		r.ok(rule, key, fn.Pos(), "%d scenarios, entry %s", len(scens), fname(fn))
	}
	for _, op := range []string{"==", "!=", "<", "<=", ">", ">="} {
		e := t.binary[op]
		if e == nil {
			r.missing("compare-table", "binary operator "+op)
			continue
		}
		tok := cmpTok[op]
		for _, k := range scalar {
			run2("compare-table", e, k, orderScens(k, k), func(s *scen) []string { return []string{b2s(cmpInt(tok, s.ord["u|v"], 0))} })
		}
		if op == "==" || op == "!=" {
			run2("compare-table", e, "complex", complexScens(), func(s *scen) []string {
				eq := s.ord["u.real|v.real"] == 0 && s.ord["u.imag|v.imag"] == 0
				return []string{b2s(eq == (op == "=="))}
			})
		}
	}
	truth := map[string]func(a, b bool) bool{
		"and":  func(a, b bool) bool { return a && b },
		"or":   func(a, b bool) bool { return a || b },
		"xor":  func(a, b bool) bool { return a != b },
		"nand": func(a, b bool) bool { return !(a && b) },
		"nor":  func(a, b bool) bool { return !(a || b) },
	}
	for _, op := range []string{"and", "or", "xor", "nand", "nor"} {
		e := t.binary[op]
		if e == nil {
			r.missing("boolean-table", "binary operator "+op)
			continue
		}
		f := truth[op]
		for _, k := range scalar {
			run2("boolean-table", e, k, orderScens(k, k), func(s *scen) []string { return []string{b2s(f(s.sign["u"] != 0, s.sign["v"] != 0))} })
		}
		run2("boolean-table", e, "complex", complexScens(), func(s *scen) []string {
			return []string{b2s(f(s.sign["u.real"] != 0 || s.sign["u.imag"] != 0, s.sign["v.real"] != 0 || s.sign["v.imag"] != 0))}
		})
	}
	unScens := func(k string) []*scen {
		var out []*scen
		if k == "complex" {
			for _, s := range complexScens() {
				out = append(out, s)
			}
			return out
		}
		for sg := -1; sg <= 1; sg++ {
			out = append(out, &scen{kind: map[string]string{"u": k}, ord: map[string]int{}, sign: map[string]int{"u": sg}, desc: fmt.Sprintf("sign=%d", sg)})
		}
		return out
	}
	run1 := func(rule string, e *opEntry, kind string, want func(s *scen) []string) {
		fn := e.fn[kind]
		if fn == nil {
			return
		}
		key := fmt.Sprintf("unary %s on %s", e.name, kind)
		ss := unScens(kind)
		for _, s := range ss {
			for _, g := range runScen(p, s, fn, e.bind[kind], []av{ctx, cu}) {
				if !in(g, want(s)...) {
					r.bad(rule, key, fn.Pos(), "in scenario %s the operator can yield %s; required %s", s.desc, g, strings.Join(want(s), " or "))
					return
				}
			}
		}
		r.ok(rule, key, fn.Pos(), "%d scenarios", len(ss))
	}
	if e := t.unary["not"]; e != nil {
		for _, k := range append(append([]string{}, scalar...), "complex") {
			run1("boolean-table", e, k, func(s *scen) []string {
				if k == "complex" {
					return []string{b2s(s.sign["u.real"] == 0 && s.sign["u.imag"] == 0)}
				}
				if k == "bigInt" || k == "bigRat" {
					// A canonical big integer or rational is never zero.
					if s.sign["u"] == 0 {
						return []string{"0", "1"}
					}
				}
				return []string{b2s(s.sign["u"] == 0)}
			})
		}
	} else {
		r.missing("boolean-table", "unary operator not")
	}
	if e := t.unary["sgn"]; e != nil {
		for _, k := range []string{"int", "bigInt", "bigRat", "bigFloat"} {
			run1("select-table", e, k, func(s *scen) []string {
				w := []string{fmt.Sprint(s.sign["u"])}
				return w
			})
		}
	} else {
		r.missing("select-table", "unary operator sgn")
	}
	for _, op := range []string{"min", "max"} {
		e := t.binary[op]
		if e == nil {
			r.missing("select-table", "binary operator "+op)
			continue
		}
		for _, k := range scalar {
			run2("select-table", e, k, orderScens(k, k), func(s *scen) []string {
				o := s.ord["u|v"]
				if op == "max" {
					o = -o
				}
				switch {
				case o < 0:
					return []string{"u"}
				case o > 0:
					return []string{"v"}
				}
				return []string{"u", "v"}
			})
		}
	}
	// Char equality special case.
	ce := p.fn("value", "EvalCharEqual")
	if ce == nil {
		r.missing("char-equality", "the char equality shortcut")
	} else {
		for _, k := range []string{"int", "bigInt", "bigRat", "bigFloat", "complex", "char"} {
			for _, side := range []string{"left", "right"} {
				if k == "char" && side == "right" {
					continue
				}
				s := &scen{kind: map[string]string{"u": "char", "v": k}, ord: map[string]int{}, sign: map[string]int{}, desc: "char vs " + k}
				if side == "right" {
					s.kind["u"], s.kind["v"] = k, "char"
				}
				for _, eq := range []bool{true, false} {
					got := runScen(p, s, ce, nil, []av{cu, bconst(eq), cv})
					want := "(" + b2s(!eq) + ",true)"
					if k == "char" {
						want = "(nil,false)"
					}
					key := fmt.Sprintf("char on the %s of %s, equality=%v", side, k, eq)
					if len(got) == 1 && got[0] == want {
						r.ok("char-equality", key, ce.Pos(), "%s", want)
					} else {
						r.bad("char-equality", key, ce.Pos(), "yields %v, required %s", got, want)
					}
				}
			}
		}
	}
	// The total order.
	oc := p.fn("value", "OrderedCompare")
	if oc == nil {
		r.missing("total-order", "the total-order comparison")
		return
	}
	num := []string{"int", "bigInt", "bigRat", "bigFloat"}
	isNum := func(k string) bool { return in(k, num...) }
	rank := func(k string) int { // char < numbers < complex < vector < matrix
		switch k {
		case "char":
			return 0
		case "complex":
			return 2
		case "vector":
			return 3
		case "matrix":
			return 4
		}
		return 1
	}
	for _, ku := range kindNames {
		for _, kv := range kindNames {
			key := "order of " + ku + " against " + kv
			var scens []*scen
			var want func(s *scen) string
			switch {
			case ku == kv && (ku == "vector" || ku == "matrix"):
				continue
			case ku == "complex" && kv == "complex":
				scens = complexScens()
				want = func(s *scen) string {
					if o := s.ord["u.real|v.real"]; o != 0 {
						return fmt.Sprint(o)
					}
					return fmt.Sprint(s.ord["u.imag|v.imag"])
				}
			case ku == "complex" && isNum(kv) || kv == "complex" && isNum(ku):
				c, n := "u", "v"
				sg := 1
				if kv == "complex" {
					c, n = "v", "u"
					sg = -1
				}
				for o := -1; o <= 1; o++ {
					for im := -1; im <= 1; im++ {
						s := &scen{kind: map[string]string{"u": ku, "v": kv, c + ".real": "int", c + ".imag": "int"},
							ord: map[string]int{c + ".real|" + n: o}, sign: map[string]int{c + ".imag": im},
							desc: fmt.Sprintf("cmp(real part, number)=%d imag sign=%d", o, im)}
						scens = append(scens, s)
					}
				}
				want = func(s *scen) string {
					if s.sign[c+".imag"] != 0 {
						return fmt.Sprint(sg)
					}
					return fmt.Sprint(sg * s.ord[c+".real|"+n])
				}
			case rank(ku) == rank(kv):
				scens = orderScens(ku, kv)
				want = func(s *scen) string { return fmt.Sprint(s.ord["u|v"]) }
			default:
				scens = []*scen{{kind: map[string]string{"u": ku, "v": kv}, ord: map[string]int{}, sign: map[string]int{}, desc: "any"}}
				for _, c := range []string{"u", "v"} {
					if scens[0].kind[c] == "complex" {
						scens[0].kind[c+".real"], scens[0].kind[c+".imag"] = "int", "int"
					}
				}
				want = func(s *scen) string {
					if rank(ku) < rank(kv) {
						return "-1"
					}
					return "1"
				}
			}
			bad := false
			for _, s := range scens {
				for _, g := range runScen(p, s, oc, nil, []av{ctx, cu, cv}) {
					if g != want(s) && !bad {
						bad = true
						r.bad("total-order", key, oc.Pos(), "in scenario %s the comparison can yield %s; required %s", s.desc, g, want(s))
					}
				}
			}
			if !bad {
				r.ok("total-order", key, oc.Pos(), "%d scenarios", len(scens))
			}
		}
	}
}
