package main

// C22: operands of different kinds meet in a common kind; conversions keep the value; every
// implementation is run only on operands of the kinds it is written for.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkC22 }

var kindType = map[string]string{"int": "Int", "char": "Char", "bigInt": "BigInt", "bigRat": "BigRat", "bigFloat": "BigFloat", "complex": "Complex", "vector": "Vector", "matrix": "Matrix"}

// The order of promotion. A character is promoted only to a vector or matrix.
var kindRank = map[string]int{"int": 0, "bigInt": 1, "bigRat": 2, "bigFloat": 3, "complex": 4, "vector": 5, "matrix": 6}

// canConvert: the conversion exists.
func canConvert(from, to string) bool {
	if from == to {
		return true
	}
	if from == "char" {
		return to == "vector" || to == "matrix"
	}
	return to != "char" && kindRank[from] <= kindRank[to]
}

func (p *Prog) kindGoType(k string) types.Type {
	n := p.namedType("value", kindType[k])
	if n == nil {
		return nil
	}
	if k == "vector" || k == "matrix" {
		return types.NewPointer(n)
	}
	return n
}

func (p *Prog) kindNum(k string) int64 {
	for n, kk := range p.kindNumbers() {
		if kk == k {
			return n
		}
	}
	return -1
}

// kindInterp is an interpreter with the vector model in which tokens have kinds.
func (p *Prog) kindInterp(m *model) *interp {
	in := &interp{p: p}
	in.onAssert = func(x av, t types.Type) (av, bool, bool) {
		k := m.kind(x)
		if k == "" || types.IsInterface(t) {
			return nil, false, false
		}
		v := x
		if ki, ok := x.(kiface); ok {
			v = ki.v
		}
		return v, true, valueKindOfType(t) == k
	}
	in.onCmp = func(op token.Token, x, y av) (bool, bool) {
		isNil := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
		isVal := func(a av) bool { return m.kind(a) != "" }
		if (isVal(x) && isNil(y) || isVal(y) && isNil(x)) && (op == token.EQL || op == token.NEQ) {
			return op == token.NEQ, true
		}
		return false, false
	}
	in.onCall = func(in *interp, callee *ssa.Function, mt *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
		if callee != nil && p.noRet[callee] {
			panic(absPanic{sconst("error")})
		}
		if v, ok := m.call(in, callee, mt, args); ok {
			return v, true
		}
		// A method of an operand, called through the interface.
		if callee == nil && mt != nil && len(args) > 0 {
			if t, ok := args[0].(ktok); ok {
				if k := m.kinds[t.name]; k != "" {
					if f := p.method("value", kindType[k], mt.Name()); f != nil && mt.Name() == "toType" {
						return in.call(f, args, nil), true
					}
				}
			}
		}
		return nil, false
	}
	return in
}

func checkC22(p *Prog, r *Report) {
	r.rule("kind", "each kind of value is recognised as its own kind", 8)
	r.rule("convert", "a value converts to its own kind and to every larger kind, keeping its value, and to no other", 64)
	r.rule("promote", "operands of different kinds are converted to the smallest kind the operator works in that holds both, and the implementation for exactly that kind is run; if there is none the evaluation stops with an error", 800)
	r.rule("unary-dispatch", "a unary operator runs the implementation for its operand's kind, or applies itself to the elements, or stops with an error", 200)
	r.rule("implementation", "the implementation of an operator for a kind uses its operands as that kind only", 300)
	tabs := p.opTables()
	if tabs.err != "" {
		r.missing("promote", "operator tables: "+tabs.err)
		return
	}
	p.checkKinds(r)
	p.checkConversions(r)
	p.checkPromotion(r)
	p.checkUnaryDispatch(r)
	p.checkImplementations(r)
}

func (p *Prog) checkKinds(r *Report) {
	wt := p.fn("value", "whichType")
	if wt == nil {
		r.missing("kind", "value.whichType")
		return
	}
	for _, k := range kindNames {
		msg := ""
		for _, o := range explore(p, func() *interp {
			m := newModel(p)
			m.kinds["V"] = k
			return p.kindInterp(m)
		}, func(in *interp) av { return in.call(wt, []av{ktok{"V"}}, nil) }, 64) {
			n, ok := constOf(o.ret)
			if o.aborted != "" || o.panicked || !ok || p.kindNumbers()[n] != k {
				msg = "recognised as " + orStr(p.kindNumbers()[n], showAV(o.ret))
				if o.panicked {
					msg = "not recognised: an error"
				}
			}
		}
		r.add("kind", k, wt.Pos(), msg == "", "%s", orStr(msg, "recognised"))
	}
}

func (p *Prog) checkConversions(r *Report) {
	for _, from := range kindNames {
		f := p.method("value", kindType[from], "toType")
		if f == nil {
			r.missing("convert", "toType method of "+kindType[from])
			continue
		}
		for _, to := range kindNames {
			msg, got := "", ""
			var m *model
			for _, o := range explore(p, func() *interp {
				m = newModel(p)
				m.kinds["V"] = from
				return p.kindInterp(m)
			}, func(in *interp) av {
				v := in.call(f, []av{ktok{"V"}, sconst("op"), ktok{"conf"}, iconst(p.kindNum(to))}, nil)
				return ktuple{[]av{sconst(m.kind(v)), sconst(m.term(v))}}
			}, 64) {
				part := func(i int) string {
					return constant.StringVal(o.ret.(ktuple).f[i].(kconst).v)
				}
				switch {
				case o.aborted != "":
					msg = "undecided: " + o.aborted
				case o.panicked && !canConvert(from, to):
					got = "an error"
				case o.panicked:
					// NewMatrix's and NewComplex's own consistency checks are undecided branches.
					if got == "" {
						got = "?"
					}
				case !canConvert(from, to):
					if k := part(0); k != to {
						msg = "yields " + orStr(k, "no value") + " instead of an error"
					} else {
						msg = "silently converts downwards"
					}
				default:
					k, t := part(0), part(1)
					got = t
					if k != to {
						msg = fmt.Sprintf("yields a value of kind %s", orStr(k, "unknown"))
					} else if w := wantConversion(from, to); !w[t] {
						msg = fmt.Sprintf("yields %s", t)
					}
				}
			}
			if msg == "" && (got == "?" || got == "") {
				msg = "stops with an error"
			}
			r.add("convert", from+" to "+to, f.Pos(), msg == "", "%s", orStr(msg, got))
		}
	}
}

// wantConversion lists the acceptable contents of V converted.
func wantConversion(from, to string) map[string]bool {
	if from == to {
		return map[string]bool{"V": true}
	}
	inner := map[string]string{"bigInt": "V.Int", "bigRat": "V.Rat", "bigFloat": "V.Float"}[from]
	out := map[string]bool{}
	switch to {
	case "bigInt", "bigRat", "bigFloat":
		if from == "int" {
			out["{V}"] = true
		} else {
			out["{"+inner+"}"] = true
		}
	case "complex":
		out["{V,0}"] = true
		out["{V,G:value.zero}"] = true
	case "vector":
		out["vec(V)"] = true
	case "matrix":
		if from == "vector" {
			out["{[len(V)],V}"] = true
		} else {
			out["{[1],vec(V)}"] = true
		}
	}
	return out
}

// opObject rebuilds the table entry as an abstract object.
func (p *Prog) opObject(e *opEntry) *obj {
	tn := "unaryOp"
	if e.binary {
		tn = "binaryOp"
	}
	n := p.namedType("value", tn)
	if n == nil {
		return nil
	}
	o := newObj(n)
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		kid := o.kids[i]
		switch ft := st.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if ft.Kind() == types.Bool {
				kid.val = bconst(e.elementwise)
			} else if ft.Kind() == types.String {
				kid.val = sconst(e.name)
			}
		case *types.Signature:
			if e.which != nil {
				kid.val = kfunc{e.which, e.whichBind}
			}
		case *types.Array:
			for j, el := range kid.kids {
				k := p.kindNumbers()[int64(j)]
				if f := e.fn[k]; f != nil {
					el.val = kfunc{f, e.bind[k]}
				} else {
					el.val = kconst{nil}
				}
			}
		}
	}
	return o
}

// elementwiseHelper: a function that applies a named operator to elements of u (and v).
func elementwiseHelper(f *ssa.Function, binary bool) bool {
	if f == nil || relPkg(f) != "value" || f.Signature.Recv() != nil {
		return false
	}
	s := f.Signature
	n := 3
	if binary {
		n = 4
	}
	if s.Params().Len() != n || s.Results().Len() != 1 {
		return false
	}
	strs, vals := 0, 0
	for i := 0; i < n; i++ {
		if isString(s.Params().At(i).Type()) {
			strs++
		} else if isValueIface(s.Params().At(i).Type()) {
			vals++
		}
	}
	return strs == 1 && vals == n-2
}

type dispatched struct {
	kinds   []string // of the operands the implementation got
	toks    []string
	implOf  string // kind under which the implementation is stored; "elementwise vector" etc.
	isError bool
	msg     string
}

func (p *Prog) dispatch(e *opEntry, kinds []string) dispatched {
	var d dispatched
	mname := "EvalUnary"
	tn := "unaryOp"
	if e.binary {
		mname, tn = "EvalBinary", "binaryOp"
	}
	ev := p.method("value", tn, mname)
	if ev == nil {
		return dispatched{msg: "no " + mname}
	}
	oo := p.opObject(e)
	byFn := map[*ssa.Function][]string{}
	for k, f := range e.fn {
		byFn[f] = append(byFn[f], k)
	}
	var calls []dispatched
	var runs [][]dispatched
	var m *model
	outs := explore(p, func() *interp {
		calls = nil
		m = newModel(p)
		m.kinds["U"], m.kinds["V"] = kinds[0], kinds[len(kinds)-1]
		in := p.kindInterp(m)
		base := in.onCall
		in.onCall = func(in *interp, callee *ssa.Function, mt *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			if callee != nil && strings.HasPrefix(callee.Name(), "Trace") {
				return kconst{nil}, true
			}
			if callee == nil && mt != nil && mt.Name() == "Config" {
				return ktok{"conf"}, true
			}
			rec := func(impl string, vals []av) av {
				c := dispatched{implOf: impl}
				for _, v := range vals {
					c.kinds = append(c.kinds, m.kind(v))
					c.toks = append(c.toks, m.term(v))
				}
				calls = append(calls, c)
				return ktok{"R"}
			}
			if callee != nil && site != nil && site.Common().StaticCallee() == nil {
				if _, ok := byFn[callee]; ok && len(args) == len(kinds)+1 {
					return rec("", args[1:]), true
				}
			}
			if callee != nil && elementwiseHelper(callee, e.binary) {
				if e.binary {
					var vals []av
					for i := range args {
						if isValueIface(callee.Signature.Params().At(i).Type()) {
							vals = append(vals, args[i])
						}
					}
					return rec("elementwise", vals), true
				}
				for i := range args {
					if isValueIface(callee.Signature.Params().At(i).Type()) {
						return rec("elementwise", []av{args[i]}), true
					}
				}
			}
			return base(in, callee, mt, args, site)
		}
		return in
	}, func(in *interp) av {
		args := []av{kptr{oo}, ktok{"C"}, ktok{"V"}}
		if e.binary {
			args = []av{kptr{oo}, ktok{"C"}, ktok{"U"}, ktok{"V"}}
		}
		v := in.call(ev, args, nil)
		runs = append(runs, calls)
		return v
	}, 128)
	// Conversions contain undecided consistency checks; all non-error outcomes must agree.
	for _, o := range outs {
		if o.aborted != "" {
			d.msg = "undecided: " + o.aborted
			return d
		}
	}
	okRuns := 0
	for _, o := range outs {
		if !o.panicked {
			okRuns++
			if t, ok := o.ret.(ktok); !ok || t.name != "R" {
				d.msg = "does not return the implementation's result"
			}
		}
	}
	if okRuns == 0 {
		d.isError = true
		return d
	}
	for _, c := range runs {
		if len(c) != 1 {
			d.msg = orStr(d.msg, fmt.Sprintf("%d implementations run", len(c)))
			return d
		}
		if fmt.Sprint(c[0]) != fmt.Sprint(runs[0][0]) {
			d.msg = orStr(d.msg, "runs different implementations for the same kinds")
			return d
		}
	}
	msg := d.msg
	d = runs[0][0]
	d.msg = msg
	return d
}

func (p *Prog) checkPromotion(r *Report) {
	tabs := p.opTables()
	var names []string
	for n := range tabs.binary {
		names = append(names, n)
	}
	sort.Strings(names)
	eb := p.method("value", "binaryOp", "EvalBinary")
	for _, n := range names {
		e := tabs.binary[n]
		// The smallest kind the operator works in.
		floor := "int"
		if d := p.promotedKinds(e, "int", "int"); d != nil {
			floor = d[1]
		}
		for _, a := range kindNames {
			for _, b := range kindNames {
				d := p.dispatch(e, []string{a, b})
				msg := d.msg
				want := p.promotedKinds(e, a, b)
				desc := "error"
				if !d.isError && msg == "" {
					desc = fmt.Sprintf("%s %s", strings.Join(d.kinds, ","), d.implOf)
				}
				switch {
				case msg != "":
				case want == nil:
					msg = "the promotion rule is undecided"
				case d.isError:
					// Must be because a conversion does not exist or no implementation exists.
					if canConvert(a, want[0]) && canConvert(b, want[1]) && (e.fn[want[1]] != nil || e.elementwise && (want[1] == "vector" || want[1] == "matrix")) {
						msg = fmt.Sprintf("stops with an error although there is an implementation for %s", want[1])
					}
				default:
					if d.kinds[0] != want[0] || d.kinds[1] != want[1] {
						msg = fmt.Sprintf("runs on %s instead of %s", strings.Join(d.kinds, ","), strings.Join(want, ","))
					}
					if !wantConversionOf("U", a, want[0])[d.toks[0]] || !wantConversionOf("V", b, want[1])[d.toks[1]] {
						msg = fmt.Sprintf("operands reach the implementation as %s", strings.Join(d.toks, " and "))
					}
					if d.implOf == "elementwise" && (e.fn[want[1]] != nil || !e.elementwise) {
						msg = "applied element by element although it has its own implementation or is not elementwise"
					}
					if d.implOf == "" && e.fn[want[1]] == nil {
						msg = "runs the implementation for another kind"
					}
				}
				// Specification of the common kind for elementwise operators.
				if msg == "" && want != nil && e.elementwise {
					if w := commonKind(a, b, floor); w == "" {
						if !d.isError {
							msg = "a character and a number were converted to one another"
						}
					} else if w == "char" && d.isError && e.fn["char"] == nil {
						// Not defined on characters.
					} else if want[0] != w || want[1] != w {
						msg = fmt.Sprintf("promoted to %s, the smallest kind holding both is %s", strings.Join(want, ","), w)
					}
				}
				// Other operators that work on two operands of the larger kind must take a mixture.
				if msg == "" && want != nil && !e.elementwise && !(canConvert(a, want[0]) && canConvert(b, want[1])) {
					if w := commonKind(a, b, "int"); w != "" && e.fn[w] != nil {
						if ww := p.promotedKinds(e, w, w); ww != nil && ww[0] == w && ww[1] == w {
							msg = fmt.Sprintf("asks for a conversion to %s that does not exist although it works on two operands of kind %s", strings.Join(want, ","), w)
						}
					}
				}
				r.add("promote", fmt.Sprintf("%s on %s,%s", n, a, b), eb.Pos(), msg == "", "%s", orStr(msg, desc))
			}
		}
	}
}

func wantConversionOf(tok, from, to string) map[string]bool {
	out := map[string]bool{}
	for t := range wantConversion(from, to) {
		out[strings.ReplaceAll(t, "V", tok)] = true
		out[t] = out[t] || tok == "V"
	}
	return out
}

// commonKind: the smallest kind holding both, at least floor for numbers.
func commonKind(a, b, floor string) string {
	if a == "char" && b == "char" {
		return "char"
	}
	hi := func(x, y string) string {
		if kindRank[x] >= kindRank[y] {
			return x
		}
		return y
	}
	if a == "char" || b == "char" {
		o := a
		if a == "char" {
			o = b
		}
		if o == "vector" || o == "matrix" {
			return o
		}
		return ""
	}
	return hi(hi(a, b), floor)
}

// promotedKinds evaluates the operator's promotion rule.
func (p *Prog) promotedKinds(e *opEntry, a, b string) []string {
	if e.which == nil {
		return nil
	}
	var res []string
	for _, o := range explore(p, func() *interp { return &interp{p: p} }, func(in *interp) av {
		return in.call(e.which, []av{iconst(p.kindNum(a)), iconst(p.kindNum(b))}, e.whichBind)
	}, 16) {
		t, ok := o.ret.(ktuple)
		if !ok || len(t.f) != 2 || o.aborted != "" || o.panicked {
			return nil
		}
		x, ok1 := constOf(t.f[0])
		y, ok2 := constOf(t.f[1])
		if !ok1 || !ok2 {
			return nil
		}
		res = []string{p.kindNumbers()[x], p.kindNumbers()[y]}
	}
	return res
}

func (p *Prog) checkUnaryDispatch(r *Report) {
	tabs := p.opTables()
	var names []string
	for n := range tabs.unary {
		names = append(names, n)
	}
	sort.Strings(names)
	eu := p.method("value", "unaryOp", "EvalUnary")
	for _, n := range names {
		e := tabs.unary[n]
		for _, k := range kindNames {
			d := p.dispatch(e, []string{k})
			msg := d.msg
			desc := "error"
			has := e.fn[k] != nil
			elem := !has && e.elementwise && (k == "vector" || k == "matrix")
			switch {
			case msg != "":
			case d.isError:
				if has || elem {
					msg = "stops with an error although it is implemented"
				}
			default:
				desc = orStr(d.implOf, "own implementation")
				if d.kinds[0] != k || d.toks[0] != "V" {
					msg = "the operand reaches the implementation as " + d.toks[0]
				} else if has != (d.implOf == "") || elem != (d.implOf == "elementwise") {
					msg = "runs the wrong implementation"
				}
			}
			r.add("unary-dispatch", n+" on "+k, eu.Pos(), msg == "", "%s", orStr(msg, desc))
		}
	}
}

// checkImplementations: unconditional type assertions on the operands of an implementation must
// be to the kind it is run on.
func (p *Prog) checkImplementations(r *Report) {
	tabs := p.opTables()
	for _, e := range tabs.all() {
		var ks []string
		for k := range e.fn {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f := e.fn[k]
			np := len(f.Params)
			if np < 2 {
				continue
			}
			var lefts []string
			if e.binary {
				left := map[string]bool{}
				for _, a := range kindNames {
					for _, b := range kindNames {
						if w := p.promotedKinds(e, a, b); w != nil && w[1] == k && canConvert(a, w[0]) && canConvert(b, w[1]) {
							left[w[0]] = true
						}
					}
				}
				for l := range left {
					lefts = append(lefts, l)
				}
				sort.Strings(lefts)
			} else {
				lefts = []string{""}
			}
			bad := ""
			n := 0
			ku := &kindUse{p: p, seen: map[string]bool{}}
			for _, l := range lefts {
				st := map[ssa.Value]string{f.Params[np-1]: k}
				if e.binary {
					st[f.Params[np-2]] = l
				}
				ku.visit(f, st)
			}
			bad, n = ku.bad, ku.n
			ar := "unary"
			if e.binary {
				ar = "binary"
			}
			r.add("implementation", fmt.Sprintf("%s %s for %s", ar, e.name, k), f.Pos(), bad == "", "%s", orStr(bad, fmt.Sprintf("%d uses of the operands", n)))
		}
	}
}

// kindUse explores functions under an assignment of kinds to parameters, pruning branches the
// kinds decide, and collects unconditional uses of a parameter as another kind.
type kindUse struct {
	p    *Prog
	seen map[string]bool
	bad  string
	n    int
}

func (ku *kindUse) visit(f *ssa.Function, st map[ssa.Value]string) {
	p := ku.p
	key := fname(f)
	for _, prm := range f.Params {
		key += "|" + st[prm]
	}
	if ku.seen[key] {
		return
	}
	ku.seen[key] = true
	reach := p.kindReach(f, st)
	g := p.cfg(f)
	for _, b := range f.Blocks {
		if !reach[b] {
			continue
		}
		for _, in := range b.Instrs {
			if !g.live(in) {
				break
			}
			switch x := in.(type) {
			case *ssa.TypeAssert:
				k, ok := st[x.X]
				if !ok || x.CommaOk || types.IsInterface(x.AssertedType) {
					continue
				}
				ku.n++
				if ak := valueKindOfType(x.AssertedType); ak != k && ku.bad == "" {
					ku.bad = fmt.Sprintf("%s uses its operand as %s, but it can be %s", fname(f), orStr(ak, x.AssertedType.String()), k)
				}
			case *ssa.Call:
				cf := x.Call.StaticCallee()
				if cf == nil || !p.inModule(cf) || cf.Blocks == nil {
					continue
				}
				ns := map[ssa.Value]string{}
				for i, a := range x.Call.Args {
					if k, ok := st[a]; ok && i < len(cf.Params) {
						ns[cf.Params[i]] = k
					}
				}
				// With an operand of unknown kind the callee's case analysis cannot be followed.
				all := true
				for _, prm := range cf.Params {
					if _, ok := ns[prm]; !ok && isValueIface(prm.Type()) {
						all = false
					}
				}
				if len(ns) > 0 && all {
					ku.visit(cf, ns)
				}
			}
		}
	}
}

// kindReach computes the blocks of f reachable when its parameters have the given kinds.
func (p *Prog) kindReach(f *ssa.Function, st map[ssa.Value]string) map[*ssa.BasicBlock]bool {
	g := p.cfg(f)
	reach := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{f.Blocks[0]}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if reach[b] {
			continue
		}
		reach[b] = true
		if len(b.Instrs) == 0 {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		if !g.live(last) {
			continue
		}
		if iff, ok := last.(*ssa.If); ok {
			if v, ok := p.kindCond(iff.Cond, st); ok {
				if v {
					todo = append(todo, b.Succs[0])
				} else {
					todo = append(todo, b.Succs[1])
				}
				continue
			}
		}
		todo = append(todo, b.Succs...)
	}
	return reach
}

// kindCond evaluates a condition that depends on the kinds of known values only.
func (p *Prog) kindCond(c ssa.Value, st map[ssa.Value]string) (val, ok bool) {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, ok := p.kindCond(x.X, st)
			return !v, ok
		}
	case *ssa.Extract:
		if ta, isTA := x.Tuple.(*ssa.TypeAssert); isTA && x.Index == 1 && !types.IsInterface(ta.AssertedType) {
			if k, known := st[ta.X]; known {
				return valueKindOfType(ta.AssertedType) == k, true
			}
		}
	case *ssa.BinOp:
		a, ok1 := p.kindInt(x.X, st)
		b, ok2 := p.kindInt(x.Y, st)
		if ok1 && ok2 {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return constant.Compare(constant.MakeInt64(a), x.Op, constant.MakeInt64(b)), true
			}
		}
	case *ssa.Call:
		// A predicate over the kind, such as IsScalarType.
		f := x.Call.StaticCallee()
		if f != nil && p.inModule(f) && f.Blocks != nil && len(f.Params) == len(x.Call.Args) {
			ns := map[ssa.Value]string{}
			for i, a := range x.Call.Args {
				if k, ok := st[a]; ok {
					ns[f.Params[i]] = k
				}
			}
			if len(ns) == 0 {
				return false, false
			}
			if r := trivialResult(f); r != nil {
				return p.kindCond(r, ns)
			}
		}
	}
	return false, false
}

func (p *Prog) kindInt(v ssa.Value, st map[ssa.Value]string) (int64, bool) {
	if n, ok := constInt(v); ok {
		return n, true
	}
	idx := -1
	call, _ := v.(*ssa.Call)
	if ex, ok := v.(*ssa.Extract); ok {
		call, _ = ex.Tuple.(*ssa.Call)
		idx = ex.Index
	}
	// A function of kinds, such as a promotion rule.
	if call != nil && call.Call.StaticCallee() != nil && p.inModule(call.Call.StaticCallee()) && len(call.Call.Args) > 0 {
		var args []av
		for _, a := range call.Call.Args {
			if b, ok := a.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				args = nil
				break
			}
			n, ok := p.kindInt(a, st)
			if !ok {
				args = nil
				break
			}
			args = append(args, iconst(n))
		}
		if args != nil {
			outs := explore(p, func() *interp { return &interp{p: p} }, func(in *interp) av { return in.call(call.Call.StaticCallee(), args, nil) }, 4)
			if len(outs) == 1 && outs[0].aborted == "" && !outs[0].panicked {
				ret := outs[0].ret
				if t, ok := ret.(ktuple); ok && idx >= 0 && idx < len(t.f) {
					ret = t.f[idx]
				}
				return constOf(ret)
			}
		}
	}
	if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee() == p.fn("value", "whichType") {
		if k, ok := st[c.Call.Args[0]]; ok {
			return p.kindNum(k), true
		}
	}
	return 0, false
}
