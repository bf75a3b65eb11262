package main

// C18: which names in an operator are local. Decided by interpreting the classification of names over
// abstract operators of every form, against the order of evaluation.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

// xnode is an expression of a test operator.
type xnode struct {
	kind string // var, num, un, bin, asg, idx, vec, cond, hole
	name string
	kids []*xnode // as written
}

func xv(n string) *xnode               { return &xnode{kind: "var", name: n} }
func xk(k string, ks ...*xnode) *xnode { return &xnode{kind: k, kids: ks} }

func (x *xnode) String() string {
	s := func(i int) string {
		k := x.kids[i]
		if k.kind == "var" || k.kind == "num" || k.kind == "vec" || k.kind == "hole" {
			return k.String()
		}
		return "(" + k.String() + ")"
	}
	switch x.kind {
	case "var":
		return x.name
	case "num":
		return "1"
	case "hole":
		return ""
	case "un":
		return "-" + s(0)
	case "bin":
		return s(0) + "+" + s(1)
	case "asg":
		return s(0) + "=" + s(1)
	case "cond":
		return s(0) + " : " + s(1)
	}
	var l []string
	for i := range x.kids {
		l = append(l, s(i))
	}
	if x.kind == "idx" {
		return l[0] + "[" + strings.Join(l[1:], ";") + "]"
	}
	return "(" + strings.Join(l, " ") + ")"
}

type xuse struct {
	name   string
	assign bool
}

// uses lists what happens to the names, in the order of evaluation.
func (x *xnode) uses(assign bool, out *[]xuse) {
	switch x.kind {
	case "var":
		*out = append(*out, xuse{x.name, assign})
	case "cond":
		x.kids[0].uses(false, out)
		x.kids[1].uses(false, out)
	case "asg":
		x.kids[1].uses(false, out)
		x.kids[0].uses(true, out)
	case "vec":
		for i := len(x.kids) - 1; i >= 0; i-- {
			x.kids[i].uses(assign, out)
		}
	default: // operands last to first, what is indexed after the indexes
		for i := len(x.kids) - 1; i >= 0; i-- {
			x.kids[i].uses(false, out)
		}
	}
}

type varWorld struct {
	p                                 *Prog
	fnN, varN, unN, binN, idxN, condN *types.Named
	vecX, intN, exprI                 *types.Named
	classify                          *ssa.Function
	fld                               map[string]int
}

func checkC18(p *Prog, r *Report) {
	r.rule("classified", "in every operator a name is local, in all its uses, if evaluation assigns it before reading it, its arguments included, and global in all of them otherwise; each local has a slot of its own", 20)
	w := &varWorld{p: p, fld: map[string]int{}}
	w.fnN = p.namedType("exec", "Function")
	w.varN, w.unN, w.binN = p.namedType("value", "VarExpr"), p.namedType("value", "UnaryExpr"), p.namedType("value", "BinaryExpr")
	w.idxN, w.condN, w.vecX = p.namedType("value", "IndexExpr"), p.namedType("value", "CondExpr"), p.namedType("value", "VectorExpr")
	w.intN, w.exprI = p.namedType("value", "Int"), p.namedType("value", "Expr")
	for _, f := range []struct {
		k string
		n *types.Named
		f string
	}{{"fLeft", w.fnN, "Left"}, {"fRight", w.fnN, "Right"}, {"fBody", w.fnN, "Body"}, {"fLocals", w.fnN, "Locals"}, {"fBin", w.fnN, "IsBinary"},
		{"vName", w.varN, "Name"}, {"vLocal", w.varN, "Local"}, {"uOp", w.unN, "Op"}, {"uRight", w.unN, "Right"},
		{"bOp", w.binN, "Op"}, {"bLeft", w.binN, "Left"}, {"bRight", w.binN, "Right"}, {"iLeft", w.idxN, "Left"}, {"iRight", w.idxN, "Right"}, {"cCond", w.condN, "Cond"}} {
		i := fieldNamed(f.n, f.f)
		if i < 0 {
			r.missing("classified", "field "+f.f+" of expressions and operators")
			return
		}
		w.fld[f.k] = i
	}
	w.classify = w.findClassify()
	if w.classify == nil || w.vecX == nil || w.intN == nil || w.exprI == nil {
		r.missing("classified", "the classification of an operator's names")
		return
	}
	num := xk("num")
	x, y := xv("x"), xv("y")
	leaves := []*xnode{x, num}
	var one []*xnode
	for _, a := range leaves {
		one = append(one, xk("un", a), xk("asg", x, a), xk("idx", x, a), xk("asg", xk("vec", x, y), a), xk("idx", x, xk("hole"), a))
		for _, b := range leaves {
			one = append(one, xk("bin", a, b), xk("vec", a, b), xk("asg", xk("idx", x, a), b))
		}
	}
	all := append(append([]*xnode{y}, leaves...), one...)
	groups := map[string]*xgroup{}
	try := func(g string, params int, body ...*xnode) {
		gr := groups[g]
		if gr == nil {
			gr = &xgroup{}
			groups[g] = gr
		}
		gr.n++
		if gr.msg == "" {
			if m := w.try(params, body); m != "" {
				var s []string
				for _, b := range body {
					s = append(s, b.String())
				}
				gr.msg = fmt.Sprintf("in the body %q: %s", strings.Join(s, "; "), m)
			}
		}
	}
	for params := 0; params < 4; params++ {
		desc := []string{"unary operator with argument a", "unary operator with argument x", "binary operator with arguments a and x", "operator with the argument (a (x b))"}[params]
		for _, e := range all {
			try(desc+": simple", params, e)
		}
		if params > 1 {
			for _, e := range one {
				for _, f := range one {
					try(desc+": two statements", params, e, f)
				}
			}
			continue
		}
		for _, e := range all {
			try(desc+": unary of", params, xk("un", e))
			try(desc+": assignment of", params, xk("asg", y, e))
			try(desc+": assignment of", params, xk("asg", x, e))
			for _, f := range all {
				try(desc+": binary of", params, xk("bin", e, f))
				try(desc+": vector of", params, xk("vec", e, f))
				try(desc+": conditional of", params, xk("cond", e, f))
				try(desc+": index of", params, xk("idx", e, f))
				try(desc+": two indexes of", params, xk("idx", x, e, f))
				try(desc+": indexed assignment of", params, xk("asg", xk("idx", x, e), f))
				try(desc+": two statements", params, e, f)
				try(desc+": conditional, then more", params, xk("cond", e, num), f)
				try(desc+": result, then more", params, xk("cond", num, e), f)
			}
		}
	}
	var names []string
	for g := range groups {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, g := range names {
		gr := groups[g]
		r.add("classified", g, w.classify.Pos(), gr.msg == "", "%s", orStr(gr.msg, fmt.Sprintf("%d bodies", gr.n)))
	}
}

type xgroup struct {
	n   int
	msg string
}

// findClassify: the function of package parse that decides on the locals of the operator it is given.
func (w *varWorld) findClassify() *ssa.Function {
	p := w.p
	takes := func(f *ssa.Function) bool {
		n := 0
		for _, prm := range f.Params {
			if pt, ok := prm.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), w.fnN) {
				n++
			}
		}
		return n == 1 && f.Signature.Results().Len() == 0
	}
	if f := p.fn("parse", "funcVars"); f != nil && takes(f) {
		return f
	}
	sets := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != w.fld["fLocals"] {
					continue
				}
				if pt, ok := fa.X.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), w.fnN) {
					g := f
					for g.Parent() != nil {
						g = g.Parent()
					}
					sets[g] = true
				}
			}
		}
	}
	for f := range sets {
		if relPkg(f) == "parse" && takes(f) {
			return f
		}
	}
	return nil
}

type xvar struct {
	name string
	o    *obj
}

func (w *varWorld) slice(es []av) av {
	arr := &obj{elem: types.NewArray(w.exprI, int64(len(es))), kids: []*obj{}}
	for _, e := range es {
		k := newObj(w.exprI)
		k.val = e
		arr.kids = append(arr.kids, k)
	}
	return kslice{arr, 0, len(arr.kids)}
}

func (w *varWorld) build(x *xnode, vars *[]xvar) av {
	ptr := func(n *types.Named, set map[string]av) av {
		o := newObj(n)
		for k, v := range set {
			o.kids[w.fld[k]].val = v
		}
		return kiface{types.NewPointer(n), kptr{o}}
	}
	var ks []av
	for _, k := range x.kids {
		ks = append(ks, w.build(k, vars))
	}
	switch x.kind {
	case "var":
		o := newObj(w.varN)
		o.kids[w.fld["vName"]].val, o.kids[w.fld["vLocal"]].val = sconst(x.name), iconst(0)
		*vars = append(*vars, xvar{x.name, o})
		return kiface{types.NewPointer(w.varN), kptr{o}}
	case "num":
		return kiface{w.intN, iconst(1)}
	case "hole":
		return kconst{nil}
	case "un":
		return ptr(w.unN, map[string]av{"uOp": sconst("-"), "uRight": ks[0]})
	case "bin":
		return ptr(w.binN, map[string]av{"bOp": sconst("+"), "bLeft": ks[0], "bRight": ks[1]})
	case "asg":
		return ptr(w.binN, map[string]av{"bOp": sconst("="), "bLeft": ks[0], "bRight": ks[1]})
	case "idx":
		return ptr(w.idxN, map[string]av{"iLeft": ks[0], "iRight": w.slice(ks[1:])})
	case "vec":
		return kiface{w.vecX, w.slice(ks)}
	}
	b := ptr(w.binN, map[string]av{"bOp": sconst(":"), "bLeft": ks[0], "bRight": ks[1]})
	return ptr(w.condN, map[string]av{"cCond": b.(kiface).v})
}

func (w *varWorld) try(params int, body []*xnode) string {
	p := w.p
	var left, right *xnode
	switch params {
	case 0:
		right = xv("a")
	case 1:
		right = xv("x")
	case 2:
		left, right = xv("a"), xv("x")
	case 3:
		right = xk("vec", xv("a"), xk("vec", xv("x"), xv("b")))
	}
	var us []xuse
	if left != nil {
		left.uses(true, &us)
	}
	right.uses(true, &us)
	for _, b := range body {
		b.uses(false, &us)
	}
	local := map[string]bool{}
	seen := map[string]bool{}
	nl := 0
	for _, u := range us {
		if !seen[u.name] {
			seen[u.name], local[u.name] = true, u.assign
			if u.assign {
				nl++
			}
		}
	}
	var vars []xvar
	var fo *obj
	outs := explore(p, func() *interp { return &interp{p: p, globals: map[*ssa.Global]*obj{}, onCmp: tokNotNil} }, func(in *interp) av {
		vars = nil
		in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			if callee != nil && p.noRet[callee] {
				panic(absPanic{ktok{"error"}})
			}
			return nil, false
		}
		fo = newObj(w.fnN)
		fo.kids[w.fld["fBin"]].val = bconst(left != nil)
		if left != nil {
			fo.kids[w.fld["fLeft"]].val = w.build(left, &vars)
		}
		fo.kids[w.fld["fRight"]].val = w.build(right, &vars)
		var bs []av
		for _, b := range body {
			bs = append(bs, w.build(b, &vars))
		}
		fo.kids[w.fld["fBody"]].val = w.slice(bs)
		var args []av
		for _, prm := range w.classify.Params {
			if pt, ok := prm.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), w.fnN) {
				args = append(args, kptr{fo})
			} else {
				args = append(args, ktok{"arg"})
			}
		}
		return in.call(w.classify, args, nil)
	}, 50)
	if len(outs) != 1 {
		return "undecided: it depends on something unknown"
	}
	if outs[0].aborted != "" {
		return "undecided: " + outs[0].aborted
	}
	if outs[0].panicked {
		return "it is refused"
	}
	slot := map[string]int{}
	for _, v := range vars {
		n, ok := kint(v.o.kids[w.fld["vLocal"]].val)
		if !ok {
			return "undecided: the slot of " + v.name
		}
		if local[v.name] != (n >= 1) {
			if n >= 1 {
				return v.name + " is local, though it is read before it is assigned"
			}
			return v.name + " is global, though it is assigned before it is read"
		}
		if old, ok := slot[v.name]; ok && old != n {
			return v.name + " is not the same variable in all its uses"
		}
		slot[v.name] = n
	}
	// The list of locals names each at its slot.
	var got []string
	switch sl := fo.kids[w.fld["fLocals"]].val.(type) {
	case kslice:
		if sl.arr != nil {
			for _, k := range sl.arr.kids[sl.lo:sl.hi] {
				s, _ := constString(k.val)
				got = append(got, s)
			}
		}
	case kconst:
		if sl.v != nil && sl.v.Kind() != constant.Unknown {
			return "undecided: the list of locals"
		}
	default:
		return "undecided: the list of locals"
	}
	if len(got) < nl {
		return fmt.Sprintf("there are %d locals but %d slots", nl, len(got))
	}
	used := map[int]string{}
	for name, n := range slot {
		if n == 0 {
			continue
		}
		if o := used[n]; o != "" {
			return o + " and " + name + " share a slot"
		}
		used[n] = name
		if n > len(got) {
			return name + " has a slot beyond those there are"
		}
		if got[n-1] != name {
			return fmt.Sprintf("slot %d of %s is listed for %s", n, name, got[n-1])
		}
	}
	return ""
}
