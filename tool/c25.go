package main

// C25: variables are independent cells. Typestates of a variable (pending edits or not,
// vector, matrix, other or undefined) are enumerated and each method of the variable is
// interpreted abstractly in every state; who may write the cell is a dataflow rule.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkC25 }

// varShape locates the fields of value.Var by type.
func (p *Prog) varFields() (n *types.Named, val, edit int) {
	n = p.namedType("value", "Var")
	val, edit = -1, -1
	if n == nil {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, -1, -1
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if isValueIface(t) {
			val = i
		}
		if pt, ok := t.(*types.Pointer); ok {
			if m, ok := pt.Elem().(*types.Named); ok && m.Obj().Name() == "vectorEditor" {
				edit = i
			}
		}
	}
	return
}

type varState struct {
	desc    string
	kind    string // vector, matrix, int, nil
	pending bool
}

func sameAV(a, b av) bool {
	if x, ok := a.(kiface); ok {
		a = x.v
	}
	if x, ok := b.(kiface); ok {
		b = x.v
	}
	switch x := a.(type) {
	case kptr:
		y, ok := b.(kptr)
		return ok && x.o == y.o
	case ktok:
		y, ok := b.(ktok)
		return ok && x.name == y.name
	case kconst:
		y, ok := b.(kconst)
		if !ok {
			return false
		}
		if x.v == nil || y.v == nil {
			return x.v == nil && y.v == nil
		}
		return x.v.ExactString() == y.v.ExactString()
	}
	return false
}

func checkC25(p *Prog, r *Report) {
	persistRules(p, r, "storage-", "sharing")
	r.rule("cell-typestate", "in every state of a variable (undefined, scalar, vector or matrix, with or without pending indexed assignments) reading yields the assigned value with all pending edits applied and none pending afterwards, assigning discards pending edits, and editing starts from the current value or continues the pending edits", 11)
	r.rule("cell-owner", "the value and pending edits of a variable are written only by its own methods or while it is being created", 4)
	r.rule("cell-identity", "every variable entered in a symbol table or a stack frame is a newly created one, so no two names share a cell", 2)
	r.rule("name-lookup", "reading and assigning a name go to the same cell: a local to its frame slot, a global to its own name", 6)
	vt, vf, ef := p.varFields()
	if vt == nil || vf < 0 || ef < 0 {
		r.missing("cell-typestate", "value.Var with a value and an editor")
		return
	}
	vecT := types.NewPointer(p.namedType("value", "Vector"))
	matN := p.namedType("value", "Matrix")
	intT := p.namedType("value", "Int")
	if matN == nil || intT == nil {
		r.missing("cell-typestate", "value.Matrix")
		return
	}
	matT := types.NewPointer(matN)
	mst := matN.Underlying().(*types.Struct)
	dataF, shapeF := -1, -1
	for i := 0; i < mst.NumFields(); i++ {
		if types.Identical(mst.Field(i).Type(), vecT) {
			dataF = i
		}
		if _, ok := mst.Field(i).Type().(*types.Slice); ok {
			shapeF = i
		}
	}
	if dataF < 0 || shapeF < 0 {
		r.missing("cell-typestate", "value.Matrix with a shape and data")
		return
	}

	mk := func() *interp {
		in := &interp{p: p}
		in.onCmp = func(op token.Token, x, y av) (bool, bool) {
			isTok := func(a av) bool { _, ok := a.(ktok); return ok }
			isNil := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
			if isTok(x) && isNil(y) || isTok(y) && isNil(x) {
				if op == token.EQL || op == token.NEQ {
					return op == token.NEQ, true
				}
			}
			return false, false
		}
		in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			if callee == nil || len(args) == 0 {
				return nil, false
			}
			// Results of the editor and vector layer are symbolic: published(E), edit(V).
			t, ok := args[0].(ktok)
			if !ok {
				return nil, false
			}
			res := callee.Signature.Results()
			if res.Len() != 1 || callee.Signature.Recv() == nil {
				return nil, false
			}
			rs := types.TypeString(res.At(0).Type(), func(*types.Package) string { return "" })
			rc := types.TypeString(callee.Signature.Recv().Type(), func(*types.Package) string { return "" })
			if rc == "*vectorEditor" && rs == "*Vector" {
				return ktok{"published(" + t.name + ")"}, true
			}
			if rc == "*Vector" && rs == "*vectorEditor" {
				return ktok{"edit(" + t.name + ")"}, true
			}
			return nil, false
		}
		return in
	}
	newVar := func(s varState) (*obj, *obj) {
		o := newObj(vt)
		var mo *obj
		switch s.kind {
		case "nil":
			o.kids[vf].val = kconst{nil}
		case "int":
			o.kids[vf].val = kiface{intT, iconst(7)}
		case "vector":
			o.kids[vf].val = kiface{vecT, ktok{"V"}}
		case "matrix":
			mo = newObj(matN)
			mo.kids[dataF].val = ktok{"V"}
			mo.kids[shapeF].val = ktok{"S"}
			o.kids[vf].val = kiface{matT, kptr{mo}}
		}
		o.kids[ef].val = kconst{nil}
		if s.pending {
			o.kids[ef].val = ktok{"E"}
		}
		return o, mo
	}
	states := []varState{
		{"undefined", "nil", false}, {"scalar", "int", false}, {"vector", "vector", false}, {"matrix", "matrix", false},
		{"vector with pending edits", "vector", true}, {"matrix with pending edits", "matrix", true},
	}
	isMatrixOf := func(a av, data string, mo *obj) bool {
		ki, ok := a.(kiface)
		if ok {
			a = ki.v
		}
		pt, ok := a.(kptr)
		if !ok || pt.o == nil || len(pt.o.kids) != mst.NumFields() {
			return false
		}
		if pt.o == mo {
			return false
		}
		return sameAV(pt.o.kids[dataF].val, ktok{data}) && sameAV(pt.o.kids[shapeF].val, ktok{"S"})
	}
	runState := func(fn *ssa.Function, label string, s varState, args []av, check func(o, mo *obj, old, ret av) string) {
		key := label + " of a variable: " + s.desc
		msg := ""
		n := 0
		var o, mo *obj
		var old av
		outs := explore(p, mk, func(in *interp) av {
			o, mo = newVar(s)
			old = o.kids[vf].val
			ret := in.call(fn, append([]av{kptr{o}}, args...), nil)
			if m := check(o, mo, old, ret); m != "" {
				msg = m
			}
			return ret
		}, 64)
		for _, x := range outs {
			n++
			if x.aborted != "" {
				msg = "undecided: " + x.aborted
			}
			if x.panicked {
				msg = "stops with an internal error"
			}
		}
		r.add("cell-typestate", key, fn.Pos(), msg == "", "%s", orStr(msg, fmt.Sprintf("%d abstract path(s)", n)))
	}
	valueM := p.method("value", "Var", "Value")
	assignM := p.method("value", "Var", "Assign")
	if valueM == nil || assignM == nil {
		r.missing("cell-typestate", "Var.Value and Var.Assign")
		return
	}
	for _, s := range states {
		s := s
		runState(valueM, "read", s, nil, func(o, mo *obj, old, ret av) string {
			if !s.pending {
				if !sameAV(ret, old) || !sameAV(o.kids[vf].val, old) {
					return "reading does not yield the assigned value"
				}
				return ""
			}
			if k, ok := o.kids[ef].val.(kconst); !ok || k.v != nil {
				return "edits are still pending after the value was handed out"
			}
			if !sameAV(o.kids[vf].val, ret) {
				return "the value read is not the value kept"
			}
			if s.kind == "vector" && !sameAV(ret, ktok{"published(E)"}) {
				return "pending edits are lost: reading yields " + showAV(ret)
			}
			if s.kind == "matrix" && !isMatrixOf(ret, "published(E)", mo) {
				return "reading does not yield a new matrix of the same shape with the pending edits"
			}
			return ""
		})
		runState(assignM, "assignment", s, []av{ktok{"X"}}, func(o, mo *obj, old, ret av) string {
			if !sameAV(o.kids[vf].val, ktok{"X"}) {
				return "the assigned value is not stored"
			}
			if k, ok := o.kids[ef].val.(kconst); !ok || k.v != nil {
				return "edits of the old value are still pending and would replace the new one"
			}
			return ""
		})
	}
	// Methods handing out an editor.
	ned := 0
	for i := 0; i < vt.NumMethods(); i++ {
		f := p.prog.FuncValue(vt.Method(i))
		if f == nil || f.Blocks == nil || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() != 0 {
			continue
		}
		if !strings.HasSuffix(f.Signature.Results().At(0).Type().String(), ".vectorEditor") {
			continue
		}
		ned++
		for _, s := range states {
			if s.kind != "vector" && s.kind != "matrix" {
				continue
			}
			s := s
			runState(f, "edit", s, nil, func(o, mo *obj, old, ret av) string {
				want := ktok{"edit(V)"}
				if s.pending {
					want = ktok{"E"}
				}
				if !sameAV(ret, want) {
					return "the editor handed out does not start from the variable's current contents: " + showAV(ret)
				}
				if !sameAV(o.kids[ef].val, want) {
					return "the edits are not remembered as pending"
				}
				if !sameAV(o.kids[vf].val, old) {
					return "the value is replaced"
				}
				return ""
			})
		}
	}
	if ned == 0 {
		r.missing("cell-typestate", "a method of Var handing out an editor")
	}

	// Who writes the cell.
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && sameNamed(fa.X.Type(), vt) && (fa.Field == vf || fa.Field == ef) {
						key := fname(f) + ": store to " + fieldName(fa.X.Type(), fa.Field)
						own := outermost(f).Signature.Recv() != nil && sameNamed(outermost(f).Signature.Recv().Type(), vt)
						fr := newFreshener(p)
						fr.trace(fa.X, nil)
						fresh := len(fr.bad) == 0 && len(fr.allocs) > 0
						own = own || p.helperOf(outermost(f), vt, 0)
						r.add("cell-owner", key, x.Pos(), own || fresh, "own method: %v, new variable: %v", own, fresh)
					}
					if n, ok := x.Val.Type().(*types.Named); ok && n.Obj() == vt.Obj() {
						if _, isAlloc := x.Addr.(*ssa.Alloc); !isAlloc {
							r.bad("cell-owner", fname(f)+": copies a variable", x.Pos(), "a whole variable cell is copied")
						}
					}
					// cells entered in a table or frame
					if pt, ok := x.Val.Type().(*types.Pointer); ok && sameNamed(pt, vt) {
						if _, ok := x.Addr.(*ssa.IndexAddr); ok {
							p.cellFresh(r, f, x.Val, x.Pos(), "frame slot")
						}
					}
				case *ssa.MapUpdate:
					if pt, ok := x.Value.Type().(*types.Pointer); ok && sameNamed(pt, vt) {
						p.cellFresh(r, f, x.Value, x.Pos(), "symbol table")
					}
				}
			}
		}
	}
	p.checkLookup(r, vt)
	p.slotRules(r)
}

func orStr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// helperOf: f is an unexported function called only from methods of n (a helper extracted from them).
func (p *Prog) helperOf(f *ssa.Function, n *types.Named, depth int) bool {
	if depth > 4 || f.Object() == nil || f.Object().Exported() || p.addressTaken(f) {
		return false
	}
	cs := p.callers[f]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		g := outermost(c.Parent())
		if rc := g.Signature.Recv(); rc != nil && sameNamed(rc.Type(), n) {
			continue
		}
		if !p.helperOf(g, n, depth+1) {
			return false
		}
	}
	return true
}

// putBack: the variable stored under a name is the one found before under the same name in the same table.
func (p *Prog) putBack(f *ssa.Function, v ssa.Value, pos token.Pos) bool {
	var up *ssa.MapUpdate
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MapUpdate); ok && m.Value == v && m.Pos() == pos {
				up = m
			}
		}
	}
	if up == nil {
		return false
	}
	w := v
	for i := 0; i < 6; i++ {
		n := onlyValue(w)
		if n == nil {
			n = p.soleArg(f, w)
		}
		if n == nil || n == w {
			break
		}
		w = n
	}
	if ex, ok := w.(*ssa.Extract); ok && ex.Index == 0 {
		w = ex.Tuple
	}
	l, ok := w.(*ssa.Lookup)
	if !ok {
		return false
	}
	h := f
	if l.Parent() == f {
		h = nil
	}
	k1, k2 := p.stablePath(up.Key, h, 0), p.stablePath(l.Index, nil, 0)
	m1, m2 := p.stablePath(up.Map, h, 0), p.stablePath(l.X, nil, 0)
	return k1 != "" && k1 == k2 && m1 != "" && m1 == m2
}

// soleArg: what a helper that is called in one place is given.
func (p *Prog) soleArg(h *ssa.Function, v ssa.Value) ssa.Value {
	prm, ok := v.(*ssa.Parameter)
	if !ok || h == nil || prm.Parent() != h || len(p.callers[h]) != 1 || p.addressTaken(h) {
		return nil
	}
	for i, q := range h.Params {
		if args := p.callers[h][0].Common().Args; q == prm && i < len(args) {
			return args[i]
		}
	}
	return nil
}

// onlyValue: what a variable that is assigned once holds.
func onlyValue(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	a := u.X
	for {
		fv, ok := a.(*ssa.FreeVar)
		if !ok {
			break
		}
		fn := fv.Parent()
		var bound ssa.Value
		for _, r := range madeClosures(fn) {
			for i, x := range fn.FreeVars {
				if x == fv && i < len(r.Bindings) {
					if bound != nil && bound != r.Bindings[i] {
						return nil
					}
					bound = r.Bindings[i]
				}
			}
		}
		if bound == nil {
			return nil
		}
		a = bound
	}
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if val != nil {
				return nil
			}
			val = st.Val
		}
	}
	return val
}

// madeClosures: where the function is made a closure.
func madeClosures(f *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	if f.Parent() != nil {
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					out = append(out, mc)
				}
			}
		}
	}
	return out
}

// stablePath names a value by the variables, assigned once, and the fields, set at most once in the
// function, that lead to it.
func (p *Prog) stablePath(v ssa.Value, h *ssa.Function, d int) string {
	if d > 8 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.Parameter:
		if a := p.soleArg(h, v); a != nil {
			return p.stablePath(a, nil, d+1)
		}
		return uniq(v)
	case *ssa.Alloc:
		return uniq(v)
	case *ssa.ChangeType:
		return p.stablePath(x.X, h, d+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if n := onlyValue(x); n != nil {
			return p.stablePath(n, h, d+1)
		}
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		base := p.stablePath(fa.X, h, d+1)
		if base == "" {
			return ""
		}
		n := 0
		var count func(f *ssa.Function)
		count = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fb, ok := st.Addr.(*ssa.FieldAddr); ok && fb.Field == fa.Field && types.Identical(fb.X.Type(), fa.X.Type()) {
							n++
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				count(a)
			}
		}
		count(outermost(x.Parent()))
		if n > 1 {
			return ""
		}
		return fmt.Sprintf("%s.%d", base, fa.Field)
	}
	return ""
}

func (p *Prog) cellFresh(r *Report, f *ssa.Function, v ssa.Value, pos token.Pos, where string) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return
	}
	if p.putBack(f, v, pos) {
		r.ok("cell-identity", fname(f)+": "+where, pos, "the variable that was under this name before")
		return
	}
	fr := newFreshener(p)
	fr.trace(v, nil)
	ok := len(fr.bad) == 0 && len(fr.allocs) > 0
	why := "newly created"
	if !ok {
		why = "unknown origin"
		if len(fr.bad) > 0 {
			why = "comes from " + fr.bad[0].why
		}
	}
	r.add("cell-identity", fname(f)+": "+where, pos, ok, "the variable entered: %s", why)
}

// checkLookup: VarExpr.Eval and Assign use the slot or the name of the expression itself.
func (p *Prog) checkLookup(r *Report, vt *types.Named) {
	ve := p.namedType("value", "VarExpr")
	if ve == nil {
		r.missing("name-lookup", "value.VarExpr")
		return
	}
	st := ve.Underlying().(*types.Struct)
	nf, lf := -1, -1
	for i := 0; i < st.NumFields(); i++ {
		if isString(st.Field(i).Type()) {
			nf = i
		} else if b, ok := st.Field(i).Type().(*types.Basic); ok && b.Kind() == types.Int {
			lf = i
		}
	}
	if nf < 0 || lf < 0 {
		r.missing("name-lookup", "name and local slot of value.VarExpr")
		return
	}
	mkExpr := func(local int64, in *interp) av {
		o := newObj(ve)
		o.kids[nf].val = sconst("nm")
		o.kids[lf].val = iconst(local)
		return kptr{o}
	}
	var events []string
	nilGlobal := false
	mk := func() *interp {
		in := &interp{p: p}
		events = nil
		in.onCmp = func(op token.Token, x, y av) (bool, bool) {
			isTok := func(a av) bool { _, ok := a.(ktok); return ok }
			isNil := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
			if (isTok(x) && isNil(y) || isTok(y) && isNil(x)) && (op == token.EQL || op == token.NEQ) {
				return op == token.NEQ, true
			}
			return false, false
		}
		in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			name := ""
			if callee != nil {
				name = callee.Name()
			} else if m != nil {
				name = m.Name()
			}
			switch {
			case m != nil && name == "Local" && len(args) == 2:
				return ktok{"local[" + showAV(args[1]) + "]"}, true
			case m != nil && name == "Global" && len(args) == 2:
				if nilGlobal {
					return kconst{nil}, true
				}
				return ktok{"global[" + showAV(args[1]) + "]"}, true
			case m != nil && name == "AssignGlobal" && len(args) == 3:
				events = append(events, "global["+showAV(args[1])+"]="+showAV(args[2]))
				return kconst{nil}, true
			case callee != nil && callee.Signature.Recv() != nil && sameNamed(callee.Signature.Recv().Type(), vt) && len(args) > 0:
				t, ok := args[0].(ktok)
				if !ok {
					return nil, false
				}
				switch name {
				case "Value":
					return ktok{"value(" + t.name + ")"}, true
				case "Assign":
					events = append(events, t.name+"="+showAV(args[1]))
					return kconst{nil}, true
				}
			}
			if callee != nil && p.noRet[callee] {
				panic(absPanic{sconst("error")})
			}
			return nil, false
		}
		return in
	}
	eval := p.method("value", "VarExpr", "Eval")
	asg := p.fn("value", "Assign")
	if eval == nil || asg == nil {
		r.missing("name-lookup", "VarExpr.Eval and Assign")
		return
	}
	one := func(key string, pos token.Pos, want string, wantEvents string, run func(in *interp) av) {
		msg := ""
		outs := explore(p, mk, func(in *interp) av {
			v := run(in)
			if wantEvents != strings.Join(events, ";") {
				msg = fmt.Sprintf("assigns %q, expected %q", strings.Join(events, ";"), wantEvents)
			}
			return v
		}, 64)
		for _, o := range outs {
			switch {
			case o.aborted != "":
				msg = "undecided: " + o.aborted
			case o.panicked && want != "error":
				msg = "stops with an error"
			case !o.panicked && want == "error":
				msg = "an undefined name yields " + showAV(o.ret)
			case want != "" && want != "error" && showAV(o.ret) != want:
				msg = fmt.Sprintf("yields %s, expected %s", showAV(o.ret), want)
			}
		}
		r.add("name-lookup", key, pos, msg == "", "%s", orStr(msg, "as required"))
	}
	cx := ktok{"ctx"}
	for _, l := range []int64{1, 3} {
		one(fmt.Sprintf("read local %d", l), eval.Pos(), fmt.Sprintf("value(local[%d])", l), "", func(in *interp) av { return in.call(eval, []av{mkExpr(l, in), cx}, nil) })
		one(fmt.Sprintf("assign local %d", l), asg.Pos(), "", fmt.Sprintf("local[%d]=X", l), func(in *interp) av {
			return in.call(asg, []av{cx, kiface{types.NewPointer(ve), mkExpr(l, in)}, kconst{nil}, ktok{"X"}}, nil)
		})
	}
	one("read global", eval.Pos(), `value(global["nm"])`, "", func(in *interp) av { return in.call(eval, []av{mkExpr(0, in), cx}, nil) })
	one("assign global", asg.Pos(), "", `global["nm"]=X`, func(in *interp) av {
		return in.call(asg, []av{cx, kiface{types.NewPointer(ve), mkExpr(0, in)}, kconst{nil}, ktok{"X"}}, nil)
	})
	nilGlobal = true
	one("read undefined global", eval.Pos(), "error", "", func(in *interp) av { return in.call(eval, []av{mkExpr(0, in), cx}, nil) })
	nilGlobal = false
	p.assignTargets(r, vt, ve, nf, lf, asg)

	// The context's own tables: a name is looked up and entered under itself.
	ctxN := p.namedType("exec", "Context")
	ag := p.method("exec", "Context", "AssignGlobal")
	gl := p.method("exec", "Context", "Global")
	if ctxN == nil || ag == nil || gl == nil {
		r.missing("name-lookup", "exec.Context.Global and AssignGlobal")
		return
	}
	cst := ctxN.Underlying().(*types.Struct)
	gi := -1
	for i := 0; i < cst.NumFields(); i++ {
		if mt, ok := cst.Field(i).Type().Underlying().(*types.Map); ok {
			if pt, ok := mt.Elem().(*types.Pointer); ok && sameNamed(pt, vt) {
				gi = i
			}
		}
	}
	if gi < 0 {
		r.missing("name-lookup", "the table of globals in exec.Context")
		return
	}
	_, vf, _ := p.varFields()
	for _, exists := range []bool{false, true} {
		key := fmt.Sprintf("exec.Context: assign to a global that exists=%v", exists)
		msg := ""
		outs := explore(p, func() *interp {
			in := mk()
			base := in.onCall
			in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
				if m != nil && m.Name() == "Inner" {
					return args[0], true
				}
				if callee != nil && callee.Signature.Recv() != nil && sameNamed(callee.Signature.Recv().Type(), vt) {
					return nil, false // the variable's own methods are interpreted
				}
				return base(in, callee, m, args, site)
			}
			return in
		}, func(in *interp) av {
			co := newObj(ctxN)
			am := &amap{m: map[string]av{}, keys: map[string]av{}}
			other := newObj(vt)
			other.kids[vf].val = ktok{"O"}
			k2, _ := akey(sconst("other"))
			am.m[k2], am.keys[k2] = kptr{other}, sconst("other")
			k1, _ := akey(sconst("nm"))
			if exists {
				o := newObj(vt)
				o.kids[vf].val = ktok{"OLD"}
				am.m[k1], am.keys[k1] = kptr{o}, sconst("nm")
			}
			co.kids[gi].val = kmap{am}
			in.call(ag, []av{kptr{co}, sconst("nm"), ktok{"X"}}, nil)
			got := in.call(gl, []av{kptr{co}, sconst("nm")}, nil)
			pt, ok := got.(kptr)
			if !ok || pt.o == nil || !sameAV(pt.o.kids[vf].val, ktok{"X"}) {
				msg = "the name does not hold the assigned value afterwards"
			}
			if o2, ok := am.m[k2].(kptr); !ok || o2.o != other || !sameAV(other.kids[vf].val, ktok{"O"}) {
				msg = "another name changed"
			}
			return got
		}, 64)
		for _, o := range outs {
			if o.aborted != "" {
				msg = "undecided: " + o.aborted
			} else if o.panicked {
				msg = "stops with an error"
			}
		}
		r.add("name-lookup", key, ag.Pos(), msg == "", "%s", orStr(msg, "holds the new value; other names unchanged"))
	}
}

// assignTargets: simultaneous and indexed assignments reach the variables they name.
func (p *Prog) assignTargets(r *Report, vt, ve *types.Named, nf, lf int, asg *ssa.Function) {
	r.rule("assign-target", "a simultaneous assignment gives each target the item at its own place, for every mix of local and global targets, and is refused, with nothing assigned, if the value is not a vector or the lengths differ; an indexed assignment edits the variable it names, local or global, and is refused if that is undefined", 12)
	ie := p.namedType("value", "IndexExpr")
	vx := p.namedType("value", "VectorExpr")
	intT := p.namedType("value", "Int")
	vecN := p.namedType("value", "Vector")
	exprI := p.namedType("value", "Expr")
	if ie == nil || vx == nil || intT == nil || vecN == nil || exprI == nil {
		r.missing("assign-target", "value.IndexExpr, value.VectorExpr, value.Vector")
		return
	}
	vecT := types.NewPointer(vecN)
	_, vf, ef := p.varFields()
	var events []string
	undefined := false
	cells := map[string]*obj{}
	mk := func() *interp {
		in := &interp{p: p, max: 200000}
		events = nil
		cells = map[string]*obj{}
		in.onDyn = vecDyn
		cell := func(key string) av {
			o := cells[key]
			if o == nil {
				o = newObj(vt)
				o.name = key
				o.kids[ef].val = kconst{nil}
				o.kids[vf].val = kiface{vecT, &kvec{"old(" + key + ")", []av{ktok{"a"}, ktok{"b"}, ktok{"c"}, ktok{"d"}}}}
				if undefined {
					o.kids[vf].val = kconst{nil}
				}
				cells[key] = o
			}
			return kptr{o}
		}
		in.onCmp = func(op token.Token, x, y av) (bool, bool) {
			concrete := func(a av) bool {
				switch a.(type) {
				case ktok, *kvec, kall:
					return true
				}
				return false
			}
			isNil := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
			if (concrete(x) && isNil(y) || concrete(y) && isNil(x)) && (op == token.EQL || op == token.NEQ) {
				return op == token.NEQ, true
			}
			return false, false
		}
		in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			if callee != nil && p.noRet[callee] {
				panic(absPanic{sconst("error")})
			}
			if recvBase(callee) == "Vector" && len(args) > 0 {
				if k, ok := args[0].(kconst); ok && k.v == nil {
					panic(absPanic{ktok{"nil"}}) // a method of no vector
				}
			}
			if v, ok := vecCall(in, callee, args); ok {
				return v, true
			}
			if m != nil && callee == nil && len(args) > 0 {
				if args[0] == (ktok{"ctx"}) {
					switch m.Name() {
					case "Local":
						return cell("local " + showAV(args[1])), true
					case "Global":
						if undefined {
							return kconst{nil}, true
						}
						return cell("global " + showAV(args[1])), true
					case "AssignGlobal":
						events = append(events, "global "+showAV(args[1])+" = "+showAV(unIface(args[2])))
						return kconst{nil}, true
					case "Config":
						return ktok{"cfg"}, true
					}
				}
				if t, ok := args[0].(ktok); ok && strings.HasPrefix(t.name, "index") && m.Name() == "Eval" {
					events = append(events, "eval "+t.name)
					return kiface{intT, iconst(3)}, true
				}
				if m.Name() == "Inner" {
					return args[0], true
				}
				if m.Name() == "ProgString" {
					return sconst("text"), true
				}
			}
			if callee != nil && callee.Name() == "ProgString" {
				return sconst("text"), true
			}
			if callee != nil && callee.Name() == "Origin" && len(args) == 1 && args[0] == (ktok{"cfg"}) {
				return iconst(1), true
			}
			if recvBase(callee) == "vectorEditor" && callee.Name() == "Set" && len(args) == 3 {
				events = append(events, fmt.Sprintf("%s [%s] = %s", showAV(args[0]), showAV(args[1]), showAV(unIface(args[2]))))
				return kconst{nil}, true
			}
			if callee != nil && callee.Signature.Recv() != nil && sameNamed(callee.Signature.Recv().Type(), vt) && callee.Name() == "Assign" {
				if pt, ok := args[0].(kptr); ok {
					events = append(events, pt.o.name+" = "+showAV(unIface(args[1])))
					return kconst{nil}, true
				}
			}
			return nil, false
		}
		return in
	}
	mkVar := func(local int64, name string) av {
		o := newObj(ve)
		o.kids[nf].val = sconst(name)
		o.kids[lf].val = iconst(local)
		return kiface{types.NewPointer(ve), kptr{o}}
	}
	mkSlice := func(elems []av, elem types.Type) av {
		arr := &obj{elem: elem}
		for _, e := range elems {
			arr.kids = append(arr.kids, &obj{val: e})
		}
		return kslice{arr, 0, len(elems)}
	}
	one := func(key string, wantErr bool, want []string, left, rhs av) {
		msg := ""
		outs := explore(p, mk, func(in *interp) av {
			return in.call(asg, []av{ktok{"ctx"}, left, kconst{nil}, rhs}, nil)
		}, 64)
		und := ""
		if len(outs) != 1 {
			und = "depends on something unknown"
		}
		for _, o := range outs {
			switch {
			case o.aborted != "":
				und = o.aborted
			case o.panicked && !wantErr:
				msg = "stops with an error"
			case !o.panicked && wantErr:
				msg = "is not refused"
			case o.panicked && o.pval == av(ktok{"nil"}):
				msg = "is not refused, but uses a vector that is none"
			}
		}
		if und != "" {
			r.ok("assign-target", key, asg.Pos(), "not decided: "+und)
			return
		}
		got := map[string]bool{}
		ng := 0
		for _, e := range events {
			if !strings.HasPrefix(e, "eval ") {
				got[e] = true
				ng++
			}
		}
		if msg == "" {
			ok := ng == len(want)
			for _, w := range want {
				ok = ok && got[w]
			}
			if !ok {
				msg = fmt.Sprintf("does %q, expected %q", events, want)
			}
		}
		r.add("assign-target", key, asg.Pos(), msg == "", "%s", orStr(msg, "as required"))
	}
	type target struct {
		local int64
		name  string
	}
	at := func(t target) string {
		if t.local >= 1 {
			return fmt.Sprintf("local %d", t.local)
		}
		return fmt.Sprintf("global %q", t.name)
	}
	for _, ts := range [][]target{{{0, "p"}, {0, "q"}}, {{1, "p"}, {2, "q"}}, {{2, "p"}, {0, "q"}, {1, "s"}}, {{0, "p"}, {0, "q"}, {0, "s"}, {4, "t"}}} {
		var exprs, items []av
		var names, want []string
		for i, t := range ts {
			exprs = append(exprs, mkVar(t.local, t.name))
			it := fmt.Sprintf("item%d", i)
			items = append(items, ktok{it})
			names = append(names, at(t))
			want = append(want, at(t)+" = "+it)
		}
		left := kiface{vx, mkSlice(exprs, exprI)}
		desc := "(" + strings.Join(names, " ") + ")"
		one(desc+" = a vector of as many items", false, want, left, kiface{vecT, &kvec{"R", items}})
		one(desc+" = a vector of fewer items", true, nil, left, kiface{vecT, &kvec{"R", items[1:]}})
		one(desc+" = a vector of more items", true, nil, left, kiface{vecT, &kvec{"R", append(append([]av{}, items...), ktok{"extra"})}})
		one(desc+" = a scalar", true, nil, left, kiface{intT, iconst(5)})
	}
	ist := ie.Underlying().(*types.Struct)
	for _, t := range []target{{0, "p"}, {1, "p"}, {3, "p"}} {
		o := newObj(ie)
		for i := 0; i < ist.NumFields(); i++ {
			ft := ist.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Slice); ok {
				o.kids[i].val = mkSlice([]av{ktok{"index0"}}, exprI)
			} else if _, ok := ft.Underlying().(*types.Interface); ok {
				o.kids[i].val = mkVar(t.local, t.name)
			} else {
				o.kids[i].val = sconst("[]")
			}
		}
		left := kiface{types.NewPointer(ie), kptr{o}}
		one("indexed assignment to "+at(t), false, []string{"edit(old(" + at(t) + ")) [2] = X"}, left, kiface{intT, ktok{"X"}})
		undefined = true
		one("indexed assignment to undefined "+at(t), true, nil, left, kiface{intT, ktok{"X"}})
		undefined = false
	}
}
