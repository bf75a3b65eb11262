package main

// C23: a user-defined operator with a built-in's name changes only that operator.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C23"] = checkC23 }

// opFields finds the map fields of exec.Context holding user-defined unary and binary operators,
// by what UserDefined consults.
func (p *Prog) opFields() (ctxN *types.Named, un, bin int) {
	ctxN = p.namedType("exec", "Context")
	un, bin = -1, -1
	if ctxN == nil {
		return
	}
	st, ok := ctxN.Underlying().(*types.Struct)
	if !ok {
		return nil, -1, -1
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "UnaryFn":
			un = i
		case "BinaryFn":
			bin = i
		}
	}
	return
}

func isContextEval(cc *ssa.CallCommon) (name string, op ssa.Value, operands []ssa.Value) {
	var args []ssa.Value
	if cc.IsInvoke() {
		name = cc.Method.Name()
		args = cc.Args
	} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && relPkg(f) == "exec" {
		name = f.Name()
		if len(cc.Args) > 0 {
			args = cc.Args[1:]
		}
	}
	switch {
	case name == "EvalUnary" && len(args) == 2 && isString(args[0].Type()):
		return name, args[0], args[1:]
	case name == "EvalBinary" && len(args) == 3 && isString(args[1].Type()):
		return name, args[1], []ssa.Value{args[0], args[2]}
	}
	return "", nil, nil
}

func checkC23(p *Prog, r *Report) {
	r.rule("no-named-callback", "a built-in evaluates another operator through the user-visible tables only under a name the user's program supplied, or a symbol no user can define", 40)
	r.rule("builtin-direct", "a built-in that calls another named built-in does so on operands for which the entry runs itself, not element by element through the user-visible tables", 3)
	r.rule("dispatch", "a name evaluates the user's unary (binary) operator if there is one, otherwise the built-in of the same name and arity, otherwise it is an error; definitions of the other arity and of other names play no part", 16)
	r.rule("no-name-shortcut", "an operator name is never recognised as a built-in without asking whether the user redefined it", 10)
	r.rule("definitions", "defining or undefining an operator of one arity sets exactly that operator: the same name's other arity and other operators keep their definitions", 8)
	p.checkOpNames(r)
	p.checkDispatch(r)
	p.checkDefinitions(r)
	p.checkShortcuts(r)
}

// opNameSources traces the name of an evaluated operator.
func (p *Prog) opNameSources(v ssa.Value) (consts []string, other []string) {
	t := newProv(p)
	t.visit = func(v ssa.Value, ctx *ictx) bool {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				consts = append(consts, constant.StringVal(x.Value))
			}
			return true
		case *ssa.Slice:
			t.trace(x.X, ctx)
			return true
		case *ssa.BinOp:
			if x.Op == token.ADD {
				t.trace(x.X, ctx)
				t.trace(x.Y, ctx)
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					n := namedOf(fa.X.Type())
					if n != nil && (types.Implements(n, p.exprIface()) || types.Implements(types.NewPointer(n), p.exprIface())) {
						other = append(other, "program text")
						return true
					}
					// The entry's own name: the operator the program asked for.
					if n != nil && (n.Obj().Name() == "unaryOp" || n.Obj().Name() == "binaryOp") {
						other = append(other, "own name")
						return true
					}
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && relTo(f) == "strings" {
				for _, a := range x.Call.Args {
					if isString(a.Type()) {
						t.trace(a, ctx)
					}
				}
				return true
			}
		}
		return false
	}
	t.leaf = func(v ssa.Value, ctx *ictx, why string) {
		if prm, ok := v.(*ssa.Parameter); ok && len(p.callSites(prm.Parent())) == 0 {
			return
		}
		other = append(other, "unknown "+why+" "+shortVal(v))
	}
	t.trace(v, nil)
	return
}

func (p *Prog) exprIface() *types.Interface {
	n := p.namedType("value", "Expr")
	if n == nil {
		return types.NewInterfaceType(nil, nil)
	}
	return n.Underlying().(*types.Interface)
}

func (p *Prog) checkOpNames(r *Report) {
	cnt := map[string]int{}
	for _, f := range p.funcs {
		if !libPkgs[relPkg(f)] {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !g.live(in) {
					continue
				}
				name, op, _ := isContextEval(c.Common())
				if name != "" {
					cs, oth := p.opNameSources(op)
					cnt[fname(f)]++
					key := fmt.Sprintf("%s evaluation %d", fname(f), cnt[fname(f)])
					bad := ""
					for _, s := range cs {
						if isIdent(s) {
							bad = fmt.Sprintf("evaluates %q by name: a user-defined %s would be called instead of the built-in", s, s)
						}
					}
					for _, s := range oth {
						if strings.HasPrefix(s, "unknown") {
							bad = "the operator's name comes from " + s
						}
					}
					if bad != "" {
						r.bad("no-named-callback", key, c.Pos(), "%s", bad)
					} else {
						sort.Strings(cs)
						r.ok("no-named-callback", key, c.Pos(), "operator from %s", strings.Join(append(uniqStrings(cs), uniqStrings(oth)...), " "))
					}
				}
				// Direct calls of table entries.
				if c.Common().IsInvoke() {
					if n := c.Common().Method.Name(); relPkg(f) == "value" && (n == "EvalUnary" || n == "EvalBinary") && p.opTableLookup(c.Common().Value) {
						r.bad("no-name-shortcut", fname(f)+" "+n, c.Pos(), "runs the built-in table's entry for a name the program supplied: a user's definition of it would be bypassed")
					}
					e := p.tableEntry(c.Common().Value)
					if e == nil || !isIdent(e.name) {
						continue
					}
					for i, a := range c.Common().Args[1:] {
						key := fmt.Sprintf("%s calls built-in %s, operand %d", fname(f), e.name, i+1)
						why, ok := p.neverElementwise(e, a)
						if ok {
							r.ok("builtin-direct", key, c.Pos(), "%s", why)
						} else {
							r.bad("builtin-direct", key, c.Pos(), "%s", why)
						}
					}
				}
			}
		}
	}
}

// opTableLookup: v is the entry of UnaryOps or BinaryOps for a name that is not a constant.
func (p *Prog) opTableLookup(v ssa.Value) bool {
	found := false
	t := newProv(p)
	t.visit = func(v ssa.Value, ctx *ictx) bool {
		l, ok := v.(*ssa.Lookup)
		if !ok {
			return false
		}
		if u, ok := l.X.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && relTo2(g) == "value" && (g.Name() == "UnaryOps" || g.Name() == "BinaryOps") {
				if _, c := constStr(l.Index); !c {
					found = true
				}
			}
		}
		return true
	}
	t.leaf = func(v ssa.Value, ctx *ictx, why string) {}
	t.trace(v, nil)
	return found
}

func relTo2(g *ssa.Global) string {
	if g.Pkg == nil {
		return ""
	}
	return g.Pkg.Pkg.Name()
}

func uniqStrings(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// neverElementwise: the operand cannot be a vector or matrix handled element by element.
func (p *Prog) neverElementwise(e *opEntry, a ssa.Value) (string, bool) {
	if !e.elementwise || e.fn["vector"] != nil && e.fn["matrix"] != nil {
		return "the entry handles every kind itself", true
	}
	bad := ""
	t := newProv(p)
	t.visit = func(v ssa.Value, ctx *ictx) bool {
		if !types.IsInterface(v.Type()) {
			if n := namedOf(v.Type()); n != nil && (n.Obj().Name() == "Vector" || n.Obj().Name() == "Matrix") {
				bad = "a " + n.Obj().Name()
			}
			return true
		}
		if _, ok := v.(*ssa.Const); ok {
			return true
		}
		// The parts of a complex number are real scalars.
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if n := namedOf(fa.X.Type()); n != nil && n.Obj().Name() == "Complex" {
					return true
				}
			}
		}
		if fl, ok := v.(*ssa.Field); ok {
			if n := namedOf(fl.X.Type()); n != nil && n.Obj().Name() == "Complex" {
				return true
			}
		}
		// Asserted to, or found by a dominating test to be, a scalar kind.
		if ta, ok := v.(*ssa.TypeAssert); ok && !types.IsInterface(ta.AssertedType) {
			return true
		}
		if prm, ok := v.(*ssa.Parameter); ok && ctx == nil {
			// An entry of a scalar kind in the tables is only run on that kind.
			if ks := p.entryKinds(prm.Parent()); len(ks) > 0 {
				for _, k := range ks {
					if k == "vector" || k == "matrix" {
						bad = "a " + k
					}
				}
				return true
			}
		}
		return false
	}
	t.leaf = func(v ssa.Value, ctx *ictx, why string) {
		if c, ok := v.(*ssa.Call); ok {
			if k := p.kindOfValue(c); k != "" && k != "vector" && k != "matrix" {
				return
			}
		}
		bad = "of unknown kind (" + why + " " + shortVal(v) + ")"
	}
	t.trace(a, nil)
	if bad != "" {
		return "operand may be " + bad + ": the built-in would evaluate its elements under its public name, which the user may have redefined", false
	}
	return "scalar operand", true
}

// entryKinds lists the kinds for which fn is a table entry.
func (p *Prog) entryKinds(fn *ssa.Function) []string {
	var out []string
	for _, e := range p.opTables().all() {
		for k, f := range e.fn {
			if f == fn {
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return out
}

func (p *Prog) checkDispatch(r *Report) {
	ctxN, un, bin := p.opFields()
	fnN := p.namedType("exec", "Function")
	eu, eb := p.method("exec", "Context", "EvalUnary"), p.method("exec", "Context", "EvalBinary")
	ud := p.method("exec", "Context", "UserDefined")
	if ctxN == nil || un < 0 || bin < 0 || fnN == nil || eu == nil || eb == nil || ud == nil {
		r.missing("dispatch", "exec.Context with UnaryFn, BinaryFn, EvalUnary, EvalBinary and UserDefined")
		return
	}
	fu, fb := newObj(fnN), newObj(fnN)
	other := newObj(fnN)
	mkMap := func(names ...any) av {
		am := &amap{m: map[string]av{}, keys: map[string]av{}, open: true}
		for i := 0; i < len(names); i += 2 {
			k, _ := akey(sconst(names[i].(string)))
			am.m[k], am.keys[k] = names[i+1].(av), sconst(names[i].(string))
		}
		return kmap{am}
	}
	for _, binary := range []bool{false, true} {
		for mask := 0; mask < 16; mask++ {
			userU, userB, builtU, builtB := mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0
			var called []string
			mk := func() *interp {
				called = nil
				in := &interp{p: p, globals: map[*ssa.Global]*obj{}}
				setG := func(name string, v av) {
					if sp := p.spkg["value"]; sp != nil {
						if g, ok := sp.Members[name].(*ssa.Global); ok {
							o := newObj(g.Type().(*types.Pointer).Elem())
							o.val = v
							in.globals[g] = o
						}
					}
				}
				bu := []any{"other", av(ktok{"OTHERB"})}
				if builtU {
					bu = append(bu, "foo", av(ktok{"BUILTIN1"}))
				}
				setG("UnaryOps", mkMap(bu...))
				bb := []any{"other", av(ktok{"OTHERB"})}
				if builtB {
					bb = append(bb, "foo", av(ktok{"BUILTIN2"}))
				}
				setG("BinaryOps", mkMap(bb...))
				in.onCmp = func(op token.Token, x, y av) (bool, bool) {
					isTok := func(a av) bool { _, ok := a.(ktok); return ok }
					isNil := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
					if (isTok(x) && isNil(y) || isTok(y) && isNil(x)) && (op == token.EQL || op == token.NEQ) {
						return op == token.NEQ, true
					}
					return false, false
				}
				in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
					if m != nil && callee == nil && m.Name() == "Inner" {
						return args[0], true
					}
					name := ""
					if callee != nil {
						name = callee.Name()
					} else if m != nil {
						name = m.Name()
					}
					if (name == "EvalUnary" || name == "EvalBinary") && len(args) > 0 {
						who := ""
						a := args[0]
						if ki, ok := a.(kiface); ok {
							a = ki.v
						}
						if t, ok := a.(ktok); ok {
							who = t.name
						}
						if pt, ok := a.(kptr); ok {
							switch pt.o {
							case fu:
								who = "USER1"
							case fb:
								who = "USER2"
							case other:
								who = "OTHER"
							}
						}
						if who == "" {
							return nil, false
						}
						var ops []string
						for _, o := range args[2:] {
							ops = append(ops, showAV(o))
						}
						called = append(called, name+" "+who+"("+strings.Join(ops, ",")+")")
						return ktok{"R"}, true
					}
					if callee != nil && (strings.HasPrefix(name, "Trace") || name == "EvalCharEqual") {
						if name == "EvalCharEqual" {
							return ktuple{[]av{kconst{nil}, bconst(false)}}, true
						}
						return kconst{nil}, true
					}
					if callee != nil && p.noRet[callee] {
						panic(absPanic{sconst("error")})
					}
					return nil, false
				}
				return in
			}
			key := fmt.Sprintf("EvalUnary(foo): user unary=%v binary=%v, built-in unary=%v binary=%v", userU, userB, builtU, builtB)
			want := ""
			if binary {
				key = strings.Replace(key, "EvalUnary", "EvalBinary", 1)
				switch {
				case userB:
					want = "EvalBinary USER2(L,V)"
				case builtB:
					want = "EvalBinary BUILTIN2(L,V)"
				}
			} else {
				switch {
				case userU:
					want = "EvalUnary USER1(V)"
				case builtU:
					want = "EvalUnary BUILTIN1(V)"
				}
			}
			newCtx := func() *obj {
				co := newObj(ctxN)
				u := []any{"other", av(kptr{other})}
				if userU {
					u = append(u, "foo", av(kptr{fu}))
				}
				b := []any{"other", av(kptr{other})}
				if userB {
					b = append(b, "foo", av(kptr{fb}))
				}
				co.kids[un].val = mkMap(u...)
				co.kids[bin].val = mkMap(b...)
				return co
			}
			msg := ""
			outs := explore(p, mk, func(in *interp) av {
				co := newCtx()
				if binary {
					return in.call(eb, []av{kptr{co}, ktok{"L"}, sconst("foo"), ktok{"V"}}, nil)
				}
				v := in.call(eu, []av{kptr{co}, sconst("foo"), ktok{"V"}}, nil)
				return v
			}, 64)
			for _, o := range outs {
				switch {
				case o.aborted != "":
					msg = "undecided: " + o.aborted
				case want == "" && !o.panicked:
					msg = "an unknown operator does not stop with an error"
				case want != "" && o.panicked:
					msg = "stops with an error"
				case want != "" && (len(called) != 1 || called[0] != want):
					msg = fmt.Sprintf("evaluates %v, expected %s", called, want)
				}
			}
			r.add("dispatch", key, eu.Pos(), msg == "", "%s", orStr(msg, orStr(want, "an error")))

			// UserDefined reports exactly the user's definitions of that arity.
			wantB := userU
			if binary {
				wantB = userB
			}
			msg = ""
			for _, o := range explore(p, mk, func(in *interp) av { return in.call(ud, []av{kptr{newCtx()}, sconst("foo"), bconst(binary)}, nil) }, 64) {
				k, ok := o.ret.(kconst)
				if o.aborted != "" || o.panicked || !ok || k.v == nil || constant.BoolVal(k.v) != wantB {
					msg = fmt.Sprintf("yields %s, expected %v", showAV(o.ret), wantB)
				}
			}
			r.add("dispatch", strings.Replace(strings.Replace(key, "EvalUnary(foo)", "UserDefined(foo, unary)", 1), "EvalBinary(foo)", "UserDefined(foo, binary)", 1), ud.Pos(), msg == "", "%s", orStr(msg, fmt.Sprint(wantB)))
		}
	}
}

// checkDefinitions runs Define and Undefine abstractly from every state of the two definitions
// of a name.
func (p *Prog) checkDefinitions(r *Report) {
	ctxN, un, bin := p.opFields()
	fnN, defN := p.namedType("exec", "Function"), p.namedType("exec", "OpDef")
	def, undef := p.method("exec", "Context", "Define"), p.method("exec", "Context", "Undefine")
	if ctxN == nil || un < 0 || bin < 0 || fnN == nil || defN == nil || def == nil || undef == nil {
		r.missing("definitions", "exec.Context with UnaryFn, BinaryFn, Define and Undefine")
		return
	}
	field := func(n *types.Named, name string) int {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
		return -1
	}
	defs, globals := field(ctxN, "Defs"), field(ctxN, "Globals")
	fName, fBin := field(fnN, "Name"), field(fnN, "IsBinary")
	dName, dBin := field(defN, "Name"), field(defN, "IsBinary")
	for _, i := range []int{defs, globals, fName, fBin, dName, dBin} {
		if i < 0 {
			r.missing("definitions", "Defs, Globals, Name and IsBinary fields")
			return
		}
	}
	mkFn := func(binary bool) *obj {
		o := newObj(fnN)
		o.kids[fName].val = sconst("foo")
		o.kids[fBin].val = bconst(binary)
		return o
	}
	for _, undefine := range []bool{false, true} {
		for mask := 0; mask < 8; mask++ {
			for order := 0; order < 4; order++ {
				userU, userB, binary := mask&1 != 0, mask&2 != 0, mask&4 != 0
				if order&1 != 0 && !(userU && userB) {
					continue
				}
				other, oldU, oldB, fresh := newObj(fnN), mkFn(false), mkFn(true), mkFn(binary)
				var co *obj
				var list []string
				outs := explore(p, func() *interp {
					in := &interp{p: p, globals: map[*ssa.Global]*obj{}}
					in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
						if callee != nil && p.noRet[callee] {
							panic(absPanic{sconst("error")})
						}
						return nil, false
					}
					return in
				}, func(in *interp) av {
					co = newObj(ctxN)
					mk := func(have bool, o *obj) av {
						am := &amap{m: map[string]av{}, keys: map[string]av{}, open: true}
						k, _ := akey(sconst("other"))
						am.m[k], am.keys[k] = kptr{other}, sconst("other")
						if have {
							k, _ := akey(sconst("foo"))
							am.m[k], am.keys[k] = kptr{o}, sconst("foo")
						}
						return kmap{am}
					}
					co.kids[un].val, co.kids[bin].val = mk(userU, oldU), mk(userB, oldB)
					co.kids[globals].val = kmap{&amap{m: map[string]av{}, keys: map[string]av{}}}
					arr := &obj{elem: types.NewArray(defN, 0)}
					list = nil
					addDef := func(name string, b bool) {
						list = append(list, fmt.Sprintf("%s/%v", name, b))
						d := newObj(defN)
						d.kids[dName].val, d.kids[dBin].val = sconst(name), bconst(b)
						arr.kids = append(arr.kids, d)
					}
					addDef("other", false)
					addDef("other", true)
					if order&1 != 0 {
						addDef("foo", true)
					}
					if userU {
						addDef("foo", false)
					}
					if userB && order&1 == 0 {
						addDef("foo", true)
					}
					if order&2 != 0 {
						addDef("third", false)
						addDef("third", true)
					}
					co.kids[defs].val = kslice{arr: arr, lo: 0, hi: len(arr.kids)}
					if undefine {
						return in.call(undef, []av{kptr{co}, sconst("foo"), bconst(binary)}, nil)
					}
					return in.call(def, []av{kptr{co}, kptr{fresh}}, nil)
				}, 64)
				msg := ""
				for _, o := range outs {
					if o.aborted != "" {
						msg = "undecided: " + o.aborted
						continue
					}
					get := func(f int, name string) *obj {
						m, ok := co.kids[f].val.(kmap)
						if !ok || m.m.unk {
							msg = "undecided: the definitions are not tracked"
							return nil
						}
						k, _ := akey(sconst(name))
						pt, _ := m.m.m[k].(kptr)
						return pt.o
					}
					wantU, wantB := (*obj)(nil), (*obj)(nil)
					if userU {
						wantU = oldU
					}
					if userB {
						wantB = oldB
					}
					if o.panicked {
						if !undefine || binary && userB || !binary && userU {
							msg = "stops with an error"
						}
					} else if undefine {
						if binary {
							wantB = nil
						} else {
							wantU = nil
						}
					} else if binary {
						wantB = fresh
					} else {
						wantU = fresh
					}
					if get(un, "foo") != wantU {
						msg = "leaves the wrong unary definition"
					}
					if get(bin, "foo") != wantB {
						msg = "leaves the wrong binary definition"
					}
					if get(un, "other") != other || get(bin, "other") != other {
						msg = "changes another operator's definition"
					}
					// The list of definitions: the same ones, in order, except this one,
					// which is dropped or becomes the latest.
					self := fmt.Sprintf("foo/%v", binary)
					var want, got []string
					for _, d := range list {
						if d != self || o.panicked {
							want = append(want, d)
						}
					}
					if !undefine && !o.panicked {
						want = append(want, self)
					}
					sl, ok := co.kids[defs].val.(kslice)
					if !ok || sl.arr == nil {
						msg = "undecided: the list of definitions is not tracked"
						continue
					}
					for _, d := range sl.arr.kids[sl.lo:sl.hi] {
						n, ok1 := d.kids[dName].val.(kconst)
						b, ok2 := d.kids[dBin].val.(kconst)
						if !ok1 || !ok2 || n.v == nil || b.v == nil {
							msg = "undecided: the list of definitions is not tracked"
							break
						}
						got = append(got, fmt.Sprintf("%s/%v", constant.StringVal(n.v), constant.BoolVal(b.v)))
					}
					if msg == "" && !slices.Equal(got, want) {
						msg = fmt.Sprintf("the list of definitions becomes %v, not %v", got, want)
					}
				}
				what, f := "Define", def
				if undefine {
					what, f = "Undefine", undef
				}
				key := fmt.Sprintf("%s(foo, binary=%v) with unary=%v binary=%v order %d", what, binary, userU, userB, order)
				r.add("definitions", key, f.Pos(), msg == "", "%s", orStr(msg, "exactly that definition changes"))
			}
		}
	}
}

// checkShortcuts: predicates over operator names must answer no for redefined operators, and
// other code must not compare an operator name with a built-in's identifier.
func (p *Prog) checkShortcuts(r *Report) {
	preds := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if !libPkgs[relPkg(f)] || f.Parent() != nil {
			continue
		}
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 1 {
			continue
		}
		if bt, ok := sig.Results().At(0).Type().(*types.Basic); !ok || bt.Kind() != types.Bool {
			continue
		}
		if n, ok := sig.Params().At(0).Type().(*types.Named); !ok || n.Obj().Name() != "Context" || !isString(sig.Params().At(1).Type()) {
			continue
		}
		preds[f] = true
		// Which arity does it speak of? By the table or the UserDefined question it asks.
		for _, binary := range []bool{true, false} {
			tab := p.opTables().unary
			if binary {
				tab = p.opTables().binary
			}
			var names []string
			for n := range tab {
				names = append(names, n)
			}
			sort.Strings(names)
			asks := 0
			bad := ""
			n := 0
			for _, name := range names {
				if !isIdent(name) {
					continue
				}
				n++
				mk := func() *interp {
					in := &interp{p: p, globals: map[*ssa.Global]*obj{}}
					in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
						if m != nil && m.Name() == "UserDefined" && len(args) == 3 {
							k, ok := args[2].(kconst)
							if !ok || k.v == nil {
								return kunknown{}, true
							}
							if constant.BoolVal(k.v) == binary {
								asks++
							}
							s, ok := args[1].(kconst)
							same := ok && s.v != nil && constant.StringVal(s.v) == name
							return bconst(constant.BoolVal(k.v) == binary && same), true
						}
						return nil, false
					}
					return in
				}
				for _, o := range explore(p, mk, func(in *interp) av { return in.call(f, []av{ktok{"ctx"}, sconst(name)}, nil) }, 64) {
					k, ok := o.ret.(kconst)
					if o.aborted != "" {
						bad = "undecided: " + o.aborted
					} else if o.panicked {
						continue
					} else if !ok || k.v == nil || k.v.Kind() != constant.Bool || constant.BoolVal(k.v) {
						bad = fmt.Sprintf("does not answer no for %q when the user has redefined it", name)
					}
				}
			}
			if asks == 0 {
				// It does not ask about this arity at all: then it must be about the other one.
				continue
			}
			ar := "unary"
			if binary {
				ar = "binary"
			}
			r.add("no-name-shortcut", fname(f)+" for redefined "+ar+" operators", f.Pos(), bad == "", "%s", orStr(bad, fmt.Sprintf("answers no for all %d named built-ins", n)))
		}
		if !p.asksUserDefined(f) && p.comparesOpNames(f) != "" {
			r.bad("no-name-shortcut", fname(f), f.Pos(), "decides on the operator name %q without asking whether it is user-defined", p.comparesOpNames(f))
		}
	}
	// Arity agreement: which predicates decide how which evaluations are done is checked by C08;
	// here every other comparison of an operator name.
	var partOf func(f *ssa.Function, d int) bool
	partOf = func(f *ssa.Function, d int) bool {
		if preds[f] {
			return true
		}
		cs := p.callers[f]
		if d == 0 || len(cs) == 0 || f.Parent() != nil || p.addressTaken(f) {
			return false
		}
		for _, c := range cs {
			if !partOf(c.Parent(), d-1) {
				return false
			}
		}
		return true
	}
	for _, f := range p.funcs {
		// What only the predicates use has been explored with them.
		if !(relPkg(f) == "value" || relPkg(f) == "exec") || partOf(f, 3) {
			continue
		}
		hasOp := false
		for q := f; q != nil; q = q.Parent() {
			for _, pr := range q.Params {
				if isString(pr.Type()) {
					hasOp = true
				}
			}
			// value.BinaryExpr and friends carry the name in a field.
			if q.Signature.Recv() != nil {
				if n := namedOf(q.Signature.Recv().Type()); n != nil && (types.Implements(types.NewPointer(n), p.exprIface()) || n.Obj().Name() == "unaryOp" || n.Obj().Name() == "binaryOp") {
					hasOp = true
				}
			}
		}
		if !hasOp {
			continue
		}
		if s := p.comparesOpNames(f); s != "" {
			r.bad("no-name-shortcut", fname(f), f.Pos(), "treats the operator name %q specially: a user-defined %s would be bypassed", s, s)
		} else {
			r.ok("no-name-shortcut", fname(f), f.Pos(), "no built-in's name is recognised")
		}
	}
}

func (p *Prog) asksUserDefined(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "UserDefined" {
				return true
			}
		}
	}
	return false
}

// comparesOpNames finds a comparison of a run-time string with the identifier of a built-in that
// is not made under the knowledge that the operator is not user-defined.
func (p *Prog) comparesOpNames(f *ssa.Function) string {
	g := p.cfg(f)
	tabs := p.opTables()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !g.live(in) || bo.Op != token.EQL && bo.Op != token.NEQ || !isString(bo.X.Type()) {
				continue
			}
			s, ok := constStr(bo.Y)
			x := bo.X
			if !ok {
				s, ok = constStr(bo.X)
				x = bo.Y
			}
			if !ok || !isIdent(s) || tabs.unary[s] == nil && tabs.binary[s] == nil {
				continue
			}
			if _, c := x.(*ssa.Const); c {
				continue
			}
			// A string built only from constants is not an operator's name.
			if _, other := p.opNameSources(x); len(other) == 0 {
				continue
			}
			_, atoms := p.expand(p.guards(b, nil))
			guarded := false
			for _, a := range atoms {
				if c, ok := a.cond.(*ssa.Call); ok && !a.val && c.Call.IsInvoke() && c.Call.Method.Name() == "UserDefined" {
					guarded = true
				}
			}
			if !guarded {
				return s
			}
		}
	}
	return ""
}
