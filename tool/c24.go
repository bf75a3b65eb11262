package main

// C24: a quiet value (the result of an assignment or print) never reaches a place where a
// plain value is inspected or kept.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = checkC24 }

// quietTaint is a forward, flow-insensitive analysis of which interface values may hold a QuietValue.
type quietTaint struct {
	p    *Prog
	q    *types.Named
	may  map[ssa.Value]ssa.Value // value -> where it came from
	work []ssa.Value
	fld  map[*types.Var]ssa.Value

	skip  map[ssa.CallInstruction]bool
	extra map[*ssa.Function][]ssa.CallInstruction
}

func (t *quietTaint) add(v, from ssa.Value) {
	if v == nil {
		return
	}
	if _, ok := t.may[v]; ok {
		return
	}
	if !types.IsInterface(v.Type()) {
		if _, ok := v.Type().(*types.Tuple); !ok {
			return
		}
	}
	t.may[v] = from
	t.work = append(t.work, v)
}

// sites lists the calls that receive f's results. A call of a built-in operator fixed in the
// source receives only the results of that operator's entries.
func (t *quietTaint) sites(f *ssa.Function) []ssa.CallInstruction {
	if t.skip == nil {
		t.skip = map[ssa.CallInstruction]bool{}
		t.extra = map[*ssa.Function][]ssa.CallInstruction{}
		for _, fn := range t.p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if fns, _ := t.p.constOp(c); fns != nil {
							t.skip[c] = true
							for _, e := range fns {
								t.extra[e] = append(t.extra[e], c)
							}
						}
					}
				}
			}
		}
	}
	var out []ssa.CallInstruction
	for _, c := range t.p.callSites(f) {
		if !t.skip[c] {
			out = append(out, c)
		}
	}
	return append(out, t.extra[f]...)
}

// notQuietAt reports that v was tested and found not to be quiet whenever control is at block b.
func (t *quietTaint) notQuietAt(v ssa.Value, facts []fact) bool {
	for _, f := range facts {
		if !f.val {
			if e, ok := f.cond.(*ssa.Extract); ok && e.Index == 1 {
				if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && ta.X == v && sameNamed(ta.AssertedType, t.q) {
					return true
				}
			}
		} else {
			// Found to be some other concrete kind.
			if e, ok := f.cond.(*ssa.Extract); ok && e.Index == 1 {
				if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && ta.X == v && !sameNamed(ta.AssertedType, t.q) && !types.IsInterface(ta.AssertedType) {
					return true
				}
			}
		}
	}
	return false
}

func (t *quietTaint) run() {
	p := t.p
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && sameNamed(mi.X.Type(), t.q) && p.cfg(f).live(in) {
					t.add(mi, mi)
				}
			}
		}
	}
	for len(t.work) > 0 {
		v := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, u := range *refs {
			t.use(v, u)
		}
	}
}

func (t *quietTaint) use(v ssa.Value, u ssa.Instruction) {
	p := t.p
	g := p.cfg(u.Parent())
	if !g.live(u) {
		return
	}
	if _, ok := u.(*ssa.Phi); !ok && t.notQuietAt(v, p.guards(u.Block(), nil)) {
		return
	}
	switch u := u.(type) {
	case *ssa.Phi:
		for i, e := range u.Edges {
			if e != v {
				continue
			}
			pr := u.Block().Preds[i]
			if !g.edgeLive(pr, u.Block()) {
				continue
			}
			fs := append(p.guards(pr, nil), p.edgeFacts(pr, u.Block(), nil)...)
			if t.notQuietAt(v, fs) {
				continue
			}
			t.add(u, v)
		}
	case *ssa.ChangeInterface:
		t.add(u, v)
	case *ssa.TypeAssert:
		if types.IsInterface(u.AssertedType) {
			if u.CommaOk {
				for _, e := range *u.Referrers() {
					if ex, ok := e.(*ssa.Extract); ok && ex.Index == 0 {
						t.add(ex, v)
					}
				}
			} else {
				t.add(u, v)
			}
		}
	case *ssa.Store:
		if u.Val != v {
			return
		}
		if a := rootAlloc(u.Addr); a != nil {
			t.loads(a, v)
			return
		}
		switch x := u.Addr.(type) {
		case *ssa.FieldAddr:
			if f := fieldVar(x.X.Type(), x.Field); f != nil {
				if _, ok := t.fld[f]; !ok {
					t.fld[f] = v
					t.fieldLoads(f, v)
				}
			}
		case *ssa.IndexAddr:
			// An element of a local array (variadic arguments) or slice: the slice's users.
			t.add(x, v)
			t.elems(x.X, v)
		case *ssa.Global:
			for _, l := range p.globalLoads(x) {
				t.add(l, v)
			}
		}
	case *ssa.MakeClosure:
		fn := u.Fn.(*ssa.Function)
		for i, b := range u.Bindings {
			if b == v {
				t.add(fn.FreeVars[i], v)
			}
		}
	case *ssa.Return:
		f := u.Parent()
		for i, rv := range u.Results {
			if rv != v {
				continue
			}
			for _, s := range t.sites(f) {
				c, ok := s.(*ssa.Call)
				if !ok {
					continue
				}
				if len(u.Results) == 1 {
					t.add(c, v)
				} else {
					for _, e := range *c.Referrers() {
						if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
							t.add(ex, v)
						}
					}
				}
			}
		}
	case ssa.CallInstruction:
		cc := u.Common()
		for _, callee := range p.callees(u) {
			if callee.Blocks == nil || relPkg(callee) == "value/persist" {
				continue
			}
			ps := callee.Params
			if cc.IsInvoke() {
				if len(ps) == 0 {
					continue
				}
				if cc.Value == v {
					t.add(ps[0], v)
				}
				ps = ps[1:]
			}
			for i, a := range cc.Args {
				if a == v && i < len(ps) {
					t.add(ps[i], v)
				}
			}
		}
	}
}

// loads taints every load of the variable.
func (t *quietTaint) loads(a *ssa.Alloc, from ssa.Value) {
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && rootAlloc(u.X) == a {
					t.add(u, from)
				}
			}
		}
		for _, an := range f.AnonFuncs {
			scan(an)
		}
	}
	scan(a.Parent())
}

// elems taints the elements read from a slice or array that v was stored into, within the function.
func (t *quietTaint) elems(s ssa.Value, from ssa.Value) {
	p := t.p
	seen := map[ssa.Value]bool{}
	var walk func(s ssa.Value)
	walk = func(s ssa.Value) {
		if seen[s] || s.Referrers() == nil {
			return
		}
		seen[s] = true
		for _, u := range *s.Referrers() {
			switch u := u.(type) {
			case *ssa.Slice:
				walk(u)
			case *ssa.Phi:
				walk(u)
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					if l, ok := w.(*ssa.UnOp); ok && l.Op == token.MUL {
						t.add(l, from)
					}
				}
			case *ssa.Return:
				for i, rv := range u.Results {
					if rv != s {
						continue
					}
					for _, c := range p.callSites(u.Parent()) {
						if c, ok := c.(*ssa.Call); ok {
							if len(u.Results) == 1 {
								walk(c)
							} else {
								for _, e := range *c.Referrers() {
									if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
										walk(ex)
									}
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				cc := u.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						if c, ok := u.(*ssa.Call); ok {
							walk(c)
						}
					}
					continue
				}
				for _, callee := range p.callees(u) {
					if callee.Blocks == nil || relPkg(callee) == "value/persist" {
						continue
					}
					ps := callee.Params
					if cc.IsInvoke() {
						ps = ps[1:]
					}
					for i, a := range cc.Args {
						if a == s && i < len(ps) {
							t.slices(ps[i], from)
							walk(ps[i])
						}
					}
				}
				if isPersistCall(u) {
					for _, a := range cc.Args {
						if a == s {
							t.slices(s, from)
						}
					}
				}
			}
		}
	}
	walk(s)
	for x := range seen {
		if _, ok := t.may[x]; !ok {
			t.may[x] = from
		}
	}
}

func (t *quietTaint) slices(s, from ssa.Value) {
	if _, ok := t.may[s]; !ok {
		t.may[s] = from
	}
}

func (t *quietTaint) fieldLoads(f *types.Var, from ssa.Value) {
	for _, fn := range t.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fieldVar(fa.X.Type(), fa.Field) == f {
						t.add(x, from)
					}
				case *ssa.Field:
					if fieldVar(x.X.Type(), x.Field) == f {
						t.add(x, from)
					}
				}
			}
		}
	}
}

func (p *Prog) globalLoads(g *ssa.Global) []ssa.Value {
	var out []ssa.Value
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == g {
					out = append(out, u)
				}
			}
		}
	}
	return out
}

func isPersistCall(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && relPkg(f) == "value/persist"
}

func (t *quietTaint) path(v ssa.Value) string {
	s := ""
	for i := 0; i < 12; i++ {
		from := t.may[v]
		where := ""
		if v.Parent() != nil {
			where = fname(v.Parent())
		}
		if s != "" {
			s += " <- "
		}
		s += where
		if from == nil || from == v {
			break
		}
		v = from
	}
	return s
}

func checkC24(p *Prog, r *Report) {
	r.rule("plain-at-inspection", "wherever the kind of a value is inspected to compute with it, the value cannot be the quiet wrapper an assignment or print returns", 150)
	r.rule("plain-at-store", "what is kept in a variable, a vector, a matrix or a complex number is never the quiet wrapper", 8)
	r.rule("wrapper-content", "the wrapper made for an assignment holds the value assigned, and the one made by print holds its operand", 2)
	r.rule("unwrap", "Inner of every kind of value yields that value itself", 8)
	q := p.namedType("value", "QuietValue")
	if q == nil {
		r.missing("wrapper-content", "value.QuietValue")
		return
	}
	t := &quietTaint{p: p, q: q, may: map[ssa.Value]ssa.Value{}, fld: map[*types.Var]ssa.Value{}}
	t.run()
	vi := p.valueIface()
	cnt := map[string]int{}
	key := func(f *ssa.Function, what string) string {
		k := fname(f) + " " + what
		cnt[k]++
		return fmt.Sprintf("%s %d", k, cnt[k])
	}
	for _, f := range p.funcs {
		if !libPkgs[relPkg(f)] {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !g.live(in) {
					continue
				}
				switch x := in.(type) {
				case *ssa.TypeAssert:
					if !isValueIface(x.X.Type()) || types.IsInterface(x.AssertedType) || sameNamed(x.AssertedType, q) {
						continue
					}
					if !types.Implements(x.AssertedType, vi) {
						continue
					}
					k := key(f, "inspects "+x.X.Type().String())
					if _, bad := t.may[x.X]; bad && !t.notQuietAt(x.X, p.guards(b, nil)) {
						r.bad("plain-at-inspection", k, x.Pos(), "the value may still be wrapped as quiet (%s)", t.path(x.X))
					} else {
						r.ok("plain-at-inspection", k, x.Pos(), "plain")
					}
				case *ssa.Store:
					if !isValueIface(x.Val.Type()) {
						continue
					}
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n := namedOf(fa.X.Type())
					if n == nil || sameNamed(n, q) || !p.inModulePkgTypes(n.Obj().Pkg()) || n.Obj().Pkg().Name() != "value" {
						continue
					}
					k := key(f, "stores "+n.Obj().Name()+"."+fieldName(fa.X.Type(), fa.Field))
					if _, bad := t.may[x.Val]; bad && !t.notQuietAt(x.Val, p.guards(b, nil)) {
						r.bad("plain-at-store", k, x.Pos(), "a quiet value may be stored (%s)", t.path(x.Val))
					} else {
						r.ok("plain-at-store", k, x.Pos(), "plain")
					}
				case ssa.CallInstruction:
					if !isPersistCall(x) || relPkg(f) == "value/persist" {
						continue
					}
					for _, a := range x.Common().Args {
						_, isSl := a.Type().Underlying().(*types.Slice)
						if !isValueIface(a.Type()) && !isSl {
							continue
						}
						if isSl && !isValueIface(a.Type().Underlying().(*types.Slice).Elem()) {
							continue
						}
						k := key(f, "stores elements by "+x.Common().StaticCallee().Name())
						if _, bad := t.may[a]; bad && !t.notQuietAt(a, p.guards(b, nil)) {
							r.bad("plain-at-store", k, x.Pos(), "a quiet value may become an element (%s)", t.path(a))
						} else {
							r.ok("plain-at-store", k, x.Pos(), "plain")
						}
					}
				}
			}
		}
	}
	// The wrappers' content.
	varAssign := p.assigners()
	for _, f := range p.funcs {
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !sameNamed(mi.X.Type(), q) || !g.live(in) {
					continue
				}
				x := wrapped(mi.X)
				if x == nil {
					if f.Synthetic != "" {
						continue
					}
					r.bad("wrapper-content", key(f, "wraps"), in.Pos(), "cannot tell what the quiet value holds")
					continue
				}
				what := ""
				kx := p.key(x, nil)
				for _, pr := range f.Params {
					if pr == x {
						what = "the operand " + pr.Name()
					}
				}
				for _, b2 := range f.Blocks {
					for _, in2 := range b2.Instrs {
						c, ok := in2.(*ssa.Call)
						if !ok {
							continue
						}
						callee := c.Call.StaticCallee()
						if callee == nil || !varAssign[callee] {
							continue
						}
						// The value handed to the assignment is its last Value argument.
						for i := len(c.Call.Args) - 1; i >= 0; i-- {
							a := c.Call.Args[i]
							if !isValueIface(a.Type()) {
								continue
							}
							if a == x || p.key(a, nil) == kx && !isCallVal(a) {
								what = "the assigned value"
							} else {
								what = ""
								r.bad("wrapper-content", key(f, "wraps"), in.Pos(), "the assignment stores %s but the expression yields %s", shortVal(a), shortVal(x))
							}
							break
						}
					}
				}
				if what == "" {
					r.bad("wrapper-content", key(f, "wraps"), in.Pos(), "the quiet value holds %s, which is neither the assigned value nor the operand", shortVal(x))
				} else {
					r.ok("wrapper-content", key(f, "wraps"), in.Pos(), "holds %s", what)
				}
			}
		}
	}
	// Inner.
	for _, tn := range []string{"Int", "Char", "BigInt", "BigRat", "BigFloat", "Complex", "Vector", "Matrix"} {
		f := p.method("value", tn, "Inner")
		if f == nil {
			r.missing("unwrap", "method Inner of value."+tn)
			continue
		}
		bad := ""
		for _, rt := range p.returns(f) {
			mi, ok := rt.Results[0].(*ssa.MakeInterface)
			if !ok || p.key(mi.X, nil) != p.key(f.Params[0], nil) && !isRecvCopy(mi.X, f) {
				bad = shortVal(rt.Results[0])
			}
		}
		if bad != "" {
			r.bad("unwrap", fname(f), f.Pos(), "returns %s, not the value itself", bad)
		} else {
			r.ok("unwrap", fname(f), f.Pos(), "returns its receiver")
		}
	}
	for i := 0; i < q.NumMethods(); i++ {
		if q.Method(i).Name() == "Inner" {
			f := p.method("value", "QuietValue", "Inner")
			for _, rt := range p.returns(f) {
				c, ok := rt.Results[0].(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Inner" {
					r.bad("unwrap", fname(f), f.Pos(), "does not yield the inner value")
				}
			}
		}
	}
}

func isCallVal(v ssa.Value) bool { _, ok := v.(*ssa.Call); return ok }

func isRecvCopy(v ssa.Value, f *ssa.Function) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	w, ok := loadedValue(u)
	return ok && w == f.Params[0]
}

// wrapped finds the value put into the first field of a struct literal.
func wrapped(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var out ssa.Value
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, w := range *fa.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				if out != nil {
					return nil
				}
				out = st.Val
			}
		}
	}
	return out
}

// assigners are the functions that store one of their Value parameters in a variable.
func (p *Prog) assigners() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	if f := p.method("value", "Var", "Assign"); f != nil {
		out[f] = true
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.funcs {
			if out[f] || f.Signature.Results().Len() != 0 {
				continue
			}
			hasVal := false
			for _, pr := range f.Params {
				if isValueIface(pr.Type()) {
					hasVal = true
				}
			}
			if !hasVal {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, callee := range p.callees(c) {
						if out[callee] && !out[f] {
							out[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return out
}
