package main

// C01: evaluating an expression never changes a value that already exists.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

type mutation struct {
	fn     *ssa.Function
	in     ssa.Instruction
	target ssa.Value
	what   string
	kind   string // big, slice, append, field
}

// mutableElem: slices whose elements can be part of an ivy value.
func mutableElem(p *Prog, t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		if pt, ok2 := t.Underlying().(*types.Pointer); ok2 {
			if ar, ok3 := pt.Elem().Underlying().(*types.Array); ok3 {
				return valueElem(p, ar.Elem())
			}
		}
		return false
	}
	return valueElem(p, sl.Elem())
}

func valueElem(p *Prog, e types.Type) bool {
	if b, ok := e.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
		return true
	}
	if isBigType(e) {
		return true
	}
	if vi := p.valueIface(); vi != nil {
		if types.Implements(e, vi) {
			return true
		}
	}
	return false
}

func (p *Prog) mutations(pkgs map[string]bool) []mutation {
	var out []mutation
	for _, f := range p.funcs {
		if !pkgs[relPkg(f)] {
			continue
		}
		if f.Synthetic != "" && f.Parent() == nil && f.Name() != "init" && f.Origin() == nil {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !g.live(in) {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.IndexAddr:
						if mutableElem(p, a.X.Type()) {
							out = append(out, mutation{f, in, a.X, "element store", "slice"})
						}
					case *ssa.FieldAddr:
						t := a.X.Type().Underlying().(*types.Pointer).Elem()
						if n, ok := t.(*types.Named); ok && p.isValueKind(n) {
							out = append(out, mutation{f, in, a.X, "store to field " + fieldName(a.X.Type(), a.Field) + " of a " + n.Obj().Name(), "field"})
						}
					default:
						if pt, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && rootAlloc(x.Addr) == nil {
							if n, ok := pt.Elem().(*types.Named); ok && (p.isValueKind(n) || isBigType(n)) {
								if _, isg := x.Addr.(*ssa.Global); !isg && !types.IsInterface(n) {
									out = append(out, mutation{f, in, x.Addr, "overwriting a " + n.Obj().Name(), "field"})
								}
							}
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if mutableElem(p, cc.Args[0].Type()) && !capLimited(cc.Args[0]) {
								out = append(out, mutation{f, in, cc.Args[0], "append", "append"})
							}
						case "copy", "clear":
							if mutableElem(p, cc.Args[0].Type()) {
								out = append(out, mutation{f, in, cc.Args[0], bi.Name(), "slice"})
							}
						}
						continue
					}
					callee := cc.StaticCallee()
					if callee == nil {
						if bigFuncShape(cc) {
							out = append(out, mutation{f, in, cc.Args[0], "big-number operation", "big"})
						}
						continue
					}
					if isBigMethod(callee) {
						for _, i := range bigWrites(callee) {
							if i < len(cc.Args) {
								out = append(out, mutation{f, in, cc.Args[i], "big." + relRecv(callee) + "." + callee.Name(), "big"})
							}
						}
						continue
					}
					switch relTo(callee) {
					case "sort":
						switch callee.Name() {
						case "Sort", "Stable", "Slice", "SliceStable", "Ints":
							t := cc.Args[0]
							if mi, ok := t.(*ssa.MakeInterface); ok {
								t = mi.X
							}
							if mutableElem(p, t.Type()) {
								out = append(out, mutation{f, in, t, "sort." + callee.Name(), "slice"})
							}
						}
					case "slices":
						switch originName(callee) {
						case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Insert", "Delete", "Replace", "Compact", "CompactFunc", "DeleteFunc", "Grow":
							if mutableElem(p, cc.Args[0].Type()) {
								out = append(out, mutation{f, in, cc.Args[0], "slices." + originName(callee), "slice"})
							}
						}
					}
				}
			}
		}
	}
	return out
}

func checkC01(p *Prog, r *Report) {
	persistRules(p, r, "storage-", "sharing")
	r.rule("fresh-target", "every in-place write to memory a value can hold (big numbers, shapes, element slices, fields of matrices and vectors) targets memory allocated by the computation that writes it, never memory reached from an operand, a variable, a constant or another value", 250)
	r.rule("not-published", "memory handed out as (part of) a value is not written afterwards", 10)
	if p.valueIface() == nil {
		r.missing("fresh-target", "value.Value")
		return
	}
	muts := p.mutations(map[string]bool{"value": true, "exec": true, "parse": true, "run": true})
	for _, m := range muts {
		if relPkg(m.fn) != "value" && m.kind != "big" && m.kind != "field" {
			// Outside package value only values themselves matter; int and op slices there are the parser's own.
			if !holdsValues(p, m.target.Type()) {
				continue
			}
		}
		fr := newFreshener(p)
		fr.trace(m.target, nil)
		c := fmt.Sprintf("%s: %s", fname(m.fn), m.what)
		if len(fr.bad) == 0 {
			r.ok("fresh-target", c, m.in.Pos(), "target allocated at %d site(s)", len(fr.allocs))
		} else {
			b := fr.bad[0]
			via := ""
			if len(b.path) > 0 {
				via = " via " + strings.Join(b.path, " <- ")
			}
			r.bad("fresh-target", c, m.in.Pos(), "writes memory that comes from %s (%s)%s", b.why, p.pos(b.pos), via)
		}
	}
	p.checkPublished(r, muts)
}

// retains reports whether fn stores its i'th parameter into an object that outlives the call.
func (p *Prog) retains(fn *ssa.Function, i int, depth int) bool {
	if fn.Blocks == nil || !p.inModule(fn) || depth > 5 || i >= len(fn.Params) {
		return false
	}
	al := p.aliases(fn.Params[i], fn)
	for v := range al {
		for _, u := range *v.Referrers() {
			if p.publishes(u, v, al, depth) {
				return true
			}
		}
	}
	return false
}

// aliases: the values of fn that denote the same memory as s (forward flow).
func (p *Prog) aliases(s ssa.Value, fn *ssa.Function) map[ssa.Value]bool {
	al := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if v == nil || al[v] || v.Referrers() == nil {
			return
		}
		al[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Phi:
				add(u)
			case *ssa.Slice:
				add(u)
			case *ssa.ChangeType:
				add(u)
			case *ssa.Store:
				if u.Val == v {
					if a := rootAlloc(u.Addr); a != nil {
						addLoads(a, add)
					}
				}
			case *ssa.Call:
				cc := u.Common()
				if bigFuncShape(cc) && cc.Args[0] == v {
					add(u)
				} else if f := cc.StaticCallee(); f != nil && isBigMethod(f) && len(cc.Args) > 0 && cc.Args[0] == v && isBigType(u.Type()) {
					add(u)
				}
			}
		}
	}
	add(s)
	return al
}

func addLoads(a *ssa.Alloc, add func(ssa.Value)) {
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && rootAlloc(u.X) == a {
					add(u)
				}
			}
		}
		for _, an := range f.AnonFuncs {
			scan(an)
		}
	}
	scan(a.Parent())
}

// publishes: instruction u makes the memory denoted by v part of a value or of a longer-lived object.
func (p *Prog) publishes(u ssa.Instruction, v ssa.Value, al map[ssa.Value]bool, depth int) bool {
	switch u := u.(type) {
	case *ssa.Store:
		if u.Val != v || rootAlloc(u.Addr) != nil {
			return false
		}
		if fa, ok := u.Addr.(*ssa.FieldAddr); ok {
			if a := rootAlloc(fa.X); a != nil {
				// a local struct: published when the struct is
				return p.structPublished(a, depth)
			}
			// receiver's own scratch fields (a struct that is not a value) are not publication
			t := fa.X.Type().Underlying().(*types.Pointer).Elem()
			if n, ok := t.(*types.Named); ok && !p.isValueKind(n) {
				return false
			}
			return true
		}
		if ia, ok := u.Addr.(*ssa.IndexAddr); ok {
			return !isBigType(v.Type()) || rootAlloc(ia.X) == nil
		}
		if _, ok := u.Addr.(*ssa.Global); ok {
			return false // initialisation of package constants
		}
		return false
	case *ssa.MakeInterface:
		return isValueIface(u.Type())
	case *ssa.Call:
		f := u.Call.StaticCallee()
		if f == nil || !p.inModule(f) {
			return false
		}
		for i, a := range u.Call.Args {
			if a == v && p.retains(f, i, depth+1) {
				return true
			}
		}
	}
	return false
}

// structPublished: a local struct value is converted to an interface value or stored away.
func (p *Prog) structPublished(a *ssa.Alloc, depth int) bool {
	t := a.Type().(*types.Pointer).Elem()
	n, ok := t.(*types.Named)
	if !ok || !p.isValueKind(n) {
		return false
	}
	pub := false
	check := func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			if mi, ok := u.(*ssa.MakeInterface); ok && isValueIface(mi.Type()) && (depth > 0 || retainedIface(mi)) {
				pub = true
			}
			if _, ok := u.(*ssa.Return); ok && depth > 0 {
				pub = true
			}
		}
	}
	check(a)
	addLoads(a, check)
	return pub
}

// retainedIface: the interface value is kept by something other than its return or an error message.
func retainedIface(mi *ssa.MakeInterface) bool {
	for _, u := range *mi.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			return true
		case *ssa.MapUpdate, *ssa.Send:
			return true
		case *ssa.Call:
			if f := u.Call.StaticCallee(); f != nil {
				switch f.Name() {
				case "Errorf":
					continue
				}
			}
			return true
		case *ssa.Phi:
			return true
		}
	}
	return false
}

func (p *Prog) checkPublished(r *Report, muts []mutation) {
	type key struct {
		s ssa.Value
	}
	done := map[key]bool{}
	for _, m := range muts {
		if relPkg(m.fn) != "value" {
			continue
		}
		fr := newFreshener(p)
		fr.trace(m.target, nil)
		for s := range fr.allocs {
			in, ok := s.(ssa.Instruction)
			if !ok || in.Parent() != m.fn || done[key{s}] {
				continue
			}
			if a, ok := s.(*ssa.Alloc); ok && !a.Heap {
				continue
			}
			done[key{s}] = true
			al := p.aliases(s, m.fn)
			g := p.cfg(m.fn)
			for v := range al {
				for _, u := range *v.Referrers() {
					if u.Parent() != m.fn || !p.publishes(u, v, al, 0) {
						continue
					}
					// Is any write to s reachable from u without re-creating s?
					var bad *mutation
					for i := range muts {
						w := &muts[i]
						if w.fn != m.fn || !al[w.target] {
							continue
						}
						if g.reachAvoiding(u, w.in, in) {
							bad = w
							break
						}
					}
					c := fmt.Sprintf("%s: %s", fname(m.fn), shortVal(s))
					if bad != nil {
						r.bad("not-published", c, bad.in.Pos(), "%s writes memory that was made part of a value at %s", bad.what, p.pos(u.Pos()))
					} else {
						r.ok("not-published", c, u.Pos(), "no write follows")
					}
				}
			}
		}
	}
}

func shortVal(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name()
		}
		return "call"
	case *ssa.MakeSlice:
		return "make"
	case *ssa.Alloc:
		return "new " + types.TypeString(x.Type().(*types.Pointer).Elem(), func(*types.Package) string { return "" })
	}
	return fmt.Sprintf("%T", v)
}

// reachAvoiding: to can execute after from without executing avoid in between.
func (g *cfg) reachAvoiding(from, to, avoid ssa.Instruction) bool {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs) && i <= g.cut[b.Index]; i++ {
			if b.Instrs[i] == to {
				return true
			}
			if b.Instrs[i] == avoid {
				return false
			}
		}
		if g.cut[b.Index] < len(b.Instrs) {
			return false
		}
		for _, s := range g.succs[b.Index] {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block(), instrIndex(from)+1)
}

func holdsValues(p *Prog, t types.Type) bool {
	vi := p.valueIface()
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return types.Implements(sl.Elem(), vi)
	}
	return true
}
