package main

// prov is a demand-driven backward provenance analysis: from a value to everything it can
// have been computed from by moves alone (phis, parameters, returns, locals, fields).

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type prov struct {
	p *Prog
	// visit is asked first; true means the value is accounted for and is not expanded.
	visit func(v ssa.Value, ctx *ictx) bool
	// leaf receives values that moves alone do not explain.
	leaf func(v ssa.Value, ctx *ictx, why string)
	// through reports calls to expand into their callees' results; nil means all with bodies.
	through func(c *ssa.Call, callee *ssa.Function) bool
	seen    map[provKey]bool
	n       int
}

type provKey struct {
	v   ssa.Value
	ctx *ictx
}

func newProv(p *Prog) *prov { return &prov{p: p, seen: map[provKey]bool{}} }

func (t *prov) trace(v ssa.Value, ctx *ictx) {
	k := provKey{v, ctx}
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	t.n++
	if t.n > 200000 {
		panic("provenance analysis does not converge")
	}
	if t.visit != nil && t.visit(v, ctx) {
		return
	}
	switch x := v.(type) {
	case *ssa.Phi:
		g := t.p.cfg(x.Parent())
		for i, e := range x.Edges {
			if i < len(x.Block().Preds) && !g.edgeLive(x.Block().Preds[i], x.Block()) {
				continue
			}
			t.trace(e, ctx)
		}
	case *ssa.MakeInterface:
		t.trace(x.X, ctx)
	case *ssa.ChangeInterface:
		t.trace(x.X, ctx)
	case *ssa.ChangeType:
		t.trace(x.X, ctx)
	case *ssa.Convert:
		t.trace(x.X, ctx)
	case *ssa.TypeAssert:
		t.trace(x.X, ctx)
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				t.trace(y.X, ctx)
				return
			}
		case *ssa.Call:
			t.call(x, y, x.Index, ctx)
			return
		}
		t.leaf(v, ctx, "component")
	case *ssa.Call:
		t.call(x, x, 0, ctx)
	case *ssa.Parameter:
		if a, c, ok := ctx.argOf(x); ok {
			t.trace(a, c)
			return
		}
		if !t.p.eachArg(x, func(a ssa.Value) { t.trace(a, nil) }) {
			t.leaf(v, ctx, "parameter")
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			t.trace(b, ctx)
			return
		}
		t.leaf(v, ctx, "captured variable")
	case *ssa.UnOp:
		if x.Op != token.MUL {
			t.leaf(v, ctx, "operation")
			return
		}
		if a := rootAlloc(x.X); a != nil {
			st := storesTo(a)
			if len(st) == 0 {
				t.leaf(v, ctx, "zero value")
			}
			for _, s := range st {
				t.trace(s.Val, ctx)
			}
			return
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if f := fieldVar(fa.X.Type(), fa.Field); f != nil && t.p.inModulePkgTypes(f.Pkg()) {
				sts := t.p.fieldStores(f)
				if len(sts) == 0 {
					t.leaf(v, ctx, "field never set")
				}
				for _, s := range sts {
					t.trace(s, nil)
				}
				return
			}
		}
		if g, ok := x.X.(*ssa.Global); ok && t.p.inModulePkg(g.Pkg) {
			sts := t.p.storesToGlobal(g)
			if len(sts) == 0 {
				t.leaf(v, ctx, "global")
			}
			for _, s := range sts {
				t.trace(s.Val, nil)
			}
			return
		}
		t.leaf(v, ctx, "load")
	case *ssa.Field:
		if f := fieldVar(x.X.Type(), x.Field); f != nil && t.p.inModulePkgTypes(f.Pkg()) {
			sts := t.p.fieldStores(f)
			if len(sts) == 0 {
				t.leaf(v, ctx, "field never set")
			}
			for _, s := range sts {
				t.trace(s, nil)
			}
			return
		}
		t.leaf(v, ctx, "field")
	default:
		t.leaf(v, ctx, "")
	}
}

func (t *prov) call(v ssa.Value, c *ssa.Call, idx int, ctx *ictx) {
	cs := t.p.callees(c)
	if len(cs) == 0 {
		t.leaf(v, ctx, "call")
		return
	}
	for _, callee := range cs {
		if callee.Blocks == nil || t.through != nil && !t.through(c, callee) {
			t.leaf(v, ctx, "call of "+fname(callee))
			continue
		}
		c2 := ctx.enter(c, callee)
		if k, inner := ctx.count(callee); k >= 2 {
			c2 = inner
		}
		if c2.depth > 30 {
			t.leaf(v, ctx, "deep call")
			continue
		}
		for _, rt := range t.p.returns(callee) {
			if idx < len(rt.Results) {
				t.trace(rt.Results[idx], c2)
			}
		}
	}
}

// returns lists the live return instructions of f.
func (p *Prog) returns(f *ssa.Function) []*ssa.Return {
	g := p.cfg(f)
	var out []*ssa.Return
	for i, b := range f.Blocks {
		if !g.reach[i] || g.cut[i] < len(b.Instrs) || len(b.Instrs) == 0 {
			continue
		}
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, rt)
		}
	}
	return out
}

// edgeLive reports whether control can pass from block a to block b.
func (g *cfg) edgeLive(a, b *ssa.BasicBlock) bool {
	for _, s := range g.succs[a.Index] {
		if s == b {
			return g.reach[a.Index]
		}
	}
	return false
}

// eachArg applies f to the argument bound to prm at every call site. False if callers are unknown.
func (p *Prog) eachArg(prm *ssa.Parameter, f func(a ssa.Value)) bool {
	fn := prm.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == prm {
			idx = i
		}
	}
	sites := p.callSites(fn)
	if len(sites) == 0 {
		return false
	}
	for _, c := range sites {
		cc := c.Common()
		if cc.IsInvoke() {
			if idx == 0 {
				f(cc.Value)
			} else if idx-1 < len(cc.Args) {
				f(cc.Args[idx-1])
			}
			continue
		}
		if idx < len(cc.Args) {
			f(cc.Args[idx])
		} else {
			return false
		}
	}
	return true
}

func (p *Prog) inModulePkgTypes(pk *types.Package) bool {
	return pk != nil && p.pkgPaths()[pk.Path()]
}

var pkgPathMemo map[string]bool

func (p *Prog) pkgPaths() map[string]bool {
	if pkgPathMemo == nil {
		pkgPathMemo = map[string]bool{}
		for _, f := range p.funcs {
			if pk := funcPkg(f); pk != nil {
				pkgPathMemo[pk.Path()] = true
			}
		}
	}
	return pkgPathMemo
}

var fieldStoreMemo map[*types.Var][]ssa.Value

// fieldStores lists every value stored into the field anywhere in the module.
func (p *Prog) fieldStores(f *types.Var) []ssa.Value {
	if fieldStoreMemo == nil {
		fieldStoreMemo = map[*types.Var][]ssa.Value{}
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if v := fieldVar(fa.X.Type(), fa.Field); v != nil {
							fieldStoreMemo[v] = append(fieldStoreMemo[v], st.Val)
						}
					}
				}
			}
		}
	}
	return fieldStoreMemo[f]
}
