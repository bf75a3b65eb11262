package main

// Extraction of the operator tables by abstract interpretation of package initialisation.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opEntry struct {
	name        string
	binary      bool
	elementwise bool
	which       *ssa.Function // promotion rule, binary only
	whichBind   []av
	fn          map[string]*ssa.Function // by kind name: int char bigInt bigRat bigFloat complex vector matrix
	bind        map[string][]av
}

var kindNames = []string{"int", "char", "bigInt", "bigRat", "bigFloat", "complex", "vector", "matrix"}

type opTables struct {
	unary, binary map[string]*opEntry
	err           string
	kindOf        map[int64]string
}

func (t *opTables) all() []*opEntry {
	var out []*opEntry
	for _, m := range []map[string]*opEntry{t.unary, t.binary} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, m[k])
		}
	}
	return out
}

var opTabMemo *opTables

// kindNumbers maps the numeric value of each valueType constant to a kind name.
func (p *Prog) kindNumbers() map[int64]string {
	out := map[int64]string{}
	sc := p.byRel["value"].Types.Scope()
	for _, k := range kindNames {
		if c, ok := sc.Lookup(k + "Type").(*types.Const); ok {
			n, _ := constant.Int64Val(c.Val())
			out[n] = k
		}
	}
	return out
}

func (p *Prog) opTables() *opTables {
	if opTabMemo != nil {
		return opTabMemo
	}
	t := &opTables{unary: map[string]*opEntry{}, binary: map[string]*opEntry{}}
	opTabMemo = t
	t.kindOf = p.kindNumbers()
	if len(t.kindOf) != len(kindNames) {
		t.err = "cannot resolve the value kinds"
		return t
	}
	sp := p.spkg["value"]
	maps := map[*ssa.Global]bool{} // true: binary
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok {
			continue
		}
		if n, ok := mt.Elem().(*types.Named); ok {
			switch n.Obj().Name() {
			case "BinaryOp":
				maps[g] = true
			case "UnaryOp":
				maps[g] = false
			}
		}
	}
	if len(maps) != 2 {
		t.err = fmt.Sprintf("expected one table of unary and one of binary operators, found %d", len(maps))
		return t
	}
	in := &interp{p: p, max: 5000000}
	in.globals = map[*ssa.Global]*obj{}
	for g := range maps {
		o := newObj(g.Type().(*types.Pointer).Elem())
		o.val = kmap{&amap{m: map[string]av{}, keys: map[string]av{}}}
		in.globals[g] = o
	}
	var inits []*ssa.Function
	for _, f := range p.funcs {
		if relPkg(f) == "value" && f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
			inits = append(inits, f)
		}
	}
	for _, f := range inits {
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch e := e.(type) {
					case absAbort:
						if touches(f, maps) {
							t.err = "cannot evaluate " + fname(f) + ": " + e.why
						}
					case absPanic:
						if touches(f, maps) {
							t.err = fmt.Sprintf("%s would panic: %v", fname(f), e.v)
						}
					default:
						panic(e)
					}
				}
			}()
			in.call(f, nil, nil)
		}()
	}
	for g, isBin := range maps {
		m := in.globals[g].val.(kmap).m
		if m.unk {
			t.err = "operator table has a non-constant name"
		}
		for k, v := range m.m {
			name := constant.StringVal(m.keys[k].(kconst).v)
			e := &opEntry{name: name, binary: isBin, fn: map[string]*ssa.Function{}, bind: map[string][]av{}}
			ki, ok := v.(kiface)
			if !ok {
				t.err = "operator " + name + " is not a constant entry"
				continue
			}
			pt, ok := ki.v.(kptr)
			if !ok || pt.o == nil {
				t.err = "operator " + name + " is not a table entry"
				continue
			}
			st := pt.o.elem.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				kid := pt.o.kids[i]
				switch ft := st.Field(i).Type().Underlying().(type) {
				case *types.Basic:
					c, ok := kid.val.(kconst)
					if !ok {
						t.err = "operator " + name + ": field " + st.Field(i).Name() + " not constant"
						continue
					}
					if ft.Kind() == types.Bool {
						e.elementwise = constant.BoolVal(c.v)
					} else if ft.Kind() == types.String {
						if s := constant.StringVal(c.v); s != name {
							t.err = fmt.Sprintf("operator %q registered under the name %q", s, name)
						}
					}
				case *types.Signature:
					if f, ok := kid.val.(kfunc); ok {
						e.which = f.fn
						e.whichBind = f.bind
					}
				case *types.Array:
					for j, el := range kid.kids {
						if f, ok := el.val.(kfunc); ok {
							e.fn[t.kindOf[int64(j)]] = f.fn
							e.bind[t.kindOf[int64(j)]] = f.bind
						} else if c, ok := el.val.(kconst); !ok || c.v != nil {
							t.err = fmt.Sprintf("operator %s: entry %d not resolved", name, j)
						}
					}
				}
			}
			if isBin {
				t.binary[name] = e
			} else {
				t.unary[name] = e
			}
		}
	}
	return t
}

// touches reports whether f, or a function it statically calls, mentions one of the globals.
func touches(f *ssa.Function, gs map[*ssa.Global]bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rs []*ssa.Value
				for _, r := range in.Operands(rs) {
					if g, ok := (*r).(*ssa.Global); ok {
						if _, ok := gs[g]; ok {
							return true
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && visit(c.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return visit(f)
}
