package main

// C02: a vector's storage is shared between versions, and no version changes once it is made.
// The storage is a tree of nodes plus a tail, edited by copy on write: an editor may write the
// nodes whose owner's mark is its own, nodes it has just made, and the tail when its flag says
// that the tail is its own. The rules below decide, for every write in package persist, that
// what is written is owned; that making a version gives up ownership; and that concurrent Sets
// neither race nor lose one another's changes.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = checkC02 }

type persistence struct {
	p     *Prog
	r     *Report
	pre   string // prefix of rule names
	funcs []*ssa.Function
	conc  map[*ssa.Function]bool // may run concurrently on one editor
	runs  map[string]estate
	seen  map[string]bool
}

func checkC02(p *Prog, r *Report) { persistRules(p, r, "", "") }

// persistRules applies the rules to the storage of vectors; only says which kinds matter
// ("" all, "sharing" or "concurrency").
func persistRules(p *Prog, r0 *Report, pre, only string) {
	r := newReport(p, r0.ID)
	defer func() {
		for _, o := range r.Obls {
			conc := strings.HasSuffix(o.Rule, "concurrent-set")
			marks := strings.HasSuffix(o.Rule, "owner-marks")
			if only == "sharing" && (conc || strings.HasSuffix(o.Rule, "capacity")) || only == "concurrency" && !conc && !marks {
				continue
			}
			r0.Obls = append(r0.Obls, o)
			if r0.rules[o.Rule] == "" {
				r0.rule(o.Rule, r.rules[o.Rule], 0)
			}
		}
	}()
	z := &persistence{p: p, r: r, pre: pre, conc: map[*ssa.Function]bool{}, runs: map[string]estate{}, seen: map[string]bool{}}
	r.rule(pre+"owned-writes", "whatever is written in the tree of a vector is owned by the editor that writes it", 1)
	r.rule(pre+"owned-tail", "the tail of a vector is written only by an editor that has made it its own", 1)
	r.rule(pre+"disowned", "making a version gives up the ownership of all that it shares", 1)
	r.rule(pre+"owner-marks", "marks of ownership are unique to an editor", 1)
	r.rule(pre+"concurrent-set", "concurrent changes to different elements do not lose one another", 1)
	r.rule(pre+"capacity", "the tree of a vector is tall enough for its length", 0)
	for _, f := range p.funcs {
		if relPkg(f) != "value/persist" || f.Blocks == nil {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.TypeParams().Len() > 0 && len(root.TypeArgs()) == 0 {
			continue // the generic form; its instances are analysed
		}
		z.funcs = append(z.funcs, f)
	}
	sort.Slice(z.funcs, func(i, j int) bool { return z.funcs[i].Pos() < z.funcs[j].Pos() })
	if len(z.funcs) == 0 {
		return
	}
	z.findConcurrent()
	z.nodeWrites()
	z.flows()
	z.marks()
	z.concurrentStores()
	z.capacity()
}

// ---------------------------------------------------------------- roles of types and fields

func persistNamed(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/value/persist" {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func isSliceT(t types.Type) bool { n := persistNamed(t); return n != nil && n.Obj().Name() == "Slice" }
func isEditorT(t types.Type) bool {
	n := persistNamed(t)
	return n != nil && n.Obj().Name() == "TransientSlice"
}
func isNodeT(t types.Type) bool {
	n := persistNamed(t)
	if n == nil || isSliceT(t) || isEditorT(t) {
		return false
	}
	// nodes are marked with the number of their owner
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isUint64(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

func atomicName(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" {
		return n.Obj().Name()
	}
	return ""
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// field of an editor or slice or node addressed by v.
func fieldAddrOf(v ssa.Value) (*ssa.FieldAddr, types.Type) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, nil
	}
	return fa, fa.Type().Underlying().(*types.Pointer).Elem()
}

// atomicCall: a method of sync/atomic called on the address recv.
func atomicCall(in ssa.Instruction) (c ssa.CallInstruction, kind, meth string, recv ssa.Value) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, "", "", nil
	}
	f := c.Common().StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(c.Common().Args) == 0 {
		return nil, "", "", nil
	}
	kind = atomicName(f.Signature.Recv().Type())
	if kind == "" {
		return nil, "", "", nil
	}
	return c, kind, f.Name(), c.Common().Args[0]
}

func (z *persistence) each(f *ssa.Function, do func(in ssa.Instruction)) {
	g := z.p.cfg(f)
	for _, b := range f.Blocks {
		if !g.reach[b.Index] {
			continue
		}
		for i, in := range b.Instrs {
			if i > g.cut[b.Index] {
				break
			}
			do(in)
		}
	}
}

func (z *persistence) sites(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, c := range z.p.callSites(f) {
		for _, g := range z.funcs {
			if g == c.Parent() {
				out = append(out, c)
			}
		}
	}
	return out
}

// exported: may be called from outside the package.
func (z *persistence) exported(f *ssa.Function) bool {
	if f.Parent() != nil {
		return false
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	return o.Object() != nil && o.Object().Exported()
}

func (z *persistence) findConcurrent() {
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if z.conc[f] {
			return
		}
		z.conc[f] = true
		z.each(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, g := range z.p.callees(c) {
					if relPkg(g) == "value/persist" && g.Blocks != nil {
						add(g)
					}
				}
			}
		})
	}
	for _, f := range z.funcs {
		if f.Parent() == nil && originName(f) == "Set" && len(f.Params) > 0 && isEditorT(f.Params[0].Type()) {
			add(f)
		}
	}
}

// ---------------------------------------------------------------- writes to nodes

// base strips field and element selections from an address, down to the pointer (or slice) it goes through.
func addrBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if isPtr(x.X.Type()) && persistNamed(x.X.Type()) != nil {
				// stop at the pointer to a node, editor or slice
				if inner, ok := x.X.(*ssa.FieldAddr); ok {
					v = inner
					continue
				}
				if inner, ok := x.X.(*ssa.IndexAddr); ok {
					v = inner
					continue
				}
				return x.X
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

func (z *persistence) nodeWrites() {
	for _, f := range z.funcs {
		n := 0
		report := func(in ssa.Instruction, addr ssa.Value, what string) {
			why, applies := z.writable(addr, in.Block(), nil, map[string]bool{})
			if !applies {
				return
			}
			n++
			z.r.add(z.pre+"owned-writes", fmt.Sprintf("%s %s#%d", fname(f), what, n), in.Pos(), why == "", "%s", orStr(why, "the editor's own"))
		}
		z.each(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); ok {
					return
				}
				report(in, x.Addr, "stores")
			case ssa.CallInstruction:
				if c, kind, m, recv := atomicCall(in); c != nil {
					if kind == "Value" && m != "Load" {
						report(in, recv, "stores a pointer")
					}
					return
				}
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy", "clear", "append":
						report(in, x.Common().Args[0], b.Name())
					}
					return
				}
				if g := x.Common().StaticCallee(); g != nil && relPkg(g) != "value/persist" {
					if m := writesSliceArg(g); m >= 0 && m < len(x.Common().Args) {
						report(in, x.Common().Args[m], "passes to "+g.Name())
					}
				}
			}
		})
	}
}

// writesSliceArg: functions of the library that write to the slice they are given.
func writesSliceArg(g *ssa.Function) int {
	pk := funcPkg(g)
	if pk == nil || pk.Path() != "slices" && pk.Path() != "sort" {
		return -1
	}
	o := g.Name()
	if i := strings.IndexByte(o, '['); i >= 0 {
		o = o[:i]
	}
	switch o {
	case "Reverse", "Sort", "SortFunc", "SortStableFunc", "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc", "Slice", "SliceStable":
		return 0
	case "Grow", "AppendSeq":
		return 0
	}
	return -1
}

// writable: memory at addr in a tree may be written at block b. applies is false if the memory
// is not that of a vector (a local variable, the editor itself, or a tail, which has rules of its own).
func (z *persistence) writable(addr ssa.Value, b *ssa.BasicBlock, ctx *ictx, seen map[string]bool) (why string, applies bool) {
	v := addrBase(addr)
	if s, ok := v.(*ssa.Slice); ok {
		return z.writable(s.X, b, ctx, seen)
	}
	t := v.Type()
	switch {
	case isNodeT(t) && isPtr(t):
		return z.owned(v, z.p.guards(b, ctx), map[ssa.Value]bool{}), true
	case isEditorT(t) && isPtr(t):
		return "", true
	case isSliceT(t) && isPtr(t):
		return z.ownSlice(v, map[ssa.Value]bool{}), true
	case atomicName(t) == "Value" && isPtr(t):
		return z.ownCell(v, map[ssa.Value]bool{}), true
	}
	return "", false
}

// ownSlice: a Slice that is not yet shared: just made here, or the one inside an editor.
func (z *persistence) ownSlice(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return ""
	case *ssa.FieldAddr:
		if isEditorT(x.X.Type()) {
			return ""
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := z.ownSlice(e, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && relPkg(g) == "value/persist" {
			for _, ret := range z.p.returns(g) {
				if w := z.ownSlice(ret.Results[0], seen); w != "" {
					return w
				}
			}
			return ""
		}
	case *ssa.Parameter:
		f := x.Parent()
		if z.exported(f) {
			return "a version is changed after it was made"
		}
		ok := true
		w := ""
		for _, c := range z.sites(f) {
			for i, q := range f.Params {
				if q == x && i < len(c.Common().Args) {
					ok = true
					if w1 := z.ownSlice(c.Common().Args[i], seen); w1 != "" {
						w = w1
					}
				}
			}
		}
		if ok {
			return w
		}
	case *ssa.FreeVar:
		if bnd := freeVarBinding(x); bnd != nil {
			return z.ownSlice(bnd, seen)
		}
	}
	return "a version is changed after it was made"
}

// ownCell: an atomic pointer that may be changed: the root of an editor's tree or part of a node it owns.
func (z *persistence) ownCell(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		w, applies := z.writable(x, x.(ssa.Instruction).Block(), nil, nil)
		if !applies {
			return ""
		}
		return w
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !z.p.cfg(x.Parent()).edgeLive(x.Block().Preds[i], x.Block()) {
				continue
			}
			if w := z.ownCell(e, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Parameter:
		f := x.Parent()
		n, w := 0, ""
		for _, c := range z.sites(f) {
			for i, q := range f.Params {
				if q == x && i < len(c.Common().Args) {
					n++
					if w1 := z.ownCell(c.Common().Args[i], seen); w1 != "" {
						w = w1
					}
				}
			}
		}
		return w
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && relPkg(g) == "value/persist" {
			for _, ret := range z.p.returns(g) {
				if w := z.ownCell(ret.Results[0], seen); w != "" {
					return w
				}
			}
			return ""
		}
	case *ssa.Alloc:
		return ""
	case *ssa.Const:
		return ""
	}
	return ""
}

// owned: the node v belongs to the editor, given the facts that hold where it is used.
func (z *persistence) owned(v ssa.Value, facts []fact, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	if z.marked(v, facts) {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if !x.Heap {
			if val, ok := loadedOnly(x); ok {
				return z.owned(val, facts, seen)
			}
		}
		return ""
	case *ssa.Phi:
		seen[v] = true
		g := z.p.cfg(x.Parent())
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			if !g.edgeLive(pr, x.Block()) {
				continue
			}
			if w := z.owned(e, append(z.p.edgeFacts(pr, x.Block(), nil), facts...), seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.ChangeType:
		return z.owned(x.X, facts, seen)
	case *ssa.Const:
		return ""
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				w := ""
				for _, st := range storesTo(a) {
					if w1 := z.owned(st.Val, z.p.guards(st.Block(), nil), seen); w1 != "" {
						w = w1
					}
				}
				return w
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && relPkg(g) == "value/persist" && g.Blocks != nil {
			return z.ownedResult(g, 0, seen, v)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && relPkg(g) == "value/persist" && g.Blocks != nil {
				return z.ownedResult(g, x.Index, seen, v)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		seen[v] = true
		sites := z.sites(f)
		if len(sites) == 0 {
			return ""
		}
		for _, c := range sites {
			for i, q := range f.Params {
				if q == x && i < len(c.Common().Args) {
					if w := z.owned(c.Common().Args[i], z.p.guards(c.Block(), nil), seen); w != "" {
						return w
					}
				}
			}
		}
		return ""
	}
	return fmt.Sprintf("a node that other versions may share is changed: it is neither new nor marked as this editor's (%s)", z.p.pos(v.Pos()))
}

func (z *persistence) ownedResult(g *ssa.Function, idx int, seen map[ssa.Value]bool, v ssa.Value) string {
	seen[v] = true
	for _, ret := range z.p.returns(g) {
		if w := z.owned(ret.Results[idx], z.p.guards(ret.Block(), nil), seen); w != "" {
			return w
		}
	}
	return ""
}

func loadedOnly(a *ssa.Alloc) (ssa.Value, bool) {
	if isNodeT(a.Type().Underlying().(*types.Pointer).Elem()) {
		return nil, false
	}
	st := storesTo(a)
	if len(st) == 1 {
		return st[0].Val, true
	}
	return nil, false
}

// marked: the facts say that v's mark is that of the editor.
func (z *persistence) marked(v ssa.Value, facts []fact) bool {
	cmps, _ := z.p.expand(facts)
	for _, c := range cmps {
		if c.op != token.EQL {
			continue
		}
		x, xc := resolveArg(c.x, c.ctx)
		y, yc := resolveArg(c.y, c.ctx)
		if z.markOf(x, xc, v) && z.ownMark(y, map[ssa.Value]bool{}) || z.markOf(y, yc, v) && z.ownMark(x, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func resolveArg(v ssa.Value, ctx *ictx) (ssa.Value, *ictx) {
	for {
		prm, ok := v.(*ssa.Parameter)
		if !ok || ctx == nil {
			return v, ctx
		}
		a, c2, ok := ctx.argOf(prm)
		if !ok {
			return v, ctx
		}
		v, ctx = a, c2
	}
}

// markOf: x is the mark of node v.
func (z *persistence) markOf(x ssa.Value, ctx *ictx, v ssa.Value) bool {
	u, ok := x.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, t := fieldAddrOf(u.X)
	if fa == nil || !isUint64(t) || !isNodeT(fa.X.Type()) {
		return false
	}
	b, _ := resolveArg(fa.X, ctx)
	return b == v
}

// ownMark: x is the mark of the editor: what its id method gives, never zero.
func (z *persistence) ownMark(x ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	switch x := x.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if c, kind, m, recv := atomicCall(x); c != nil {
			fa, _ := fieldAddrOf(recv)
			return kind == "Uint64" && m == "Load" && fa != nil && isEditorT(fa.X.Type())
		}
		if relPkg(g) != "value/persist" || !isUint64(x.Type()) {
			return false
		}
		return len(g.Params) > 0 && isEditorT(g.Params[0].Type())
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !z.ownMark(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		n := 0
		for _, c := range z.sites(x.Parent()) {
			for i, q := range x.Parent().Params {
				if q == x && i < len(c.Common().Args) {
					n++
					if !z.ownMark(c.Common().Args[i], seen) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// ---------------------------------------------------------------- states of an editor

// estate is what is known of the editor at a point, on every path to it.
type estate struct {
	own     bool // its tail is its own
	off     bool // its flag is down
	gave    bool // the version being made shares no tail that the editor may write
	reset   bool // it has given up its mark
	locked  bool
	checked bool // the flag was seen down since the lock was taken
}

func (a estate) meet(b estate) estate {
	return estate{a.own && b.own, a.off && b.off, a.gave && b.gave, a.reset && b.reset, a.locked && b.locked, a.checked && b.checked}
}

const (
	kOther = iota
	kFresh
	kOwn    // the editor's tail, while its own
	kShared // the editor's tail, which may be shared
)

type eflow struct {
	z     *persistence
	f     *ssa.Function
	conc  bool
	kinds []int
	at    map[ssa.Instruction]estate
}

func (z *persistence) flows() {
	for _, f := range z.funcs {
		root := f.Parent() != nil || z.exported(f)
		if !root {
			continue
		}
		exit := z.run(f, estate{}, make([]int, len(f.Params)), false)
		_ = exit
		if z.conc[f] {
			z.run(f, estate{}, make([]int, len(f.Params)), true)
		}
	}
}

// editorField: addr is a field of an editor, or of the slice in it; typ is the field's type.
func editorField(addr ssa.Value) (typ types.Type, ok bool) {
	fa, t := fieldAddrOf(addr)
	if fa == nil {
		return nil, false
	}
	if isEditorT(fa.X.Type()) {
		return t, true
	}
	if isSliceT(fa.X.Type()) {
		if in, _ := fieldAddrOf(fa.X); in != nil && isEditorT(in.X.Type()) {
			return t, true
		}
	}
	return nil, false
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func (z *persistence) once(rule, key string, pos token.Pos, ok bool, format string, args ...any) {
	k := rule + key
	if !ok {
		k += "!"
	}
	if z.seen[k] || ok && z.seen[k+"!"] {
		return
	}
	z.seen[k] = true
	z.r.add(z.pre+rule, key, pos, ok, format, args...)
}

func (z *persistence) run(f *ssa.Function, in estate, kinds []int, conc bool) estate {
	key := fmt.Sprint(f.String(), f.Pos(), in, kinds, conc)
	if out, ok := z.runs[key]; ok {
		return out
	}
	z.runs[key] = in // recursion: the state is kept
	e := &eflow{z: z, f: f, conc: conc, kinds: kinds, at: map[ssa.Instruction]estate{}}
	g := z.p.cfg(f)
	ins := make([]*estate, len(f.Blocks))
	ins[0] = &in
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if !g.reach[b.Index] || ins[b.Index] == nil {
				continue
			}
			st := *ins[b.Index]
			for i, x := range b.Instrs {
				if i > g.cut[b.Index] {
					break
				}
				e.at[x] = st
				st = e.step(x, st, false)
			}
			for _, s := range g.succs[b.Index] {
				st2 := e.edge(b, s, st)
				if ins[s.Index] == nil {
					c := st2
					ins[s.Index] = &c
					changed = true
				} else if m := ins[s.Index].meet(st2); m != *ins[s.Index] {
					*ins[s.Index] = m
					changed = true
				}
			}
		}
	}
	// With the states settled, look at what is written.
	var out *estate
	n := 0
	for _, b := range f.Blocks {
		if !g.reach[b.Index] || ins[b.Index] == nil {
			continue
		}
		for i, x := range b.Instrs {
			if i > g.cut[b.Index] {
				break
			}
			n++
			st := e.at[x]
			e.step(x, st, true)
			e.look(x, st, n)
			if _, ok := x.(*ssa.Return); ok {
				if out == nil {
					c := st
					out = &c
				} else {
					*out = out.meet(st)
				}
			}
		}
	}
	if out == nil {
		out = &in
	}
	z.runs[key] = *out
	return *out
}

func (e *eflow) flagLoad(v ssa.Value) (ssa.Instruction, bool) {
	neg := false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg = !neg
		v = u.X
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	if e.isFlagLoad(c) {
		return c, neg
	}
	if g := c.Call.StaticCallee(); g != nil && relPkg(g) == "value/persist" && g.Blocks != nil {
		if rets := e.z.p.returns(g); len(rets) == 1 && len(rets[0].Results) == 1 {
			r := rets[0].Results[0]
			n2 := false
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.NOT {
				r, n2 = u.X, true
			}
			if rc, ok := r.(*ssa.Call); ok && e.isFlagLoad(rc) {
				return c, neg != n2
			}
		}
	}
	return nil, false
}

func (e *eflow) isFlagLoad(c *ssa.Call) bool {
	ac, kind, m, recv := atomicCall(c)
	if ac == nil || kind != "Bool" || m != "Load" {
		return false
	}
	_, ok := editorField(recv)
	return ok
}

func (e *eflow) edge(b, s *ssa.BasicBlock, st estate) estate {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return st
	}
	ld, neg := e.flagLoad(iff.Cond)
	if ld == nil {
		return st
	}
	val := (b.Succs[0] == s) != neg
	if val {
		st.own = true
		st.off = false
	} else {
		st.off, st.gave = true, true
		if e.at[ld].locked && st.locked {
			st.checked = true
		}
	}
	return st
}

// kind classifies a slice of elements.
func (e *eflow) kind(v ssa.Value, seen map[ssa.Value]bool) int {
	if seen[v] {
		return -1
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return kFresh
	case *ssa.Const:
		return kFresh
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return kFresh
		}
		return e.kind(x.X, seen)
	case *ssa.ChangeType:
		return e.kind(x.X, seen)
	case *ssa.Phi:
		k := -1
		for _, ed := range x.Edges {
			k = joinKind(k, e.kind(ed, seen))
		}
		return k
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if t, ok := editorField(x.X); ok && isSlice(t) {
				if e.at[x].own {
					return kOwn
				}
				return kShared
			}
			// the tail of a version being made here, already replaced
			if fa, t := fieldAddrOf(x.X); fa != nil && isSlice(t) {
				if al, ok := fa.X.(*ssa.Alloc); ok && isSliceT(al.Type()) {
					g := e.z.p.cfg(e.f)
					for _, u := range *al.Referrers() {
						fb, ok := u.(*ssa.FieldAddr)
						if !ok || fb.Field != fa.Field {
							continue
						}
						for _, u2 := range *fb.Referrers() {
							if st, ok := u2.(*ssa.Store); ok && st.Addr == ssa.Value(fb) && g.instrDominates(st, x) && e.kind(st.Val, seen) == kFresh {
								return kFresh
							}
						}
					}
				}
			}
		}
	case *ssa.Parameter:
		for i, q := range e.f.Params {
			if q == x && i < len(e.kinds) {
				return e.kinds[i]
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return e.kind(x.Call.Args[0], seen)
		}
		g := x.Call.StaticCallee()
		if g == nil {
			return kOther
		}
		if pk := funcPkg(g); pk != nil && pk.Path() == "slices" {
			switch strings.Split(originName(g), "[")[0] {
			case "Clone", "Concat", "Collect", "Repeat", "Sorted":
				return kFresh
			}
		}
		if relPkg(g) == "value/persist" && g.Blocks != nil {
			k := -1
			sub := &eflow{z: e.z, f: g, kinds: e.argKinds(x), at: map[ssa.Instruction]estate{}}
			for _, ret := range e.z.p.returns(g) {
				if len(ret.Results) > 0 {
					k = joinKind(k, sub.kind(ret.Results[0], map[ssa.Value]bool{}))
				}
			}
			return k
		}
	}
	return kOther
}

func joinKind(a, b int) int {
	switch {
	case a == -1:
		return b
	case b == -1 || a == b:
		return a
	case a == kOther || b == kOther:
		return kOther
	case a == kShared || b == kShared:
		return kShared
	}
	return kOwn
}

func (e *eflow) argKinds(c ssa.CallInstruction) []int {
	var ks []int
	for _, a := range c.Common().Args {
		k := kOther
		if isSlice(a.Type()) {
			if k = e.kind(a, map[ssa.Value]bool{}); k < 0 {
				k = kOther
			}
		}
		ks = append(ks, k)
	}
	return ks
}

// givenUp: a tail that the editor will not write: new, or its own tail where the flag is down.
func (e *eflow) givenUp(v ssa.Value, st estate) bool {
	if e.kind(v, map[ssa.Value]bool{}) == kFresh {
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil && relPkg(g) == "value/persist" && g.Blocks != nil {
			sub := &eflow{z: e.z, f: g, kinds: e.argKinds(c), at: map[ssa.Instruction]estate{}}
			for _, ret := range e.z.p.returns(g) {
				r := ret.Results[0]
				if sub.kind(r, map[ssa.Value]bool{}) == kFresh {
					continue
				}
				down := false
				_, atoms := e.z.p.expand(e.z.p.guards(ret.Block(), nil))
				for _, a := range atoms {
					if lc, ok := a.cond.(*ssa.Call); ok && e.isFlagLoad(lc) && !a.val {
						down = true
					}
				}
				if !down {
					return false
				}
			}
			return true
		}
	}
	if phi, ok := v.(*ssa.Phi); ok {
		for i, ed := range phi.Edges {
			if e.kind(ed, map[ssa.Value]bool{}) == kFresh {
				continue
			}
			down := false
			_, atoms := e.z.p.expand(e.z.p.edgeFacts(phi.Block().Preds[i], phi.Block(), nil))
			for _, a := range atoms {
				if lc, ok := a.cond.(*ssa.Call); ok && e.isFlagLoad(lc) && !a.val {
					down = true
				}
			}
			if !down {
				return false
			}
		}
		return true
	}
	return st.off
}

func (e *eflow) step(in ssa.Instruction, st estate, _ bool) estate {
	switch x := in.(type) {
	case *ssa.Store:
		if t, ok := editorField(x.Addr); ok {
			if isSlice(t) {
				switch e.kind(x.Val, map[ssa.Value]bool{}) {
				case kFresh:
					st.own = true
				case kOwn:
				case kShared:
				default:
					st.own = false
				}
			}
			return st
		}
		// the version being made
		if fa, t := fieldAddrOf(x.Addr); fa != nil && isSliceT(fa.X.Type()) && isSlice(t) {
			st.gave = e.givenUp(x.Val, st)
			return st
		}
		if isSliceT(x.Val.Type()) && !isPtr(x.Val.Type()) {
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isEditorT(fa.X.Type()) {
				st.own = false
			} else {
				st.gave = st.off
			}
		}
	case *ssa.RunDefers:
		st.locked, st.checked = false, false
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Defer); ok {
			return st
		}
		if c, kind, m, recv := atomicCall(in); c != nil {
			t, ok := editorField(recv)
			_ = t
			if !ok {
				return st
			}
			switch {
			case kind == "Bool" && m == "Store":
				if k, ok := c.Common().Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) {
						st.off, st.gave = false, false
					} else {
						st.off, st.gave, st.own = true, true, false
					}
				} else {
					st.off, st.own, st.gave = false, false, false
				}
			case kind == "Uint64" && (m == "Store" || m == "Swap"):
				st.reset = true
			}
			return st
		}
		g := x.Common().StaticCallee()
		if g == nil {
			return st
		}
		if pk := funcPkg(g); pk != nil && pk.Path() == "sync" {
			switch g.Name() {
			case "Lock":
				st.locked, st.checked = true, false
			case "Unlock":
				st.locked, st.checked = false, false
			}
			return st
		}
		if relPkg(g) == "value/persist" && g.Blocks != nil && z_hasEditor(g) {
			return e.z.run(g, st, e.argKinds(x), e.conc)
		}
	}
	return st
}

func z_hasEditor(g *ssa.Function) bool {
	for _, q := range g.Params {
		if isEditorT(q.Type()) {
			return true
		}
	}
	return false
}

// look reports on what one instruction writes.
func (e *eflow) look(in ssa.Instruction, st estate, n int) {
	z := e.z
	name := fname(e.f)
	tailWrite := func(s ssa.Value, what string) {
		k := e.kind(s, map[ssa.Value]bool{})
		if k == kOther {
			// Somebody else's tail?
			if u, ok := rootSlice(s).(*ssa.UnOp); ok {
				if fa, t := fieldAddrOf(u.X); fa != nil && isSlice(t) && isSliceT(fa.X.Type()) {
					z.once("owned-tail", fmt.Sprintf("%s %s#%d", name, what, n), in.Pos(), false, "the tail of a version is changed")
				}
			}
			return
		}
		if k == kFresh || k < 0 {
			return
		}
		z.once("owned-tail", fmt.Sprintf("%s %s#%d", name, what, n), in.Pos(), k == kOwn, "%s", map[bool]string{true: "the editor's own", false: "the tail may be shared with other versions"}[k == kOwn])
	}
	switch x := in.(type) {
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isSlice(ia.X.Type()) {
			tailWrite(ia.X, "stores to the tail")
			return
		}
		if t, ok := editorField(x.Addr); ok {
			if isSlice(t) {
				k := e.kind(x.Val, map[ssa.Value]bool{})
				if k == kOther {
					ok := st.off || e.newEditor(x.Addr)
					z.once("owned-tail", fmt.Sprintf("%s sets the tail#%d", name, n), in.Pos(), ok, "%s", map[bool]string{true: "not marked as its own", false: "the editor takes a tail that it does not own while its flag may say that it does"}[ok])
				}
			}
			if e.conc {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					fld := fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
					z.once("concurrent-set", fmt.Sprintf("%s sets the field %s", name, fld), in.Pos(), st.locked, "%s", map[bool]string{true: "with the lock held", false: "without a lock, though several goroutines may set elements at once"}[st.locked])
					if isSlice(t) && st.locked {
						z.once("concurrent-set", fmt.Sprintf("%s replaces the tail", name), in.Pos(), st.checked, "%s", map[bool]string{true: "only if no other goroutine has since", false: "though another goroutine may already have done so and be writing to it"}[st.checked])
					}
				}
			}
		}
	case *ssa.Return:
		if e.conc || !z.exported(e.f) || !z_hasEditor(e.f) {
			return
		}
		for _, r := range x.Results {
			if !isSliceT(r.Type()) {
				continue
			}
			if fa, ok := r.(*ssa.FieldAddr); ok && isEditorT(fa.X.Type()) {
				z.once("disowned", name+" returns a version", in.Pos(), false, "the version is the editor's own storage")
				continue
			}
			z.once("disowned", name+" gives up its mark", in.Pos(), st.reset, "%s", map[bool]string{true: "on every path", false: "the editor still owns the nodes of the version that it has made, and later changes show in it"}[st.reset])
			z.once("disowned", name+" gives up the tail", in.Pos(), st.gave, "%s", map[bool]string{true: "on every path", false: "the version shares a tail that the editor may still write"}[st.gave])
		}
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "clear", "append":
				tailWrite(x.Common().Args[0], b.Name()+" to the tail")
			}
			return
		}
		if c, kind, m, recv := atomicCall(in); c != nil {
			if t, ok := editorField(recv); ok && t != nil && kind == "Bool" && m == "Store" {
				k, isC := c.Common().Args[1].(*ssa.Const)
				if !isC || k.Value != nil && constant.BoolVal(k.Value) {
					z.once("owned-tail", fmt.Sprintf("%s sets the flag#%d", name, n), in.Pos(), st.own, "%s", map[bool]string{true: "the tail is new", false: "the flag says that the tail is the editor's own, though it may be shared"}[st.own])
				}
			}
			return
		}
		if g := x.Common().StaticCallee(); g != nil && relPkg(g) != "value/persist" {
			if m := writesSliceArg(g); m >= 0 && m < len(x.Common().Args) {
				tailWrite(x.Common().Args[m], "passes the tail to "+g.Name())
			}
		}
	}
}

// newEditor: the editor was made in this function and its flag has not been raised.
func (e *eflow) newEditor(addr ssa.Value) bool {
	v := addr
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			break
		}
		v = fa.X
	}
	return e.madeHere(v, map[ssa.Value]bool{})
}

func (e *eflow) madeHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Parameter:
		// every caller that passes a slice of another kind passes an editor it has just made
		f := x.Parent()
		n := 0
		for _, c := range e.z.sites(f) {
			sub := &eflow{z: e.z, f: c.Parent(), kinds: make([]int, len(c.Parent().Params)), at: map[ssa.Instruction]estate{}}
			other := false
			for _, a := range c.Common().Args {
				if isSlice(a.Type()) && sub.kind(a, map[ssa.Value]bool{}) == kOther {
					other = true
				}
			}
			if !other {
				continue
			}
			for i, q := range f.Params {
				if q == x && i < len(c.Common().Args) {
					n++
					if !e.madeHere(c.Common().Args[i], seen) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func rootSlice(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// ---------------------------------------------------------------- marks

// newMark: a number no other editor has: an atomic increment of a package variable.
func (z *persistence) newMark(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if c, kind, m, recv := atomicCall(x); c != nil {
			_, glob := recv.(*ssa.Global)
			k, isC := c.Common().Args[len(c.Common().Args)-1].(*ssa.Const)
			return kind == "Uint64" && m == "Add" && glob && isC && k.Value != nil && constant.Sign(k.Value) != 0
		}
		if g := x.Call.StaticCallee(); g != nil && relPkg(g) == "value/persist" && g.Blocks != nil && !z_hasEditor(g) {
			for _, ret := range z.p.returns(g) {
				if !z.newMark(ret.Results[0], seen) {
					return false
				}
			}
			return true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !z.newMark(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func isZeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0
}

func (z *persistence) marks() {
	for _, f := range z.funcs {
		g := z.p.cfg(f)
		n := 0
		z.each(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				fa, t := fieldAddrOf(st.Addr)
				if fa != nil && isUint64(t) && isNodeT(fa.X.Type()) {
					n++
					why := ""
					if !z.ownMark(st.Val, map[ssa.Value]bool{}) {
						why = "a node is marked as belonging to something other than the editor at work"
					}
					z.r.add(z.pre+"owner-marks", fmt.Sprintf("%s marks a node#%d", fname(f), n), in.Pos(), why == "", "%s", orStr(why, "with the editor's own mark"))
				}
				return
			}
			c, kind, m, recv := atomicCall(in)
			if c == nil {
				return
			}
			fa, _ := fieldAddrOf(recv)
			if kind == "Uint64" && fa != nil && isEditorT(fa.X.Type()) && m != "Load" {
				n++
				args := c.Common().Args[1:]
				why := ""
				switch m {
				case "Store", "Swap":
					if !isZeroConst(args[0]) && !z.newMark(args[0], map[ssa.Value]bool{}) {
						why = "the editor takes a mark that others may have"
					} else if z.conc[f] {
						why = "the mark is replaced without looking whether another goroutine has set it"
					}
				case "CompareAndSwap":
					if !isZeroConst(args[0]) || !z.newMark(args[1], map[ssa.Value]bool{}) {
						why = "the editor takes a mark that others may have, or changes the one it has"
					}
				default:
					why = "the editor takes a mark that others may have"
				}
				z.r.add(z.pre+"owner-marks", fmt.Sprintf("%s sets the editor's mark#%d", fname(f), n), in.Pos(), why == "", "%s", orStr(why, "unique"))
			}
		})
		// What a function that gives the editor's mark returns.
		if len(f.Params) > 0 && isEditorT(f.Params[0].Type()) && f.Signature.Results().Len() == 1 && isUint64(f.Signature.Results().At(0).Type()) {
			for _, ret := range z.p.returns(f) {
				why := z.markResult(ret.Results[0], ret, z.p.guards(ret.Block(), nil), map[ssa.Value]bool{})
				z.r.add(z.pre+"owner-marks", fname(f)+" returns the mark", ret.Pos(), why == "", "%s", orStr(why, "set and never zero"))
			}
		}
		// Nodes that are published carry the editor's mark.
		z.each(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || !isNodeT(al.Type().Underlying().(*types.Pointer).Elem()) {
				return
			}
			var pubs, mks, whole []ssa.Instruction
			for _, u := range *al.Referrers() {
				switch x := u.(type) {
				case *ssa.MakeInterface:
					for _, u2 := range *x.Referrers() {
						if c, kind, m, _ := atomicCall(u2); c != nil && kind == "Value" && m != "Load" {
							pubs = append(pubs, u2)
						}
					}
				case *ssa.Store:
					if x.Addr == ssa.Value(al) {
						whole = append(whole, x)
					}
				case *ssa.FieldAddr:
					if _, t := fieldAddrOf(x); isUint64(t) {
						for _, u2 := range *x.Referrers() {
							if s, ok := u2.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
								mks = append(mks, s)
							}
						}
					}
				case ssa.CallInstruction:
					// a helper may mark it
					if h := x.Common().StaticCallee(); h != nil && relPkg(h) == "value/persist" {
						mks = append(mks, x)
					}
				}
			}
			for _, pb := range pubs {
				ok := false
				for _, mk := range mks {
					if !g.instrDominates(mk, pb) {
						continue
					}
					good := true
					for _, w := range whole {
						if !g.instrDominates(w, mk) && g.reachableFrom(mk, w) && g.reachableFrom(w, pb) && !loopOnly(g, mk, w, al) {
							good = false
						}
					}
					if good {
						ok = true
					}
				}
				z.r.add(z.pre+"owner-marks", fmt.Sprintf("%s publishes a node", fname(f)), pb.Pos(), ok, "%s", map[bool]string{true: "marked as its own", false: "the node does not carry the editor's mark"}[ok])
			}
		})
	}
}

// loopOnly: b can follow a only by going round a loop through the allocation.
func loopOnly(g *cfg, a, b ssa.Instruction, al *ssa.Alloc) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{al.Block(): true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range g.succs[x.Index] {
			if seen[s] {
				continue
			}
			seen[s] = true
			if s == b.Block() || walk(s) {
				return true
			}
		}
		return false
	}
	return !walk(a.Block())
}

func (z *persistence) markResult(v ssa.Value, at ssa.Instruction, facts []fact, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	cmps, atoms := z.p.expand(facts)
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			if !z.p.cfg(x.Parent()).edgeLive(pr, x.Block()) {
				continue
			}
			if w := z.markResult(e, pr.Instrs[len(pr.Instrs)-1], append(z.p.edgeFacts(pr, x.Block(), nil), facts...), seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Call:
		c, kind, m, recv := atomicCall(x)
		if c != nil && kind == "Uint64" {
			if fa, _ := fieldAddrOf(recv); fa != nil && isEditorT(fa.X.Type()) && m == "Load" {
				for _, f := range cmps {
					if (f.op == token.NEQ || f.op == token.GTR) && f.x == v && isZeroConst(f.y) || f.op == token.NEQ && f.y == v && isZeroConst(f.x) {
						return ""
					}
				}
				// after the mark was set, by whichever goroutine
				g := z.p.cfg(x.Parent())
				ok := false
				z.each(x.Parent(), func(in ssa.Instruction) {
					if c2, k2, m2, r2 := atomicCall(in); c2 != nil && k2 == "Uint64" && m2 == "CompareAndSwap" {
						if fa2, _ := fieldAddrOf(r2); fa2 != nil && isEditorT(fa2.X.Type()) && g.instrDominates(in, x) {
							ok = true
						}
					}
				})
				if ok {
					return ""
				}
				return "the mark may be zero, which is nobody's"
			}
		}
		if z.newMark(v, map[ssa.Value]bool{}) {
			// It must have become the editor's.
			for _, a := range atoms {
				if cas, ok := a.cond.(*ssa.Call); ok && a.val {
					if c2, k2, m2, _ := atomicCall(cas); c2 != nil && k2 == "Uint64" && m2 == "CompareAndSwap" && c2.Common().Args[2] == v {
						return ""
					}
				}
			}
			return "a new mark is used although it may not have become the editor's"
		}
		if g := x.Call.StaticCallee(); g != nil && relPkg(g) == "value/persist" && len(g.Params) > 0 && isEditorT(g.Params[0].Type()) {
			return ""
		}
	}
	return "not the editor's mark"
}

// ---------------------------------------------------------------- pointers set concurrently

func (z *persistence) concurrentStores() {
	for _, f := range z.funcs {
		if !z.conc[f] {
			continue
		}
		n := 0
		z.each(f, func(in ssa.Instruction) {
			c, kind, m, recv := atomicCall(in)
			if c == nil || kind != "Value" || m == "Load" {
				return
			}
			if base, ok := addrBase(recv).(*ssa.Alloc); ok && isNodeT(base.Type()) {
				return // not published yet
			}
			n++
			name := fmt.Sprintf("%s replaces a node#%d", fname(f), n)
			if m != "CompareAndSwap" {
				z.r.add(z.pre+"concurrent-set", name, in.Pos(), false, "without looking whether another goroutine has replaced it meanwhile")
				return
			}
			old := nodeLoad(c.Common().Args[1])
			why := ""
			if old == nil {
				why = "the comparison is not with the pointer that was copied"
			}
			if mi, ok := c.Common().Args[2].(*ssa.MakeInterface); ok && old != nil {
				if al, ok := mi.X.(*ssa.Alloc); ok {
					for _, src := range z.copiedFrom(al) {
						if l := nodeLoad(src); l != nil && l != old {
							why = "the comparison is not with the pointer that was copied"
						}
					}
					// The new node is used only if it has become part of the tree.
					if w := z.usedUnpublished(al, in.(*ssa.Call)); w != "" {
						why = w
					}
				}
			}
			z.r.add(z.pre+"concurrent-set", name, in.Pos(), why == "", "%s", orStr(why, "if it is still the one that was copied"))
		})
	}
	// The length of an editor is read while elements are set.
	for _, f := range z.funcs {
		if f.Parent() != nil || originName(f) != "Len" || len(f.Params) == 0 || !isEditorT(f.Params[0].Type()) {
			continue
		}
		bad := token.NoPos
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			z.each(g, func(in ssa.Instruction) {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, t := fieldAddrOf(u.X); fa != nil && isSlice(t) && isSliceT(fa.X.Type()) {
						bad = u.Pos()
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && relPkg(h) == "value/persist" && h.Blocks != nil {
						walk(h)
					}
				}
			})
		}
		walk(f)
		z.r.add(z.pre+"concurrent-set", fname(f)+" reads the length", f.Pos(), bad == token.NoPos, "%s", map[bool]string{true: "from fields that setting elements leaves alone", false: "from the tail, which another goroutine may be replacing"}[bad == token.NoPos])
	}
}

// nodeLoad: the atomic Load a node pointer comes from.
func nodeLoad(v ssa.Value) *ssa.Call {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.Call:
			if c, kind, m, _ := atomicCall(x); c != nil && kind == "Value" && m == "Load" {
				return x
			}
			return nil
		default:
			return nil
		}
	}
}

// copiedFrom: the nodes whose contents are stored in the new node.
func (z *persistence) copiedFrom(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	add := func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if b := addrBase(x.X); isNodeT(b.Type()) {
					out = append(out, b)
				}
			}
		case *ssa.Call:
			if c, kind, m, recv := atomicCall(x); c != nil && kind == "Value" && m == "Load" {
				if b := addrBase(recv); isNodeT(b.Type()) {
					out = append(out, b)
				}
			}
		}
	}
	z.each(al.Parent(), func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if addrBase(x.Addr) == ssa.Value(al) {
				add(x.Val)
			}
		case *ssa.Call:
			if c, kind, m, recv := atomicCall(in); c != nil && kind == "Value" && m == "Store" && addrBase(recv) == ssa.Value(al) {
				add(c.Common().Args[1])
			}
		}
	})
	return out
}

func (z *persistence) usedUnpublished(al *ssa.Alloc, cas *ssa.Call) string {
	g := z.p.cfg(al.Parent())
	won := func(fs []fact) bool {
		_, atoms := z.p.expand(fs)
		for _, a := range atoms {
			if a.cond == ssa.Value(cas) && a.val {
				return true
			}
		}
		return false
	}
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				pr := x.Block().Preds[i]
				if e == ssa.Value(al) && g.edgeLive(pr, x.Block()) && g.instrDominates(cas, pr.Instrs[len(pr.Instrs)-1]) && !won(z.p.edgeFacts(pr, x.Block(), nil)) {
					return "the new node is used although another goroutine's may have been put in the tree instead"
				}
			}
		case *ssa.Return, *ssa.Store, *ssa.FieldAddr:
			if g.instrDominates(cas, u) && !won(z.p.guards(u.Block(), nil)) {
				return "the new node is used although another goroutine's may have been put in the tree instead"
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- height

// capacity evaluates the height of a tree as a function of the bit length of the largest index.
func (z *persistence) capacity() {
	width := int64(0)
	for _, f := range z.funcs {
		z.each(f, func(in ssa.Instruction) {
			if al, ok := in.(*ssa.Alloc); ok && isNodeT(al.Type()) {
				st := persistNamed(al.Type()).Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if a, ok := st.Field(i).Type().Underlying().(*types.Array); ok {
						width = a.Len()
					}
				}
			}
		})
	}
	bitsPer := int64(0)
	for w := width; w > 1; w >>= 1 {
		bitsPer++
	}
	if width == 0 || 1<<bitsPer != width {
		return
	}
	for _, f := range z.funcs {
		if f.Parent() != nil || len(f.Params) != 1 || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !isInt(f.Params[0].Type()) || !isInt(f.Signature.Results().At(0).Type()) {
			continue
		}
		uses := false
		z.each(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && funcPkg(g) != nil && funcPkg(g).Path() == "math/bits" {
					uses = true
				}
			}
		})
		if !uses {
			continue
		}
		bad, und := "", false
		for l := int64(bitsPer); l < 48; l++ {
			h, ok := evalHeight(f, l)
			if !ok {
				und = true
				break
			}
			if h*bitsPer < l {
				bad = fmt.Sprintf("a vector of up to 2^%d elements gets a tree of height %d, which holds 2^%d", l, h, h*bitsPer)
				break
			}
		}
		if und {
			continue
		}
		z.r.add(z.pre+"capacity", fname(f), f.Pos(), bad == "", "%s", orStr(bad, "for lengths of up to 48 bits"))
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// evalHeight evaluates f for arguments n with n-1 of exactly l bits, as intervals.
func evalHeight(f *ssa.Function, l int64) (int64, bool) {
	type iv struct{ lo, hi int64 }
	env := map[ssa.Value]iv{f.Params[0]: {1<<(l-1) + 1, 1 << l}}
	get := func(v ssa.Value) (iv, bool) {
		if k, ok := constInt(v); ok {
			return iv{k, k}, true
		}
		x, ok := env[v]
		return x, ok
	}
	var prev *ssa.BasicBlock
	b := f.Blocks[0]
	for steps := 0; steps < 2000; steps++ {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, pr := range b.Preds {
					if pr == prev {
						if v, ok := get(x.Edges[i]); ok {
							env[x] = v
						} else {
							return 0, false
						}
					}
				}
			case *ssa.Convert:
				v, ok := get(x.X)
				if !ok {
					return 0, false
				}
				if bt, ok := x.Type().Underlying().(*types.Basic); ok {
					switch bt.Kind() {
					case types.Uint32, types.Int32:
						if v.hi >= 1<<31 {
							return 0, false
						}
					case types.Uint16, types.Int16, types.Uint8, types.Int8:
						return 0, false
					}
				}
				env[x] = v
			case *ssa.BinOp:
				a, ok1 := get(x.X)
				c, ok2 := get(x.Y)
				if !ok1 || !ok2 {
					return 0, false
				}
				switch x.Op {
				case token.ADD:
					env[x] = iv{a.lo + c.lo, a.hi + c.hi}
				case token.SUB:
					env[x] = iv{a.lo - c.hi, a.hi - c.lo}
				case token.MUL:
					if a.lo < 0 || c.lo < 0 || c.lo != c.hi {
						return 0, false
					}
					env[x] = iv{a.lo * c.lo, a.hi * c.hi}
				case token.QUO:
					if c.lo != c.hi || c.lo <= 0 || a.lo < 0 {
						return 0, false
					}
					env[x] = iv{a.lo / c.lo, a.hi / c.lo}
				case token.SHR:
					if c.lo != c.hi || c.lo < 0 || c.lo > 62 {
						return 0, false
					}
					env[x] = iv{a.lo >> c.lo, a.hi >> c.lo}
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					t, fl := false, false
					switch x.Op {
					case token.EQL, token.NEQ:
						t = a.lo == a.hi && a == c
						fl = a.hi < c.lo || c.hi < a.lo
						if x.Op == token.NEQ {
							t, fl = fl, t
						}
					case token.LSS:
						t, fl = a.hi < c.lo, a.lo >= c.hi
					case token.LEQ:
						t, fl = a.hi <= c.lo, a.lo > c.hi
					case token.GTR:
						t, fl = a.lo > c.hi, a.hi <= c.lo
					case token.GEQ:
						t, fl = a.lo >= c.hi, a.hi < c.lo
					}
					switch {
					case t:
						env[x] = iv{1, 1}
					case fl:
						env[x] = iv{0, 0}
					default:
						return 0, false
					}
				default:
					return 0, false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "max" || bi.Name() == "min") {
					r, ok := get(x.Call.Args[0])
					if !ok {
						return 0, false
					}
					for _, a := range x.Call.Args[1:] {
						v, ok := get(a)
						if !ok {
							return 0, false
						}
						if bi.Name() == "max" {
							r = iv{max(r.lo, v.lo), max(r.hi, v.hi)}
						} else {
							r = iv{min(r.lo, v.lo), min(r.hi, v.hi)}
						}
					}
					env[x] = r
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || funcPkg(g) == nil || funcPkg(g).Path() != "math/bits" || !strings.HasPrefix(g.Name(), "Len") {
					return 0, false
				}
				v, ok := get(x.Call.Args[0])
				if !ok || v.lo <= 0 {
					return 0, false
				}
				bl := func(n int64) int64 {
					c := int64(0)
					for ; n > 0; n >>= 1 {
						c++
					}
					return c
				}
				env[x] = iv{bl(v.lo), bl(v.hi)}
			case *ssa.If:
				c, ok := get(x.Cond)
				if !ok || c.lo != c.hi {
					return 0, false
				}
				prev = b
				if c.lo == 1 {
					b = b.Succs[0]
				} else {
					b = b.Succs[1]
				}
			case *ssa.Jump:
				prev = b
				b = b.Succs[0]
			case *ssa.Return:
				v, ok := get(x.Results[0])
				if !ok {
					return 0, false
				}
				return v.lo, true
			case *ssa.DebugRef:
			default:
				return 0, false
			}
		}
	}
	return 0, false
}
