package main

// Origin analysis: where does the memory a pointer or slice denotes come from?
// An object is fresh when it was allocated by the current computation and has
// not been handed to it as (part of) an operand, a variable or a constant.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type origin struct {
	why  string
	pos  token.Pos
	path []string
}

type freshener struct {
	p      *Prog
	seen   map[string]bool
	bad    []origin
	allocs map[ssa.Value]*ictx // fresh sources found
	steps  int
	trail  []string
	want   types.Type // the concrete type an enclosing assertion has established for the traced interface value
}

// as traces under the knowledge that the interface value holds a t.
func (fr *freshener) as(t types.Type, f func()) {
	if types.IsInterface(t) {
		f()
		return
	}
	old := fr.want
	fr.want = t
	f()
	fr.want = old
}

// unwrap handles a conversion to an interface: impossible when another type is wanted.
func (fr *freshener) unwrap(x *ssa.MakeInterface, f func()) {
	if fr.want != nil && !types.Identical(fr.want, x.X.Type()) {
		return
	}
	old := fr.want
	fr.want = nil
	f()
	fr.want = old
}

func newFreshener(p *Prog) *freshener {
	return &freshener{p: p, seen: map[string]bool{}, allocs: map[ssa.Value]*ictx{}}
}

func (fr *freshener) fail(v ssa.Value, why string) {
	pos := token.NoPos
	if v != nil {
		pos = v.Pos()
	}
	fr.bad = append(fr.bad, origin{why, pos, append([]string(nil), fr.trail...)})
}

func (fr *freshener) src(v ssa.Value, ctx *ictx) { fr.allocs[v] = ctx }

// bigReader lists the methods of math/big numbers that do not write their receiver.
func bigReader(f *ssa.Function) bool {
	switch f.Name() {
	case "Append", "AppendText", "Bit", "BitLen", "Bits", "Bytes", "Cmp", "CmpAbs", "FillBytes", "Float64", "Float32",
		"Format", "GobEncode", "Int64", "IsInt64", "IsUint64", "MarshalJSON", "MarshalText", "ProbablyPrime", "Sign",
		"String", "Text", "TrailingZeroBits", "Uint64", "Denom", "Num", "FloatPrec", "FloatString", "IsInt", "RatString",
		"Acc", "Int", "IsInf", "MantExp", "MinPrec", "Mode", "Prec", "Rat", "Signbit":
		return true
	}
	return false
}

func isBigMethod(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() != nil && isBigType(f.Signature.Recv().Type()) && relTo(f) == "math/big"
}

// bigWrites returns the indices of the arguments (0 = receiver) written by a math/big method.
func bigWrites(f *ssa.Function) []int {
	var out []int
	if !bigReader(f) {
		out = append(out, 0)
	}
	switch f.Name() {
	case "DivMod", "QuoRem":
		out = append(out, 3)
	case "GCD":
		out = append(out, 1, 2)
	case "Int", "Rat", "MantExp":
		if len(f.Params) > 1 || f.Signature.Params().Len() > 0 {
			out = append(out, 1)
		}
	}
	return out
}

const traceDepth = 9

// trace follows v backwards to the places its memory may come from.
func (fr *freshener) trace(v ssa.Value, ctx *ictx) {
	fr.steps++
	if fr.steps > 40000 {
		if fr.steps == 40001 {
			fr.fail(v, "origin analysis gave up")
		}
		return
	}
	k := fmt.Sprintf("%p/%p/%v", v, ctx, fr.want)
	if fr.seen[k] {
		return
	}
	fr.seen[k] = true
	p := fr.p
	switch x := v.(type) {
	case *ssa.Const:
		return
	case *ssa.Alloc:
		fr.src(x, ctx)
		return
	case *ssa.MakeSlice, *ssa.MakeMap:
		fr.src(x, ctx)
		return
	case *ssa.Slice:
		fr.trace(x.X, ctx)
	case *ssa.ChangeType:
		fr.trace(x.X, ctx)
	case *ssa.ChangeInterface:
		fr.trace(x.X, ctx)
	case *ssa.MakeInterface:
		fr.unwrap(x, func() { fr.trace(x.X, ctx) })
	case *ssa.SliceToArrayPointer:
		fr.trace(x.X, ctx)
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			return // a conversion from a string or number allocates or is immutable
		}
		fr.trace(x.X, ctx)
	case *ssa.TypeAssert:
		fr.as(x.AssertedType, func() { fr.trace(x.X, ctx) })
	case *ssa.Phi:
		g := p.cfg(x.Parent())
		for i, e := range x.Edges {
			if g.reach[x.Block().Preds[i].Index] {
				fr.trace(e, ctx)
			}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				fr.as(t.AssertedType, func() { fr.trace(t.X, ctx) })
			}
		case *ssa.Call:
			fr.call(t, x.Index, ctx)
		default:
			fr.fail(x, "value of "+v.String())
		}
	case *ssa.Call:
		fr.call(x, 0, ctx)
	case *ssa.FreeVar:
		b := freeVarBinding(x)
		if b == nil {
			fr.fail(x, "captured variable "+x.Name())
			return
		}
		fr.trace(b, ctx)
	case *ssa.Parameter:
		fr.param(x, ctx)
	case *ssa.Field:
		fr.fieldOf(x.X, x.Field, ctx)
	case *ssa.FieldAddr:
		// Address of a part of an object: as fresh as the object.
		fr.trace(x.X, ctx)
	case *ssa.IndexAddr:
		fr.trace(x.X, ctx)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			fr.load(x.X, x, ctx)
			return
		}
		if x.Op == token.ARROW {
			fr.fail(x, "received from a channel")
		}
	case *ssa.Global:
		fr.fail(x, "package variable "+x.Name())
	case *ssa.Lookup:
		fr.fail(x, "element of a table "+p.key(x.X, nil))
	case *ssa.Index:
		fr.fail(x, "element of "+p.key(x.X, nil))
	default:
		fr.fail(v, fmt.Sprintf("unresolved %T", v))
	}
}

// load: the value stored at addr.
func (fr *freshener) load(addr ssa.Value, at ssa.Instruction, ctx *ictx) {
	p := fr.p
	switch a := addr.(type) {
	case *ssa.Global:
		if st := fr.storedHere(a, at); st != nil {
			fr.trace(st.Val, ctx)
			return
		}
		fr.fail(addr, "package variable "+a.Name())
		return
	case *ssa.FieldAddr:
		fr.fieldOf(a.X, a.Field, ctx)
		return
	case *ssa.IndexAddr:
		// An element of a locally built array or slice of pointers: all stores to it.
		sub := newFreshener(p)
		sub.trace(a.X, ctx)
		if len(sub.bad) > 0 {
			fr.fail(addr, "element of "+p.key(a.X, nil))
			return
		}
		for s, sctx := range sub.allocs {
			fr.elemStores(s, sctx, a)
		}
		return
	}
	if al := rootAlloc(addr); al != nil {
		sts := storesTo(al)
		for _, st := range sts {
			fr.trace(st.Val, ctx)
		}
		// Whole-struct variables may also be filled field by field; that is handled in fieldOf.
		return
	}
	fr.fail(addr, "memory at "+p.key(addr, nil))
}

func (fr *freshener) elemStores(s ssa.Value, ctx *ictx, at ssa.Value) {
	f := s.Parent()
	if f == nil {
		fr.fail(at, "element of "+s.Name())
		return
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if baseOf(ia.X) == s {
					fr.trace(st.Val, ctx)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	scan(f)
}

// baseOf strips slicing and single-assignment loads.
func baseOf(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			w, ok := loadedValue(x)
			if !ok {
				return v
			}
			v = w
		case *ssa.FreeVar:
			b := freeVarBinding(x)
			if b == nil {
				return v
			}
			v = b
		default:
			return v
		}
	}
	return v
}

// fieldOf traces what base.field may hold.
func (fr *freshener) fieldOf(base ssa.Value, field int, ctx *ictx) {
	fr.fieldK(base, field, ctx, "", func(v ssa.Value, c *ictx) { fr.trace(v, c) })
}

// fieldK applies k to every value base.field may hold; kid names the continuation.
func (fr *freshener) fieldK(base ssa.Value, field int, ctx *ictx, kid string, k func(ssa.Value, *ictx)) {
	fr.steps++
	if fr.steps > 40000 {
		if fr.steps == 40001 {
			fr.fail(base, "origin analysis gave up")
		}
		return
	}
	p := fr.p
	sk := fmt.Sprintf("f%p/%d%s/%p/%v", base, field, kid, ctx, fr.want)
	if fr.seen[sk] {
		return
	}
	fr.seen[sk] = true
	switch b := base.(type) {
	case *ssa.UnOp:
		if b.Op == token.MUL {
			if al := rootAlloc(b.X); al != nil {
				if _, isPtr := al.Type().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
					for _, st := range storesTo(al) {
						fr.fieldK(st.Val, field, ctx, kid, k)
					}
					return
				}
				fr.fieldK(al, field, ctx, kid, k)
				return
			}
			if fa, ok := b.X.(*ssa.FieldAddr); ok {
				// nested struct or pointer held in a field
				if fr.ownedField(base.Type(), field) {
					return
				}
				want := fr.want
				fr.want = nil
				fr.fieldK(fa.X, fa.Field, ctx, fmt.Sprintf("%s.%d/%v", kid, field, want), func(v ssa.Value, c *ictx) {
					old := fr.want
					fr.want = want
					fr.fieldK(v, field, c, kid, k)
					fr.want = old
				})
				fr.want = want
				return
			}
			fr.fail(base, "field "+fieldName(base.Type(), field)+" of "+p.key(base, nil))
			return
		}
	case *ssa.FieldAddr:
		// base is the address of an embedded struct: find stores to base.field
		if fr.localFieldStores(b, field, ctx, kid, k) {
			return
		}
		if fr.ownedField(base.Type(), field) {
			return
		}
	case *ssa.Alloc:
		// Stores to the field, or to the whole struct, of this local object.
		if fr.localFieldStores(b, field, ctx, kid, k) {
			return
		}
		return // never stored: zero value
	case *ssa.FreeVar:
		if bb := freeVarBinding(b); bb != nil {
			fr.fieldK(bb, field, ctx, kid, k)
			return
		}
	case *ssa.Phi:
		for _, e := range b.Edges {
			fr.fieldK(e, field, ctx, kid, k)
		}
		return
	case *ssa.ChangeType:
		fr.fieldK(b.X, field, ctx, kid, k)
		return
	case *ssa.Const:
		return
	case *ssa.Call, *ssa.Extract:
		idx := 0
		call, ok := b.(*ssa.Call)
		if !ok {
			ex := b.(*ssa.Extract)
			idx = ex.Index
			call, ok = ex.Tuple.(*ssa.Call)
		}
		if ok && fr.callResults(call, idx, ctx, func(v ssa.Value, c *ictx) { fr.fieldK(v, field, c, kid, k) }) {
			return
		}
		if ta, ok2 := b.(*ssa.Extract); ok2 {
			if t, ok3 := ta.Tuple.(*ssa.TypeAssert); ok3 {
				fr.as(t.AssertedType, func() { fr.fieldK(t.X, field, ctx, kid, k) })
				return
			}
		}
	case *ssa.TypeAssert:
		fr.as(b.AssertedType, func() { fr.fieldK(b.X, field, ctx, kid, k) })
		return
	case *ssa.ChangeInterface:
		fr.fieldK(b.X, field, ctx, kid, k)
		return
	case *ssa.MakeInterface:
		fr.unwrap(b, func() { fr.fieldK(b.X, field, ctx, kid, k) })
		return
	case *ssa.Parameter:
		if a, c, ok := ctx.argOf(b); ok {
			if types.IsInterface(a.Type()) && !types.IsInterface(b.Type()) {
				fr.as(b.Type(), func() { fr.fieldK(a, field, c, kid, k) })
			} else {
				fr.fieldK(a, field, c, kid, k)
			}
			return
		}
		if isValueIface(b.Type()) {
			fr.fail(b, "operand "+b.Name()+" of "+fname(b.Parent()))
			return
		}
		if fr.ownedField(b.Type(), field) {
			return
		}
		// every caller
		if fr.allCallers(b, func(v ssa.Value, c *ictx) { fr.fieldK(v, field, c, kid, k) }) {
			return
		}
	case *ssa.Field:
		if fr.ownedField(base.Type(), field) {
			return
		}
		want := fr.want
		fr.want = nil
		fr.fieldK(b.X, b.Field, ctx, fmt.Sprintf("%s.%d/%v", kid, field, want), func(v ssa.Value, c *ictx) {
			old := fr.want
			fr.want = want
			fr.fieldK(v, field, c, kid, k)
			fr.want = old
		})
		fr.want = want
		return
	}
	fr.fail(base, "field "+fieldName(base.Type(), field)+" of "+p.key(base, nil))
}

// localFieldStores traces every store to base.field (or to all of *base) made
// through the same address expression. Returns false when there is none.
func (fr *freshener) localFieldStores(base ssa.Value, field int, ctx *ictx, kid string, k func(ssa.Value, *ictx)) bool {
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return false
	}
	found := false
	for _, st := range storesTo(al) {
		found = true
		fr.fieldK(st.Val, field, ctx, kid, k)
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == field && ptrAlloc(fa.X) == al {
					found = true
					k(st.Val, ctx)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	scan(al.Parent())
	// The object may be passed on and filled elsewhere (a constructor or an init method).
	t := al.Type().(*types.Pointer).Elem()
	if _, ok := t.(*types.Named); ok && escapes(al) {
		if !fr.ownedField(types.NewPointer(t), field) {
			if !found {
				fr.fail(al, "field "+fieldName(t, field)+" of "+types.TypeString(t, types.RelativeTo(nil)))
			}
		}
		return true
	}
	return found
}

func escapes(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != al {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func ptrAlloc(v ssa.Value) *ssa.Alloc {
	b := baseOf(v)
	if a := rootAlloc(b); a != nil {
		return a
	}
	a, _ := b.(*ssa.Alloc)
	return a
}

var ownedMemo = map[string]int{}

// ownedField: every store in the module to this field of this named struct type stores fresh memory,
// and the type is not one of the immutable value kinds.
func (fr *freshener) ownedField(t types.Type, field int) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	if fr.p.isValueKind(n) {
		return false
	}
	key := fmt.Sprintf("%s.%d", n.String(), field)
	switch ownedMemo[key] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	ownedMemo[key] = 3
	ok = true
	any := false
	for _, f := range fr.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isSt := in.(*ssa.Store)
				if !isSt {
					continue
				}
				if fa, isFa := st.Addr.(*ssa.FieldAddr); isFa && fa.Field == field && sameNamed(fa.X.Type(), n) {
					any = true
					sub := newFreshener(fr.p)
					sub.trace(st.Val, nil)
					if len(sub.bad) > 0 {
						ok = false
					}
				} else if sameNamed(types.NewPointer(st.Val.Type()), n) {
					// whole-struct copy: aliasing of the field
					if !isZeroStruct(st.Val) {
						sub := newFreshener(fr.p)
						sub.fieldOf(st.Val, field, nil)
						if len(sub.bad) > 0 {
							ok = false
						}
					}
				}
			}
		}
	}
	if !any {
		ok = true // only ever zero: nil
	}
	if ok {
		ownedMemo[key] = 1
	} else {
		ownedMemo[key] = 2
	}
	return ok
}

func isZeroStruct(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func sameNamed(t types.Type, n *types.Named) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	m, ok := t.(*types.Named)
	return ok && (m == n || m.Obj() == n.Obj())
}

// isValueKind: the type implements value.Value (an immutable ivy value).
func (p *Prog) isValueKind(n *types.Named) bool {
	vi := p.valueIface()
	return vi != nil && (types.Implements(n, vi) || types.Implements(types.NewPointer(n), vi))
}

func (p *Prog) valueIface() *types.Interface {
	n := p.namedType("value", "Value")
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

func isValueIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/value"
}

func (fr *freshener) param(x *ssa.Parameter, ctx *ictx) {
	if a, c, ok := ctx.argOf(x); ok {
		if types.IsInterface(a.Type()) && !types.IsInterface(x.Type()) {
			fr.as(x.Type(), func() { fr.trace(a, c) })
		} else {
			fr.trace(a, c)
		}
		return
	}
	if isValueIface(x.Type()) {
		fr.fail(x, "operand "+x.Name()+" of "+fname(x.Parent()))
		return
	}
	if fr.allCallers(x, func(v ssa.Value, c *ictx) { fr.trace(v, c) }) {
		return
	}
	fr.fail(x, "parameter "+x.Name()+" of "+fname(x.Parent())+", which has unknown callers")
}

// allCallers applies f to the argument at every caller of x's function. False if callers are unknown.
func (fr *freshener) allCallers(x *ssa.Parameter, f func(ssa.Value, *ictx)) bool {
	fn := x.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == x {
			idx = i
		}
	}
	sites := fr.p.callSites(fn)
	if len(sites) == 0 {
		return false
	}
	for _, c := range sites {
		cc := c.Common()
		i := idx
		var a ssa.Value
		if cc.IsInvoke() {
			if i == 0 {
				a = cc.Value
			} else {
				a = cc.Args[i-1]
			}
		} else if i < len(cc.Args) {
			a = cc.Args[i]
		}
		if a == nil {
			return false
		}
		n := len(fr.trail)
		fr.trail = append(fr.trail, fname(c.Parent())+" at "+fr.p.pos(c.Pos()))
		f(a, nil)
		fr.trail = fr.trail[:n]
	}
	return true
}

var siteMemo map[*ssa.Function][]ssa.CallInstruction

// callSites lists every call (static or resolved by VTA) that may enter fn.
func (p *Prog) callSites(fn *ssa.Function) []ssa.CallInstruction {
	if siteMemo == nil {
		siteMemo = map[*ssa.Function][]ssa.CallInstruction{}
	}
	if s, ok := siteMemo[fn]; ok {
		return s
	}
	seen := map[ssa.CallInstruction]bool{}
	var out []ssa.CallInstruction
	for _, c := range p.callers[fn] {
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	if n := p.callGraph().Nodes[fn]; n != nil {
		for _, e := range n.In {
			if e.Site != nil && !seen[e.Site] {
				// skip synthetic wrappers' own sites being double counted
				seen[e.Site] = true
				out = append(out, e.Site)
			}
		}
	}
	siteMemo[fn] = out
	return out
}

// callees lists the functions a call may enter (static, closure, or by VTA).
func (p *Prog) callees(c ssa.CallInstruction) []*ssa.Function {
	if f := c.Common().StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	if n := p.callGraph().Nodes[c.Parent()]; n != nil {
		for _, e := range n.Out {
			if e.Site == c {
				out = append(out, e.Callee.Func)
			}
		}
	}
	return out
}

// callResults applies f to each value returned as result idx by the callees. False if some callee is unknown.
func (fr *freshener) callResults(c *ssa.Call, idx int, ctx *ictx, f func(ssa.Value, *ictx)) bool {
	p := fr.p
	cs := p.callees(c)
	var opArgs []ssa.Value
	if fns, args := p.constOp(c); fns != nil {
		cs, opArgs = fns, args
	}
	if len(cs) == 0 {
		return false
	}
	d := 0
	if ctx != nil {
		d = ctx.depth
	}
	if d > traceDepth {
		return false
	}
	for _, callee := range cs {
		if callee.Blocks == nil {
			return false
		}
	}
	for _, callee := range cs {
		c2 := ctx.enter(c, callee)
		if k, inner := ctx.count(callee); k >= 2 {
			c2 = inner // recursion: the same returns, already being traced
		} else if opArgs != nil {
			c2.args = opArgs
		}
		g := p.cfg(callee)
		n := len(fr.trail)
		fr.trail = append(fr.trail, "result of "+fname(callee))
		for i, b := range callee.Blocks {
			if !g.reach[i] || g.cut[i] < len(b.Instrs) {
				continue
			}
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(rt.Results) {
				f(rt.Results[idx], c2)
			}
		}
		fr.trail = fr.trail[:n]
	}
	return true
}

func (fr *freshener) call(c *ssa.Call, idx int, ctx *ictx) {
	p := fr.p
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if capLimited(cc.Args[0]) {
				fr.src(c, ctx)
				return
			}
			fr.trace(cc.Args[0], ctx)
			fr.src(c, ctx)
		case "min", "max", "len", "cap", "copy":
		default:
			fr.fail(c, "result of "+b.Name())
		}
		return
	}
	if bigFuncShape(cc) {
		// A dynamic call of a math/big method expression returns its first argument.
		fr.trace(cc.Args[0], ctx)
		return
	}
	callee := cc.StaticCallee()
	if callee != nil && (callee.Blocks == nil || !p.inModule(callee)) {
		if isBigMethod(callee) {
			switch callee.Name() {
			case "Int", "Rat":
				if relRecv(callee) == "Float" {
					if len(cc.Args) > 1 {
						if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value == nil {
							fr.src(c, ctx)
							return
						}
						fr.trace(cc.Args[1], ctx)
					}
					return
				}
			case "DivMod", "QuoRem":
				if idx == 1 {
					fr.trace(cc.Args[3], ctx)
					return
				}
			}
			rt := callee.Signature.Results()
			if idx < rt.Len() && isBigType(rt.At(idx).Type()) {
				fr.trace(cc.Args[0], ctx)
				return
			}
			fr.src(c, ctx)
			return
		}
		switch relTo(callee) {
		case "math/big", "slices", "strings", "strconv", "fmt", "bytes", "sort", "os", "unicode/utf8", "time", "math/rand", "bufio", "errors", "unicode", "maps":
			if relTo(callee) == "slices" {
				switch originName(callee) {
				case "Clone", "Concat", "Collect", "Repeat", "Sorted", "SortedFunc":
					fr.src(c, ctx)
					return
				}
				if len(cc.Args) > 0 {
					fr.trace(cc.Args[0], ctx)
				}
				return
			}
			fr.src(c, ctx)
			return
		}
		fr.fail(c, "result of "+callee.RelString(nil))
		return
	}
	if fr.callResults(c, idx, ctx, func(v ssa.Value, c2 *ictx) { fr.trace(v, c2) }) {
		return
	}
	fr.fail(c, "result of the call "+c.String())
}

func originName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.Name()
	}
	return f.Name()
}

func relRecv(f *ssa.Function) string {
	t := f.Signature.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// bigFuncShape: a dynamic call of type func(*big.T, ...) *big.T.
func bigFuncShape(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() || cc.StaticCallee() != nil {
		return false
	}
	sig, ok := cc.Value.Type().Underlying().(*types.Signature)
	if !ok || sig.Params().Len() == 0 || sig.Results().Len() == 0 {
		return false
	}
	return isBigType(sig.Params().At(0).Type()) && types.Identical(sig.Params().At(0).Type(), sig.Results().At(0).Type())
}

// capLimited: s[a:b:b] or a nil/empty literal; appending to it always reallocates.
func capLimited(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		if x.Max != nil && x.High != nil {
			if x.Max == x.High {
				return true
			}
			if a, ok := constInt(x.Max); ok {
				if b, ok := constInt(x.High); ok && a == b {
					return true
				}
			}
		}
	}
	return false
}

// storedHere finds the store to the global that this function has just made before the load.
func (fr *freshener) storedHere(g *ssa.Global, at ssa.Instruction) *ssa.Store {
	f := at.Parent()
	cf := fr.p.cfg(f)
	var best *ssa.Store
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			if cf.instrDominates(st, at) && (best == nil || cf.instrDominates(best, st)) {
				best = st
			}
		}
	}
	if best == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g && st != best && cf.reachableFrom(best, st) && cf.reachableFrom(st, at) {
				return nil
			}
		}
	}
	return best
}

// constOp resolves a call of Context.EvalUnary/EvalBinary with a constant built-in operator that users
// cannot redefine (it is not an identifier) to the table entries it can reach.
func (p *Prog) constOp(c ssa.CallInstruction) ([]*ssa.Function, []ssa.Value) {
	cc := c.Common()
	name := ""
	var args []ssa.Value
	if cc.IsInvoke() {
		name = cc.Method.Name()
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		name = f.Name()
		args = cc.Args
	}
	var e *opEntry
	var operands []ssa.Value
	switch {
	case cc.IsInvoke() && p.tableEntry(cc.Value) != nil:
		e = p.tableEntry(cc.Value)
		operands = cc.Args[1:]
		args = args[1:]
	case name == "EvalUnary" && len(args) == 3:
		op, ok := constStr(args[1])
		if !ok {
			return nil, nil
		}
		if e = p.opTables().unary[op]; e == nil || isIdent(op) {
			return nil, nil
		}
		operands = []ssa.Value{args[2]}
	case name == "EvalBinary" && len(args) == 4:
		op, ok := constStr(args[2])
		if !ok {
			return nil, nil
		}
		if e = p.opTables().binary[op]; e == nil || isIdent(op) {
			return nil, nil
		}
		operands = []ssa.Value{args[1], args[3]}
	default:
		return nil, nil
	}
	kinds := kindNames
	if len(operands) == 1 {
		if k := p.kindOfValue(operands[0]); k != "" {
			kinds = []string{k}
		}
	}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, k := range kinds {
		f := e.fn[k]
		if f == nil && e.elementwise {
			switch {
			case k == "vector" && e.binary:
				f = p.fn("value", "binaryVectorOp")
			case k == "vector":
				f = p.fn("value", "unaryVectorOp")
			case k == "matrix" && e.binary:
				f = p.fn("value", "binaryMatrixOp")
			case k == "matrix":
				f = p.fn("value", "unaryMatrixOp")
			}
		}
		if f != nil && !seen[f] {
			seen[f] = true
			fns = append(fns, f)
		}
	}
	if len(fns) == 0 {
		return nil, nil
	}
	out := []ssa.Value{args[0]}
	if !e.binary {
		out = append(out, operands[0])
	} else {
		// Operands are promoted before the entry runs; their identity is not tracked further.
		out = append(out, operands...)
	}
	return fns, out
}

// tableEntry resolves UnaryOps["op"] or BinaryOps["op"] with a constant operator.
func (p *Prog) tableEntry(v ssa.Value) *opEntry {
	if ta, ok := v.(*ssa.TypeAssert); ok {
		v = ta.X
	}
	l, ok := v.(*ssa.Lookup)
	if !ok || l.CommaOk {
		return nil
	}
	op, ok := constStr(l.Index)
	if !ok {
		return nil
	}
	u, ok := l.X.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg.Pkg.Name() != "value" {
		return nil
	}
	switch g.Name() {
	case "UnaryOps":
		return p.opTables().unary[op]
	case "BinaryOps":
		return p.opTables().binary[op]
	}
	return nil
}

func isIdent(s string) bool {
	for _, r := range s {
		return r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r > 127
	}
	return false
}

var kindTypeNames = map[string]string{"Int": "int", "Char": "char", "BigInt": "bigInt", "BigRat": "bigRat", "BigFloat": "bigFloat", "Complex": "complex", "Vector": "vector", "Matrix": "matrix"}

// kindOfValue: the kind of an interface value built from a concrete kind, or "".
func (p *Prog) kindOfValue(v ssa.Value) string {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return ""
	}
	t := mi.X.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/value" {
		return kindTypeNames[n.Obj().Name()]
	}
	return ""
}
