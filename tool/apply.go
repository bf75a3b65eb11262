package main

// Which operator is applied to which elements: terms over elements with
// polynomial indexes, and the places they are stored.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A term is an element, an application, a fold over a loop, a part of a sequence, or opaque.
type term struct {
	kind string // "elem", "app", "fold", "hole", "reduce", "whole", "opaque"
	seq  string
	idx  poly // elem
	lo   poly // part
	hi   poly
	op   string
	args []*term
	loop *sloop // fold
	key  string
	side int  // fold: which operand is the accumulator
	late bool // fold: the loop includes the first element
}

func (t *term) String() string {
	switch t.kind {
	case "elem":
		return fmt.Sprintf("%s[%s]", t.seq, t.idx)
	case "app", "reduce":
		var as []string
		for _, a := range t.args {
			as = append(as, a.String())
		}
		return fmt.Sprintf("%s%s(%s)", strings.TrimPrefix(t.kind, "app"), t.op, strings.Join(as, ", "))
	case "part":
		return fmt.Sprintf("%s[%s:%s]", t.seq, t.lo, t.hi)
	case "fold":
		return fmt.Sprintf("fold(%s, side %d, first %s, then %s)", t.op, t.side, t.args[0], t.args[1])
	case "whole":
		return t.seq
	}
	return t.kind + " " + t.key
}

func termEq(a, b *term) bool {
	if a.kind != b.kind || a.seq != b.seq || a.op != b.op || a.key != b.key || a.side != b.side || a.late != b.late || len(a.args) != len(b.args) || a.loop != b.loop {
		return false
	}
	if !peq(a.idx, b.idx) || !peq(a.lo, b.lo) || !peq(a.hi, b.hi) {
		return false
	}
	for i := range a.args {
		if !termEq(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func (ap *applier) substTerm(t *term, x string, by poly) *term {
	n := *t
	n.idx, n.lo, n.hi = ap.s.subst(t.idx, x, by), ap.s.subst(t.lo, x, by), ap.s.subst(t.hi, x, by)
	n.args = nil
	for _, a := range t.args {
		n.args = append(n.args, ap.substTerm(a, x, by))
	}
	return &n
}

func (ap *applier) termMentions(t *term, x string) bool {
	for _, q := range []poly{t.idx, t.lo, t.hi} {
		if ap.s.mentions(q, x) {
			return true
		}
	}
	for _, a := range t.args {
		if ap.termMentions(a, x) {
			return true
		}
	}
	return false
}

// A sink is a place a term is stored or returned.
type sink struct {
	kind string // "set", "append", "return"
	ed   string // the editor written
	edv  ssa.Value
	edc  *ictx
	idx  poly
	t    *term
	in   ssa.Instruction
	ctx  *ictx
}

type applier struct {
	p       *Prog
	s       *scev
	root    *ssa.Function
	roles   map[*ssa.Parameter]string
	entries map[*ssa.Function]string // functions summarised by name instead of being entered
	apps    map[*ssa.Function]bool
	sinks   []*sink
	walked  map[ictxFn]bool
	busy    map[scevKey]bool
	evals   []appSite // every application of a computed operator
}

type ictxFn struct {
	c *ictx
	f *ssa.Function
}

type appSite struct {
	in  *ssa.Call
	ctx *ictx
}

func newApplier(p *Prog, root *ssa.Function) *applier {
	ap := &applier{p: p, s: newScev(p), root: root, roles: map[*ssa.Parameter]string{}, entries: map[*ssa.Function]string{},
		apps: p.appliers(), walked: map[ictxFn]bool{}, busy: map[scevKey]bool{}}
	var vals []*ssa.Parameter
	for _, prm := range root.Params {
		if isValueIface(prm.Type()) {
			vals = append(vals, prm)
		}
	}
	switch len(vals) {
	case 1:
		ap.roles[vals[0]] = "R"
	case 2:
		ap.roles[vals[0]], ap.roles[vals[1]] = "L", "R"
	}
	ap.s.lenOf = ap.lenOf
	ap.s.loadOf = ap.loadOf
	ap.s.elemOf = ap.elemOf
	ap.s.divOf = ap.divOf
	return ap
}

// evalCall recognises the application of an operator through the context.
func (p *Prog) evalCall(c *ssa.CallCommon) (op ssa.Value, args []ssa.Value, ok bool) {
	if !c.IsInvoke() {
		return nil, nil, false
	}
	ctxI := p.namedType("value", "Context")
	if n := namedOf(c.Value.Type()); n == nil || ctxI == nil || n.Obj() != ctxI.Obj() {
		return nil, nil, false
	}
	switch c.Method.Name() {
	case "EvalUnary":
		return c.Args[0], []ssa.Value{c.Args[1]}, true
	case "EvalBinary":
		return c.Args[1], []ssa.Value{c.Args[0], c.Args[2]}, true
	}
	return nil, nil, false
}

var appliersMemo map[*ssa.Function]bool

// appliers: the functions of package value that apply a computed operator, themselves or through
// functions they call or closures they make.
func (p *Prog) appliers() map[*ssa.Function]bool {
	if appliersMemo != nil {
		return appliersMemo
	}
	m := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcs {
			if relPkg(f) != "value" || m[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					hit := false
					switch x := in.(type) {
					case *ssa.Call:
						if op, _, ok := p.evalCall(&x.Call); ok {
							if _, c := constStr(op); !c {
								hit = true
							}
						}
						if cf := x.Call.StaticCallee(); cf != nil && m[cf] {
							hit = true
						}
					case *ssa.MakeClosure:
						if cf, ok := x.Fn.(*ssa.Function); ok && m[cf] {
							hit = true
						}
					}
					if hit && !m[f] {
						m[f], ch = true, true
					}
				}
			}
		}
	}
	appliersMemo = m
	return m
}

// parFor recognises a helper that calls its function argument with ranges of [0, n):
// it returns the positions of n and of the function among the parameters.
func (p *Prog) parFor(f *ssa.Function) (n, fn int, ok bool) {
	n, fn = -1, -1
	for i, prm := range f.Params {
		if sg, ok := prm.Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 2 && sg.Results().Len() == 0 &&
			isIntType(sg.Params().At(0).Type()) && isIntType(sg.Params().At(1).Type()) {
			fn = i
		}
	}
	if fn < 0 {
		return
	}
	deref := func(v ssa.Value) ssa.Value {
		if u, ok := v.(*ssa.UnOp); ok {
			if w, ok := loadedValue(u); ok {
				return w
			}
		}
		return v
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && deref(c.Call.Value) == f.Params[fn] {
				if z, ok := constInt(c.Call.Args[0]); ok && z == 0 {
					for i, prm := range f.Params {
						if deref(c.Call.Args[1]) == prm {
							return i, fn, true
						}
					}
				}
			}
		}
	}
	return -1, -1, false
}

func recvNamed(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil {
		return ""
	}
	if n := namedOf(f.Signature.Recv().Type()); n != nil {
		return n.Obj().Name()
	}
	return ""
}

func (ap *applier) method(c *ssa.Call) (typ, name string) {
	f := c.Call.StaticCallee()
	if f == nil || relPkg(f) != "value" {
		return "", ""
	}
	return recvNamed(f), f.Name()
}

// seq names the sequence or matrix a value denotes.
func (ap *applier) seq(v ssa.Value, ctx *ictx) string { return ap.seqN(v, ctx, 0) }

func (ap *applier) seqN(v ssa.Value, ctx *ictx, d int) string {
	if d > 30 {
		return uniq(v)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if r := ap.roles[x]; r != "" {
			return r
		}
		if a, c, ok := ctx.argOf(x); ok {
			return ap.seqN(a, c, d+1)
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return ap.seqN(b, ctx, d+1)
		}
	case *ssa.TypeAssert:
		return ap.seqN(x.X, ctx, d+1)
	case *ssa.MakeInterface:
		return ap.seqN(x.X, ctx, d+1)
	case *ssa.ChangeInterface:
		return ap.seqN(x.X, ctx, d+1)
	case *ssa.ChangeType:
		return ap.seqN(x.X, ctx, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return ap.seqN(ta.X, ctx, d+1)
		}
		if w, c2 := ap.oneOf(x, ctx); w != nil {
			return ap.seqN(w, c2, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w, ok := loadedValue(x); ok {
				return ap.seqN(w, ctx, d+1)
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return ap.seqN(fa.X, ctx, d+1) + "." + fieldName(fa.X.Type(), fa.Field)
			}
		}
	case *ssa.Phi:
		s := ""
		for i, e := range x.Edges {
			if !ap.p.cfg(x.Parent()).reach[x.Block().Preds[i].Index] || e == v {
				continue
			}
			k := ap.seqN(e, ctx, d+8)
			if s != "" && k != s {
				return fmt.Sprintf("%s@%d", uniq(v), ap.s.id(ctx))
			}
			s = k
		}
		if s != "" {
			return s
		}
	case *ssa.Slice:
		base := ap.seqN(x.X, ctx, d+1)
		lo, hi := pconst(0), ap.length(base)
		if x.Low != nil {
			lo = ap.s.eval(x.Low, ctx)
		}
		if x.High != nil {
			hi = ap.s.eval(x.High, ctx)
		}
		if n, ok := lo.isConst(); ok && n == 0 && peq(hi, ap.length(base)) {
			return base
		}
		return fmt.Sprintf("%s[%s:%s]", base, lo, hi)
	case *ssa.Call:
		if x.Call.IsInvoke() {
			if x.Call.Method.Name() == "toType" || x.Call.Method.Name() == "Inner" {
				return ap.seqN(x.Call.Value, ctx, d+1)
			}
			break
		}
		f := x.Call.StaticCallee()
		if f == nil {
			break
		}
		if f.Name() == "toType" && f.Signature.Recv() != nil {
			return ap.seqN(x.Call.Args[0], ctx, d+1)
		}
		if w := trivialResult(f); w != nil && recvNamed(f) != "vectorEditor" && f.Name() != "edit" {
			if n, _ := ctx.count(f); n == 0 {
				return ap.seqN(w, ctx.enter(x, f), d+1)
			}
		}
	}
	ctx = ownCtx(v, ctx)
	k := ap.p.key(v, ctx)
	if strings.HasPrefix(k, "<") {
		k = fmt.Sprintf("%s@%d", k, ap.s.id(ctx))
	}
	return k
}

// oneOf: one of the results of a call of a function of package value that returns at one place.
func (ap *applier) oneOf(x *ssa.Extract, ctx *ictx) (ssa.Value, *ictx) {
	c, ok := x.Tuple.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || relPkg(f) != "value" {
		return nil, nil
	}
	if n, _ := ctx.count(f); n > 0 {
		return nil, nil
	}
	var one ssa.Value
	g := ap.p.cfg(f)
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !g.live(r) {
			continue
		}
		if one != nil || x.Index >= len(r.Results) {
			return nil, nil
		}
		one = r.Results[x.Index]
	}
	if one == nil {
		return nil, nil
	}
	return one, ctx.enter(c, f)
}

// length is the length of a named sequence; a matrix's data has as many elements as its shape says.
func (ap *applier) length(seq string) poly { return patom("len(" + seq + ")") }

// sizeOf is the product of a named shape.
func (ap *applier) sizeOf(shape string) poly {
	if m, ok := strings.CutSuffix(shape, ".shape"); ok {
		return ap.length(m + ".data")
	}
	if i := strings.LastIndex(shape, ".shape["); i > 0 {
		m, rank := shape[:i], ap.length(shape[:i]+".shape")
		switch shape[i+6:] {
		case fmt.Sprintf("[1:%s]", rank):
			return patom("rest(" + m + ")")
		case fmt.Sprintf("[0:%s]", padd(rank, pconst(-1))):
			return patom("rows(" + m + ")")
		}
	}
	return patom("size(" + shape + ")")
}

// simplify uses first·rest = len and rows·last = len.
func (ap *applier) lenOf(v ssa.Value, ctx *ictx) (poly, bool) {
	x, ok := v.(*ssa.Call)
	if !ok || x.Call.IsInvoke() {
		return nil, false
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			if sl, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok && isIntType(sl.Elem()) {
				_, lo, hi := ap.intSlice(x.Call.Args[0], ctx)
				return psub(hi, lo), true
			}
			return ap.length(ap.seq(x.Call.Args[0], ctx)), true
		}
		return nil, false
	}
	typ, name := ap.method(x)
	switch {
	case typ == "Vector" && name == "Len":
		return ap.vecLen(x.Call.Args[0], ctx), true
	case typ == "vectorEditor" && name == "Len":
		if m, ok := ap.edLen(x.Call.Args[0], ctx); ok {
			return m, true
		}
	case typ == "Matrix" && name == "Rank":
		return ap.length(ap.seq(x.Call.Args[0], ctx) + ".shape"), true
	case typ == "Matrix" && name == "Size":
		return ap.length(ap.seq(x.Call.Args[0], ctx) + ".data"), true
	case typ == "" && name == "size":
		return ap.sizeOf(ap.seq(x.Call.Args[0], ctx)), true
	}
	return nil, false
}

func (ap *applier) vecLen(v ssa.Value, ctx *ictx) poly {
	if t := ap.part(v, ctx); t != nil {
		return psub(t.hi, t.lo)
	}
	return ap.length(ap.seq(v, ctx))
}

// resolve follows a value to the instruction that makes it.
func (ap *applier) resolve(v ssa.Value, ctx *ictx) (ssa.Value, *ictx) {
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			a, c, ok := ctx.argOf(x)
			if !ok || ap.roles[x] != "" {
				return v, ctx
			}
			v, ctx = a, c
			continue
		case *ssa.FreeVar:
			b := freeVarBinding(x)
			if b == nil {
				return v, ctx
			}
			v = b
			continue
		case *ssa.UnOp:
			if w, ok := loadedValue(x); ok {
				v = w
				continue
			}
			// One of several stores: the one that reaches is unknown unless all agree.
			return v, ctx
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.TypeAssert:
			if !x.CommaOk {
				v = x.X
				continue
			}
		case *ssa.Phi:
			var one ssa.Value
			n := 0
			for i, e := range x.Edges {
				if ap.p.cfg(x.Parent()).reach[x.Block().Preds[i].Index] && e != v {
					if one != e {
						n++
					}
					one = e
				}
			}
			if n == 1 {
				v = one
				continue
			}
		}
		return v, ctx
	}
	return v, ctx
}

// ownCtx drops from a context the calls entered after the function that contains the value.
func ownCtx(v ssa.Value, ctx *ictx) *ictx {
	if v.Parent() == nil {
		return ctx
	}
	for c := ctx; c != nil; c = c.parent {
		if c.callee == v.Parent() {
			return c
		}
	}
	return nil
}

func (ap *applier) editor(v ssa.Value, ctx *ictx) (string, ssa.Value, *ictx) {
	w, c := ap.resolve(v, ctx)
	c = ownCtx(w, c)
	if _, ok := w.(*ssa.UnOp); ok {
		if w2, c2, ok := ap.reachingEditor(v, ctx); ok {
			w, c = w2, c2
		}
	}
	return fmt.Sprintf("ed:%s@%d", uniq(w), ap.s.id(c)), w, c
}

// editors: all the editors a value may denote (a variable may be assigned on several paths).
func (ap *applier) editors(v ssa.Value, ctx *ictx) [][2]any {
	w, c := ap.resolve(v, ctx)
	var out [][2]any
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a := rootAlloc(u.X); a != nil {
			for _, st := range storesTo(a) {
				out = append(out, ap.editors(st.Val, c)...)
			}
			return out
		}
	}
	if ph, ok := w.(*ssa.Phi); ok {
		for i, e := range ph.Edges {
			if ap.p.cfg(ph.Parent()).reach[ph.Block().Preds[i].Index] && e != w {
				out = append(out, ap.editors(e, c)...)
			}
		}
		return out
	}
	if k, ok := w.(*ssa.Const); ok && k.Value == nil {
		return nil
	}
	return [][2]any{{w, ownCtx(w, c)}}
}

// edLen is the length an editor was made with.
func (ap *applier) edLen(v ssa.Value, ctx *ictx) (poly, bool) {
	eds := ap.editors(v, ctx)
	if len(eds) != 1 {
		// The editor in use at this point: the store that dominates it last.
		w, c, ok := ap.reachingEditor(v, ctx)
		if !ok {
			return nil, false
		}
		eds = [][2]any{{w, c}}
	}
	c, ok := eds[0][0].(*ssa.Call)
	if !ok {
		return nil, false
	}
	if f := c.Call.StaticCallee(); f != nil && f.Name() == "newVectorEditor" {
		cx, _ := eds[0][1].(*ictx)
		return ap.s.eval(c.Call.Args[0], cx), true
	}
	return nil, false
}

// reachingEditor finds, for a load of a variable assigned on several exclusive paths, the assignment
// that reaches it: the only store in a block dominating the load, or dominating the creation of the
// closure or the call through which the load is reached.
func (ap *applier) reachingEditor(v ssa.Value, ctx *ictx) (ssa.Value, *ictx, bool) {
	w, c := ap.resolve(v, ctx)
	u, ok := w.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil, false
	}
	a := rootAlloc(u.X)
	if a == nil {
		return nil, nil, false
	}
	// The point in the variable's function through which control passes.
	var at ssa.Instruction = u
	cx := c
	for at.Parent() != a.Parent() {
		if cx == nil || cx.call == nil {
			return nil, nil, false
		}
		for cx != nil && cx.callee != at.Parent() {
			cx = cx.parent
		}
		if cx == nil || cx.call == nil {
			return nil, nil, false
		}
		at = cx.call
		cx = cx.parent
	}
	g := ap.p.cfg(a.Parent())
	var best *ssa.Store
	for _, st := range storesTo(a) {
		if st.Parent() != a.Parent() {
			return nil, nil, false
		}
		if g.instrDominates(st, at) {
			if best == nil || g.instrDominates(best, st) {
				best = st
			}
		} else if g.reachableFrom(st, at) {
			return nil, nil, false
		}
	}
	if best == nil {
		return nil, nil, false
	}
	// No other store between.
	w2, c2 := ap.resolve(best.Val, cx)
	return w2, ownCtx(w2, c2), true
}

// part: the value is a vector made of a slice of a sequence.
func (ap *applier) part(v ssa.Value, ctx *ictx) *term {
	w, c := ap.resolve(v, ctx)
	x, ok := w.(*ssa.Call)
	if !ok {
		return nil
	}
	f := x.Call.StaticCallee()
	if f == nil || f.Name() != "NewVectorSeq" || relPkg(f) != "value" {
		return nil
	}
	// A variadic call with one sequence.
	sl, ok := x.Call.Args[0].(*ssa.Slice)
	if !ok {
		return nil
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var elems []ssa.Value
	for _, r := range *arr.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					elems = append(elems, st.Val)
				}
			}
		}
	}
	if len(elems) != 1 {
		return nil
	}
	e, ec := ap.resolve(elems[0], c)
	sc, ok := e.(*ssa.Call)
	if !ok {
		return nil
	}
	if typ, name := ap.method(sc); typ == "Vector" && name == "Slice" {
		return &term{kind: "part", seq: ap.seq(sc.Call.Args[0], ec), lo: ap.s.eval(sc.Call.Args[1], ec), hi: ap.s.eval(sc.Call.Args[2], ec)}
	}
	return nil
}

// intSlice follows slicing of a slice of integers to its base and the part taken.
func (ap *applier) intSlice(v ssa.Value, ctx *ictx) (base string, lo, hi poly) {
	w, c := ap.resolve(v, ctx)
	if call, ok := w.(*ssa.Call); ok {
		if f := call.Call.StaticCallee(); f != nil {
			if t := trivialResult(f); t != nil {
				if n, _ := c.count(f); n == 0 {
					return ap.intSlice(t, c.enter(call, f))
				}
			}
		}
	}
	if x, ok := w.(*ssa.Slice); ok {
		if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl {
			b, l, h := ap.intSlice(x.X, c)
			if x.High != nil {
				h = padd(l, ap.s.eval(x.High, c))
			}
			if x.Low != nil {
				l = padd(l, ap.s.eval(x.Low, c))
			}
			return b, l, h
		}
	}
	base = ap.seq(w, c)
	return base, poly{}, ap.length(base)
}

// loadOf names an element of a slice of integers.
func (ap *applier) loadOf(x *ssa.UnOp, ctx *ictx) (poly, bool) {
	ia, ok := x.X.(*ssa.IndexAddr)
	if !ok || !isIntType(x.Type()) {
		return nil, false
	}
	base, lo, _ := ap.intSlice(ia.X, ctx)
	if !strings.HasSuffix(base, ".shape") {
		return nil, false
	}
	return ap.s.elem(base, padd(lo, ap.s.eval(ia.Index, ctx))), true
}

// elemOf names the first and the last element of a shape.
func (ap *applier) elemOf(seq string, idx poly) (poly, bool) {
	m, ok := strings.CutSuffix(seq, ".shape")
	if !ok {
		return nil, false
	}
	if n, ok := idx.isConst(); ok && n == 0 {
		return patom("first(" + m + ")"), true
	}
	if peq(idx, padd(ap.length(seq), pconst(-1))) {
		return patom("last(" + m + ")"), true
	}
	return nil, false
}

// divOf: the length of a matrix's data divided by its first or last dimension.
func (ap *applier) divOf(a, b poly) (poly, bool) {
	if len(a) != 1 || len(b) != 1 {
		return nil, false
	}
	for m, c := range a {
		for n, d := range b {
			if c != 1 || d != 1 {
				return nil, false
			}
			x, ok := strings.CutPrefix(m, "len(")
			x, ok2 := strings.CutSuffix(x, ".data)")
			if !ok || !ok2 {
				return nil, false
			}
			switch n {
			case "first(" + x + ")":
				return patom("rest(" + x + ")"), true
			case "last(" + x + ")":
				return patom("rows(" + x + ")"), true
			}
		}
	}
	return nil, false
}

// term evaluates a value to the elements and applications it is made of.
func (ap *applier) term(v ssa.Value, ctx *ictx) *term {
	ctx = ownCtx(v, ctx)
	k := scevKey{v, ctx}
	if ap.busy[k] {
		return &term{kind: "hole", key: fmt.Sprintf("%s@%d", uniq(v), ap.s.id(ctx))}
	}
	ap.busy[k] = true
	t := ap.term1(v, ctx)
	delete(ap.busy, k)
	return t
}

func (ap *applier) opaque(v ssa.Value, ctx *ictx) *term {
	return &term{kind: "opaque", key: ap.seq(v, ctx)}
}

func (ap *applier) term1(v ssa.Value, ctx *ictx) *term {
	switch x := v.(type) {
	case *ssa.Parameter:
		if r := ap.roles[x]; r != "" {
			return &term{kind: "whole", seq: r}
		}
		if a, c, ok := ctx.argOf(x); ok {
			return ap.term(a, c)
		}
	case *ssa.MakeInterface:
		return ap.term(x.X, ctx)
	case *ssa.ChangeInterface:
		return ap.term(x.X, ctx)
	case *ssa.TypeAssert:
		return ap.term(x.X, ctx)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w, ok := loadedValue(x); ok {
				return ap.term(w, ctx)
			}
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return ap.term(ta.X, ctx)
		}
		if w, c2 := ap.oneOf(x, ctx); w != nil {
			return ap.term(w, c2)
		}
	case *ssa.Phi:
		return ap.phiTerm(x, ctx)
	case *ssa.Call:
		if op, args, ok := ap.p.evalCall(&x.Call); ok {
			t := &term{kind: "app", op: ap.p.key(op, ctx)}
			for _, a := range args {
				t.args = append(t.args, ap.term(a, ctx))
			}
			return t
		}
		if x.Call.IsInvoke() {
			switch x.Call.Method.Name() {
			case "Inner", "toType":
				return ap.term(x.Call.Value, ctx)
			}
			return ap.opaque(v, ctx)
		}
		f := ap.calleeOf(x, ctx)
		if f == nil {
			return ap.opaque(v, ctx)
		}
		switch typ, name := ap.method(x); {
		case typ == "Vector" && name == "At":
			if t := ap.part(x.Call.Args[0], ctx); t != nil {
				return &term{kind: "elem", seq: t.seq, idx: padd(t.lo, ap.s.eval(x.Call.Args[1], ctx))}
			}
			return &term{kind: "elem", seq: ap.seq(x.Call.Args[0], ctx), idx: ap.s.eval(x.Call.Args[1], ctx)}
		case typ == "vectorEditor" && name == "At":
			ed, _, _ := ap.editor(x.Call.Args[0], ctx)
			return &term{kind: "elem", seq: ed, idx: ap.s.eval(x.Call.Args[1], ctx)}
		}
		if n := ap.entries[f]; n != "" {
			// The operator and the operand of another construct.
			t := &term{kind: n}
			for i, prm := range f.Params {
				if isString(prm.Type()) {
					t.op = ap.p.key(x.Call.Args[i], ctx)
				}
				if isValueIface(prm.Type()) {
					if pt := ap.part(x.Call.Args[i], ctx); pt != nil {
						t.args = append(t.args, pt)
					} else {
						t.args = append(t.args, ap.term(x.Call.Args[i], ctx))
					}
				}
			}
			return t
		}
		if pt := ap.part(v, ctx); pt != nil {
			return pt
		}
		if ap.apps[f] || trivialResult(f) != nil || x.Call.StaticCallee() == nil {
			if n, _ := ctx.count(f); n == 0 {
				// The value returned, if all returns agree.
				var t *term
				g := ap.p.cfg(f)
				c2 := ctx.enter(x, f)
				for _, b := range f.Blocks {
					r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok || !g.live(r) || len(r.Results) != 1 {
						continue
					}
					u := ap.term(r.Results[0], c2)
					if t != nil && !termEq(t, u) {
						return ap.opaque(v, ctx)
					}
					t = u
				}
				if t != nil {
					return t
				}
			}
		}
	}
	return ap.opaque(v, ctx)
}

func (ap *applier) rotated(init, last *term, from *ssa.BasicBlock, ctx *ictx) *term {
	if last.kind != "app" || len(last.args) != 2 {
		return nil
	}
	for side, f := range last.args {
		if f.kind == "fold" && f.op == last.op && f.side == side && termEq(f.args[0], init) && termEq(f.args[1], last.args[1-side]) &&
			f.loop != nil && len(f.loop.latch) == 1 && f.loop.latch[0] == from {
			return f
		}
	}
	return nil
}

func (ap *applier) phiTerm(x *ssa.Phi, ctx *ictx) *term {
	ctx = ownCtx(x, ctx)
	g := ap.p.cfg(x.Parent())
	var sh *loopShape
	for _, l := range ap.s.loopsOf(x.Parent()) {
		if l.header == x.Block() {
			sh = l
		}
	}
	var init, step *term
	if sh != nil {
		if t := ap.lateFold(x, sh, ctx); t != nil {
			return t
		}
		// The value in one iteration is described by the one before, whatever is being evaluated.
		save := ap.busy
		ap.busy = map[scevKey]bool{}
		for k := range save {
			if _, ok := k.v.(*ssa.Phi); ok {
				ap.busy[k] = true
			}
		}
		defer func() { ap.busy = save }()
	}
	for i, e := range x.Edges {
		pb := x.Block().Preds[i]
		if !g.reach[pb.Index] {
			continue
		}
		t := ap.term(e, ctx)
		if sh == nil && init != nil {
			// After a loop with the test at its end: the start if there was no iteration, otherwise what the
			// last one made.
			if f := ap.rotated(init, t, pb, ctx); f != nil {
				init = f
				continue
			}
			if f := ap.rotated(t, init, x.Block().Preds[0], ctx); f != nil && i == 1 {
				init = f
				continue
			}
		}
		dst := &init
		if sh != nil && sh.body[pb] {
			dst = &step
		}
		if *dst != nil && !termEq(*dst, t) {
			return ap.opaque(x, ctx)
		}
		*dst = t
	}
	if sh == nil {
		if init != nil {
			return init
		}
		return ap.opaque(x, ctx)
	}
	if init == nil || step == nil {
		return ap.opaque(x, ctx)
	}
	hole := fmt.Sprintf("%s@%d", uniq(x), ap.s.id(ctx))
	if step.kind == "hole" && step.key == hole {
		return init
	}
	if step.kind != "app" || len(step.args) != 2 {
		return ap.opaque(x, ctx)
	}
	for side, a := range step.args {
		if a.kind == "hole" && a.key == hole {
			return &term{kind: "fold", op: step.op, side: side, args: []*term{init, step.args[1-side]}, loop: ap.s.loopAt(x.Parent(), sh, ctx)}
		}
	}
	return ap.opaque(x, ctx)
}

// lateFold: the accumulated value is nil at first; the first iteration makes it the element, the
// others apply the operator.
func (ap *applier) lateFold(x *ssa.Phi, sh *loopShape, ctx *ictx) *term {
	var back ssa.Value
	g := ap.p.cfg(x.Parent())
	for i, e := range x.Edges {
		pb := x.Block().Preds[i]
		if !g.reach[pb.Index] {
			continue
		}
		if !sh.body[pb] {
			if !isNilConst(e) {
				return nil
			}
			continue
		}
		if back != nil && back != e {
			return nil
		}
		back = e
	}
	y, ok := back.(*ssa.Phi)
	if !ok || !sh.body[y.Block()] || y == x {
		return nil
	}
	var first, step *term
	hole := fmt.Sprintf("%s@%d", uniq(x), ap.s.id(ctx))
	key := scevKey{v: x, ctx: ctx}
	save := ap.busy
	ap.busy = map[scevKey]bool{key: true}
	for k := range save {
		if _, ok := k.v.(*ssa.Phi); ok {
			ap.busy[k] = true
		}
	}
	defer func() { ap.busy = save }()
	for i, e := range y.Edges {
		pb := y.Block().Preds[i]
		if !g.reach[pb.Index] {
			continue
		}
		isNil, notNil := false, false
		cm, _ := ap.p.expand(ap.p.edgeFacts(pb, y.Block(), nil))
		for _, k := range cm {
			if k.x == ssa.Value(x) && isNilConst(k.y) || k.y == ssa.Value(x) && isNilConst(k.x) {
				isNil = isNil || k.op == token.EQL
				notNil = notNil || k.op == token.NEQ
			}
		}
		t := ap.term(e, ctx)
		switch {
		case isNil && first == nil:
			first = t
		case notNil && step == nil:
			step = t
		default:
			return nil
		}
	}
	if first == nil || step == nil || step.kind != "app" || len(step.args) != 2 || first.kind == "opaque" {
		return nil
	}
	for side, a := range step.args {
		if a.kind == "hole" && a.key == hole && termEq(step.args[1-side], first) {
			return &term{kind: "fold", op: step.op, side: side, late: true, args: []*term{first, first}, loop: ap.s.loopAt(x.Parent(), sh, ctx)}
		}
	}
	return nil
}

// walk collects the sinks of a function and of what it calls.
func (ap *applier) walk(f *ssa.Function, ctx *ictx, top bool) {
	if ap.walked[ictxFn{ctx, f}] {
		return
	}
	ap.walked[ictxFn{ctx, f}] = true
	g := ap.p.cfg(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if !g.live(in) {
				continue
			}
			switch x := in.(type) {
			case *ssa.Return:
				if top && len(x.Results) == 1 {
					ap.sinks = append(ap.sinks, &sink{kind: "return", t: ap.term(x.Results[0], ctx), in: x, ctx: ctx})
				}
			case *ssa.Call:
				if _, _, ok := ap.p.evalCall(&x.Call); ok {
					ap.evals = append(ap.evals, appSite{x, ctx})
					continue
				}
				if x.Call.IsInvoke() {
					continue
				}
				cf := ap.calleeOf(x, ctx)
				if cf == nil {
					continue
				}
				switch typ, name := ap.method(x); {
				case typ == "vectorEditor" && name == "Set":
					ed, ev, ec := ap.editor(x.Call.Args[0], ctx)
					ap.sinks = append(ap.sinks, &sink{kind: "set", ed: ed, edv: ev, edc: ec, idx: ap.s.eval(x.Call.Args[1], ctx), t: ap.term(x.Call.Args[2], ctx), in: x, ctx: ctx})
					continue
				case typ == "vectorEditor" && name == "Append":
					ed, ev, ec := ap.editor(x.Call.Args[0], ctx)
					ap.sinks = append(ap.sinks, &sink{kind: "append", ed: ed, edv: ev, edc: ec, t: &term{kind: "opaque"}, in: x, ctx: ctx})
					continue
				}
				if n, fn, ok := ap.p.parFor(cf); ok {
					w, _ := ap.resolve(x.Call.Args[fn], ctx)
					if mc, ok := w.(*ssa.MakeClosure); ok {
						body := mc.Fn.(*ssa.Function)
						c2 := ctx.enter(x, body)
						if c2.args == nil {
							c2.args = make([]ssa.Value, len(body.Params))
						}
						ap.s.ranges[c2] = scevRange{body.Params[0], body.Params[1], x.Call.Args[n], ctx}
						ap.walk(body, c2, false)
					}
					continue
				}
				if ap.entries[cf] != "" || !ap.apps[cf] && !ap.takesApplier(x, ctx) || ctxDepth(ctx) > 12 {
					continue
				}
				if n, _ := ctx.count(cf); n > 0 || cf == ap.root {
					continue
				}
				ap.walk(cf, ctx.enter(x, cf), false)
			}
		}
	}
}

// calleeOf is the function called, also through a function value known in the context.
func (ap *applier) calleeOf(x *ssa.Call, ctx *ictx) *ssa.Function {
	if x.Call.IsInvoke() {
		return nil
	}
	if f := x.Call.StaticCallee(); f != nil {
		return f
	}
	w, _ := ap.resolve(x.Call.Value, ctx)
	switch y := w.(type) {
	case *ssa.MakeClosure:
		return y.Fn.(*ssa.Function)
	case *ssa.Function:
		return y
	}
	return nil
}

// takesApplier: a function value that applies operators is passed.
func (ap *applier) takesApplier(x *ssa.Call, ctx *ictx) bool {
	for _, a := range x.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		w, _ := ap.resolve(a, ctx)
		switch y := w.(type) {
		case *ssa.MakeClosure:
			if ap.apps[y.Fn.(*ssa.Function)] {
				return true
			}
		case *ssa.Function:
			if ap.apps[y] {
				return true
			}
		}
	}
	return false
}

func ctxDepth(c *ictx) int {
	if c == nil {
		return 0
	}
	return c.depth
}

// covers: the sinks' index takes every value of [0, n) as the loops around it run.
func (ap *applier) covers(idx, n poly, loops []*sloop) (string, bool) {
	type dim struct {
		l *sloop
		c poly
		t poly
	}
	rest := idx
	var dims []dim
	for _, l := range loops {
		c, r, lin := rest.coeff(l.atom)
		if !lin {
			return "the index is not linear in the loop", false
		}
		if len(c) == 0 {
			if ap.s.mentions(idx, l.atom) {
				return "the index is not linear in the loop", false
			}
			return "the index does not depend on an enclosing loop", false
		}
		t := ap.s.trip(l)
		if !t.ok || t.n == nil {
			return "the number of iterations is not known", false
		}
		if k, ok := c.isConst(); ok && k < 0 || !ok && onlyNegative(c) {
			// Counting down: reverse.
			c = pscale(c, -1)
			r = psub(r, pmul(c, padd(t.n, pconst(-1))))
		}
		dims = append(dims, dim{l, c, t.n})
		rest = r
	}
	if len(rest) != 0 {
		return fmt.Sprintf("the index starts at %s", rest), false
	}
	want := pconst(1)
	for len(dims) > 0 {
		hit := -1
		for i, d := range dims {
			if peq(d.c, want) {
				hit = i
			}
		}
		if hit < 0 {
			return "the index skips elements", false
		}
		want = pmul(want, dims[hit].t)
		dims = append(dims[:hit:hit], dims[hit+1:]...)
	}
	if !peq(ap.norm(want), ap.norm(n)) {
		return fmt.Sprintf("the index runs over %s elements of %s", want, n), false
	}
	return "", true
}

func onlyNegative(c poly) bool {
	for _, k := range c {
		if k > 0 {
			return false
		}
	}
	return len(c) > 0
}

// norm rewrites first·rest and rows·last to the length of the data.
func (ap *applier) norm(a poly) poly {
	out := poly{}
	for m, c := range a {
		t := pconst(c)
		if m != "" {
			xs := strings.Split(m, polySep)
			used := make([]bool, len(xs))
			for i, x := range xs {
				for j, y := range xs {
					if i == j || used[i] || used[j] {
						continue
					}
					for _, pr := range [][2]string{{"first(", "rest("}, {"rows(", "last("}} {
						a, ok1 := strings.CutPrefix(x, pr[0])
						b, ok2 := strings.CutPrefix(y, pr[1])
						if ok1 && ok2 && a == b {
							used[i], used[j] = true, true
							t = pmul(t, ap.length(strings.TrimSuffix(a, ")")+".data"))
						}
					}
				}
			}
			for i, x := range xs {
				if !used[i] {
					t = pmul(t, patom(x))
				}
			}
		}
		out = padd(out, t)
	}
	return out
}
