package main

// Scalar evolution: integer values as polynomials over loop counters and
// loop-invariant quantities, in inlining contexts, and element terms built on them.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A poly maps a monomial (its atoms sorted and joined by polySep) to a coefficient.
type poly map[string]int64

const polySep = "\x00"

func pconst(n int64) poly {
	if n == 0 {
		return poly{}
	}
	return poly{"": n}
}

func patom(a string) poly { return poly{a: 1} }

func padd(a, b poly) poly {
	out := poly{}
	for m, c := range a {
		out[m] = c
	}
	for m, c := range b {
		out[m] += c
		if out[m] == 0 {
			delete(out, m)
		}
	}
	return out
}

func pscale(a poly, n int64) poly {
	out := poly{}
	if n == 0 {
		return out
	}
	for m, c := range a {
		out[m] = c * n
	}
	return out
}

func psub(a, b poly) poly { return padd(a, pscale(b, -1)) }

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	x := append(strings.Split(a, polySep), strings.Split(b, polySep)...)
	sort.Strings(x)
	return strings.Join(x, polySep)
}

func pmul(a, b poly) poly {
	out := poly{}
	for m, c := range a {
		for n, d := range b {
			k := monoMul(m, n)
			out[k] += c * d
			if out[k] == 0 {
				delete(out, k)
			}
		}
	}
	return out
}

func peq(a, b poly) bool {
	if len(a) != len(b) {
		return false
	}
	for m, c := range a {
		if b[m] != c {
			return false
		}
	}
	return true
}

func (a poly) isConst() (int64, bool) {
	if len(a) == 0 {
		return 0, true
	}
	if c, ok := a[""]; ok && len(a) == 1 {
		return c, true
	}
	return 0, false
}

func (a poly) String() string {
	if len(a) == 0 {
		return "0"
	}
	var ks []string
	for m := range a {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	s := ""
	for _, m := range ks {
		c := a[m]
		if s != "" {
			s += "+"
		}
		switch {
		case m == "":
			s += fmt.Sprint(c)
		case c == 1:
			s += strings.ReplaceAll(m, polySep, "·")
		default:
			s += fmt.Sprintf("%d·%s", c, strings.ReplaceAll(m, polySep, "·"))
		}
	}
	return s
}

// atoms lists the atoms of a polynomial.
func (a poly) atoms() []string {
	seen := map[string]bool{}
	var out []string
	for m := range a {
		if m == "" {
			continue
		}
		for _, x := range strings.Split(m, polySep) {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	sort.Strings(out)
	return out
}

// coeff writes a as c·x + r where x does not occur in c or r as a plain atom.
func (a poly) coeff(x string) (c, r poly, linear bool) {
	c, r, linear = poly{}, poly{}, true
	for m, k := range a {
		n := 0
		var rest []string
		if m != "" {
			for _, y := range strings.Split(m, polySep) {
				if y == x {
					n++
				} else {
					rest = append(rest, y)
				}
			}
		}
		switch n {
		case 0:
			r[m] = k
		case 1:
			c[strings.Join(rest, polySep)] += k
		default:
			linear = false
		}
	}
	return
}

// quo is a/b when it divides exactly as polynomials with b a single monomial.
func (a poly) quo(b poly) (poly, bool) {
	if len(b) != 1 {
		return nil, false
	}
	var bm string
	var bc int64
	for bm, bc = range b {
	}
	out := poly{}
	for m, c := range a {
		if c%bc != 0 {
			return nil, false
		}
		rest := []string{}
		if m != "" {
			rest = strings.Split(m, polySep)
		}
		if bm != "" {
			for _, x := range strings.Split(bm, polySep) {
				i := 0
				for i < len(rest) && rest[i] != x {
					i++
				}
				if i == len(rest) {
					return nil, false
				}
				rest = append(append([]string{}, rest[:i]...), rest[i+1:]...)
			}
		}
		out[strings.Join(rest, polySep)] += c / bc
	}
	return out, true
}

type atomInfo struct {
	kind string // "div", "mod", "val", "loop", "elem"
	seq  string
	a, b poly
	v    ssa.Value
	ctx  *ictx
	loop *sloop
}

// A sloop is a natural loop in a function, seen in a context.
type sloop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
	ctx    *ictx
	atom   string
}

type loopShape struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
}

type scev struct {
	p      *Prog
	info   map[string]*atomInfo
	shapes map[*ssa.Function][]*loopShape
	loops  map[string]*sloop
	memo   map[scevKey]poly
	ctxID  map[*ictx]int
	// ranges: closures called by a parallel-for helper with ranges that tile [0, n).
	ranges map[*ictx]scevRange
	busy   map[scevKey]bool
	// seq, when set, names the sequence a value denotes (for lengths).
	lenOf  func(v ssa.Value, ctx *ictx) (poly, bool)
	loadOf func(x *ssa.UnOp, ctx *ictx) (poly, bool)
	elemOf func(seq string, idx poly) (poly, bool)
	divOf  func(a, b poly) (poly, bool)
}

type scevKey struct {
	v   ssa.Value
	ctx *ictx
}

type scevRange struct {
	lo, hi *ssa.Parameter
	n      ssa.Value
	ctx    *ictx
}

func newScev(p *Prog) *scev {
	return &scev{p: p, info: map[string]*atomInfo{}, shapes: map[*ssa.Function][]*loopShape{}, loops: map[string]*sloop{},
		memo: map[scevKey]poly{}, ctxID: map[*ictx]int{nil: 0}, ranges: map[*ictx]scevRange{}, busy: map[scevKey]bool{}}
}

func (s *scev) id(c *ictx) int {
	n, ok := s.ctxID[c]
	if !ok {
		n = len(s.ctxID)
		s.ctxID[c] = n
	}
	return n
}

// loopsOf finds the natural loops of a function, outermost first.
func (s *scev) loopsOf(f *ssa.Function) []*loopShape {
	if l, ok := s.shapes[f]; ok {
		return l
	}
	g := s.p.cfg(f)
	byHeader := map[*ssa.BasicBlock]*loopShape{}
	var out []*loopShape
	for _, b := range f.Blocks {
		if !g.reach[b.Index] {
			continue
		}
		for _, h := range g.succs[b.Index] {
			if !g.dominates(h, b) {
				continue
			}
			l := byHeader[h]
			if l == nil {
				l = &loopShape{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				byHeader[h] = l
				out = append(out, l)
			}
			l.latch = append(l.latch, b)
			var walk func(x *ssa.BasicBlock)
			walk = func(x *ssa.BasicBlock) {
				if l.body[x] {
					return
				}
				l.body[x] = true
				for _, q := range g.preds[x.Index] {
					walk(q)
				}
			}
			walk(b)
		}
	}
	sort.Slice(out, func(i, j int) bool { return len(out[i].body) > len(out[j].body) })
	s.shapes[f] = out
	return out
}

// loopAt gives the loop in a context.
func (s *scev) loopAt(f *ssa.Function, sh *loopShape, ctx *ictx) *sloop {
	name := fmt.Sprintf("#%s.%d@%d", f.Name(), sh.header.Index, s.id(ctx))
	if l := s.loops[name]; l != nil {
		return l
	}
	l := &sloop{fn: f, header: sh.header, body: sh.body, latch: sh.latch, ctx: ctx, atom: name}
	s.loops[name] = l
	s.info[name] = &atomInfo{kind: "loop", loop: l}
	return l
}

// enclosing lists the loops around a block, outermost first.
func (s *scev) enclosing(b *ssa.BasicBlock, ctx *ictx) []*sloop {
	var out []*sloop
	for _, sh := range s.loopsOf(b.Parent()) {
		if sh.body[b] {
			out = append(out, s.loopAt(b.Parent(), sh, ctx))
		}
	}
	return out
}

// chain lists all loops around an instruction and around the calls through which its function was entered.
func (s *scev) chain(b *ssa.BasicBlock, ctx *ictx) []*sloop {
	out := s.enclosing(b, ctx)
	for c := ctx; c != nil; c = c.parent {
		if c.call != nil {
			out = append(s.enclosing(c.call.Block(), c.parent), out...)
		}
	}
	return out
}

func (s *scev) valAtom(v ssa.Value, ctx *ictx) poly {
	ctx = ownCtx(v, ctx)
	k := s.p.key(v, ctx)
	if strings.HasPrefix(k, "<") {
		k = fmt.Sprintf("%s@%d", k, s.id(ctx))
	}
	k = strings.ReplaceAll(k, polySep, "")
	if s.info[k] == nil {
		s.info[k] = &atomInfo{kind: "val", v: v, ctx: ctx}
	}
	return patom(k)
}

func (s *scev) div(a, b poly) poly {
	if q, ok := a.quo(b); ok {
		return q
	}
	if n, ok := b.isConst(); ok && n == 1 {
		return a
	}
	if s.divOf != nil {
		if q, ok := s.divOf(a, b); ok {
			return q
		}
	}
	if q, _, ok := s.split(a, b); ok {
		return q
	}
	k := "div(" + a.String() + "," + b.String() + ")"
	if s.info[k] == nil {
		s.info[k] = &atomInfo{kind: "div", a: a, b: b}
	}
	return patom(k)
}

func (s *scev) mod(a, b poly) poly {
	if _, ok := a.quo(b); ok {
		return poly{}
	}
	if _, r, ok := s.split(a, b); ok {
		return r
	}
	k := "mod(" + a.String() + "," + b.String() + ")"
	if s.info[k] == nil {
		s.info[k] = &atomInfo{kind: "mod", a: a, b: b}
	}
	return patom(k)
}

// split writes a as q·b + r where r is a loop counter known to stay below b.
func (s *scev) split(a, b poly) (q, r poly, ok bool) {
	for _, x := range a.atoms() {
		i := s.info[x]
		if i == nil || i.kind != "loop" {
			continue
		}
		c, rest, lin := a.coeff(x)
		if n, isC := c.isConst(); !lin || !isC || n != 1 || s.mentions(rest, x) {
			continue
		}
		if q, ok := rest.quo(b); ok {
			if t := s.trip(i.loop); t.ok && t.n != nil && peq(t.n, b) {
				return q, patom(x), true
			}
		}
	}
	return nil, nil, false
}

// elem names an element of a sequence of integers.
func (s *scev) elem(seq string, idx poly) poly {
	if s.elemOf != nil {
		if m, ok := s.elemOf(seq, idx); ok {
			return m
		}
	}
	k := seq + "[" + idx.String() + "]"
	if s.info[k] == nil {
		s.info[k] = &atomInfo{kind: "elem", seq: seq, a: idx, b: poly{}}
	}
	return patom(k)
}

// subst replaces an atom by a polynomial, also inside quotients and remainders.
func (s *scev) subst(a poly, x string, by poly) poly {
	out := poly{}
	for m, c := range a {
		t := pconst(c)
		if m != "" {
			for _, y := range strings.Split(m, polySep) {
				switch i := s.info[y]; {
				case y == x:
					t = pmul(t, by)
				case i != nil && i.kind == "div":
					t = pmul(t, s.div(s.subst(i.a, x, by), s.subst(i.b, x, by)))
				case i != nil && i.kind == "mod":
					t = pmul(t, s.mod(s.subst(i.a, x, by), s.subst(i.b, x, by)))
				case i != nil && i.kind == "elem":
					t = pmul(t, s.elem(i.seq, s.subst(i.a, x, by)))
				default:
					t = pmul(t, patom(y))
				}
			}
		}
		out = padd(out, t)
	}
	return out
}

// mentions: the polynomial depends on the atom.
func (s *scev) mentions(a poly, x string) bool {
	for _, y := range a.atoms() {
		if y == x {
			return true
		}
		if i := s.info[y]; i != nil && i.a != nil {
			if s.mentions(i.a, x) || s.mentions(i.b, x) {
				return true
			}
		}
	}
	return false
}

// invariant: the polynomial does not change while the loop runs.
func (s *scev) invariant(a poly, l *sloop) bool {
	for _, y := range a.atoms() {
		i := s.info[y]
		if i == nil {
			continue
		}
		switch i.kind {
		case "loop":
			if i.loop == l {
				return false
			}
			// A loop nested in l is not invariant in it.
			if i.loop.fn == l.fn && i.loop.ctx == l.ctx && l.body[i.loop.header] {
				return false
			}
		case "div", "mod", "elem":
			if !s.invariant(i.a, l) || !s.invariant(i.b, l) {
				return false
			}
		case "val":
			if !s.valInvariant(i.v, i.ctx, l, 0) {
				return false
			}
		}
	}
	return true
}

func (s *scev) valInvariant(v ssa.Value, ctx *ictx, l *sloop, d int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if in.Parent() != l.fn || ctx != l.ctx {
		// Defined in an enclosing function, or in one called from the loop.
		for c := ctx; c != nil; c = c.parent {
			if c.parent == l.ctx && c.call != nil && c.call.Parent() == l.fn && l.body[c.call.Block()] {
				return d < 20 && s.operandsInvariant(in, ctx, l, d)
			}
		}
		return true
	}
	if !l.body[in.Block()] {
		return true
	}
	return d < 20 && s.operandsInvariant(in, ctx, l, d)
}

func (s *scev) operandsInvariant(in ssa.Instruction, ctx *ictx, l *sloop, d int) bool {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.Alloc, *ssa.Next:
		return false
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && !s.p.pure(f) && trivialResult(f) == nil {
			return false
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return false
		}
	}
	var rs []*ssa.Value
	for _, r := range in.Operands(rs) {
		if r != nil && *r != nil && !s.valInvariant(*r, ctx, l, d+1) {
			return false
		}
	}
	return true
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// eval is the integer value as a polynomial.
func (s *scev) eval(v ssa.Value, ctx *ictx) poly {
	ctx = ownCtx(v, ctx)
	k := scevKey{v, ctx}
	if m, ok := s.memo[k]; ok {
		return m
	}
	if s.busy[k] {
		return s.valAtom(v, ctx)
	}
	s.busy[k] = true
	m := s.eval1(v, ctx)
	delete(s.busy, k)
	s.memo[k] = m
	return m
}

func (s *scev) eval1(v ssa.Value, ctx *ictx) poly {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return pconst(n)
			}
		}
	case *ssa.BinOp:
		if !isIntType(x.Type()) {
			break
		}
		switch x.Op {
		case token.ADD:
			return padd(s.eval(x.X, ctx), s.eval(x.Y, ctx))
		case token.SUB:
			return psub(s.eval(x.X, ctx), s.eval(x.Y, ctx))
		case token.MUL:
			return pmul(s.eval(x.X, ctx), s.eval(x.Y, ctx))
		case token.QUO:
			return s.div(s.eval(x.X, ctx), s.eval(x.Y, ctx))
		case token.REM:
			return s.mod(s.eval(x.X, ctx), s.eval(x.Y, ctx))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return pscale(s.eval(x.X, ctx), -1)
		case token.MUL:
			if w, ok := loadedValue(x); ok {
				return s.eval(w, ctx)
			}
			if m, ok := s.loopVar(x, ctx); ok {
				return m
			}
			if s.loadOf != nil {
				if m, ok := s.loadOf(x, ctx); ok {
					return m
				}
			}
		}
	case *ssa.Convert:
		if isIntType(x.Type()) && isIntType(x.X.Type()) {
			return s.eval(x.X, ctx)
		}
	case *ssa.ChangeType:
		return s.eval(x.X, ctx)
	case *ssa.Parameter:
		for c := ctx; c != nil; c = c.parent {
			if rg, ok := s.ranges[c]; ok && c.callee == x.Parent() {
				switch x {
				case rg.lo:
					return poly{}
				case rg.hi:
					return s.eval(rg.n, rg.ctx)
				}
			}
		}
		if a, c, ok := ctx.argOf(x); ok {
			return s.eval(a, c)
		}
	case *ssa.Phi:
		return s.phi(x, ctx)
	case *ssa.Call:
		if s.lenOf != nil {
			if m, ok := s.lenOf(x, ctx); ok {
				return m
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "min" || b.Name() == "max" {
				// Equal arguments only.
				m := s.eval(x.Call.Args[0], ctx)
				for _, a := range x.Call.Args[1:] {
					if !peq(m, s.eval(a, ctx)) {
						return s.valAtom(v, ctx)
					}
				}
				return m
			}
			break
		}
		if f := x.Call.StaticCallee(); f != nil && isIntType(x.Type()) {
			if w := trivialResult(f); w != nil {
				if n, _ := ctx.count(f); n == 0 {
					return s.eval(w, ctx.enter(x, f))
				}
			}
		}
	}
	return s.valAtom(v, ctx)
}

// loopVar: a load of a loop variable that closures capture, so that each iteration has its own cell.
func (s *scev) loopVar(u *ssa.UnOp, ctx *ictx) (poly, bool) {
	addr := u.X
	for {
		fv, ok := addr.(*ssa.FreeVar)
		if !ok {
			break
		}
		if addr = freeVarBinding(fv); addr == nil {
			return nil, false
		}
	}
	ph, ok := addr.(*ssa.Phi)
	if !ok {
		return nil, false
	}
	if _, ok := ph.Type().Underlying().(*types.Pointer); !ok || !isIntType(u.Type()) {
		return nil, false
	}
	ctx = ownCtx(ph, ctx)
	var sh *loopShape
	for _, l := range s.loopsOf(ph.Parent()) {
		if l.header == ph.Block() {
			sh = l
		}
	}
	if sh == nil || phiStored(ph) {
		return nil, false
	}
	isLoad := func(v ssa.Value, of ssa.Value) bool {
		l, ok := v.(*ssa.UnOp)
		return ok && l.Op == token.MUL && l.X == of
	}
	var init, step poly
	for i, e := range ph.Edges {
		al, ok := e.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		st := storesTo(al)
		if !sh.body[ph.Block().Preds[i]] {
			if len(st) != 1 || init != nil {
				return nil, false
			}
			init = s.eval(st[0].Val, ctx)
			continue
		}
		if len(st) != 2 || step != nil || !isLoad(st[0].Val, ph) {
			return nil, false
		}
		bo, ok := st[1].Val.(*ssa.BinOp)
		if !ok || !isLoad(bo.X, al) {
			return nil, false
		}
		step = s.eval(bo.Y, ctx)
		switch bo.Op {
		case token.ADD:
		case token.SUB:
			step = pscale(step, -1)
		default:
			return nil, false
		}
	}
	l := s.loopAt(ph.Parent(), sh, ctx)
	if init == nil || step == nil || !s.invariant(step, l) || !s.invariant(init, l) {
		return nil, false
	}
	return padd(init, pmul(step, patom(l.atom))), true
}

// phiStored: something is stored through the phi, here or in a closure that captures it.
func phiStored(ph *ssa.Phi) bool {
	var scan func(f *ssa.Function) bool
	scan = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for {
					fv, ok := a.(*ssa.FreeVar)
					if !ok {
						break
					}
					a = freeVarBinding(fv)
				}
				if a == ssa.Value(ph) {
					return true
				}
			}
		}
		for _, an := range f.AnonFuncs {
			if scan(an) {
				return true
			}
		}
		return false
	}
	return scan(ph.Parent())
}

func (s *scev) phi(x *ssa.Phi, ctx *ictx) poly {
	ctx = ownCtx(x, ctx)
	g := s.p.cfg(x.Parent())
	var sh *loopShape
	for _, l := range s.loopsOf(x.Parent()) {
		if l.header == x.Block() {
			sh = l
		}
	}
	self := s.valAtom(x, ctx)
	selfName := self.atoms()[0]
	if sh == nil {
		var m poly
		for i, e := range x.Edges {
			if !g.reach[x.Block().Preds[i].Index] {
				continue
			}
			y := s.eval(e, ctx)
			if m == nil {
				m = y
			} else if !peq(m, y) {
				return self
			}
		}
		if m == nil {
			return self
		}
		return m
	}
	l := s.loopAt(x.Parent(), sh, ctx)
	var init, step poly
	for i, e := range x.Edges {
		pb := x.Block().Preds[i]
		if !g.reach[pb.Index] {
			continue
		}
		if !sh.body[pb] {
			y := s.eval(e, ctx)
			if init != nil && !peq(init, y) {
				return self
			}
			init = y
			continue
		}
		y := psub(s.evalFresh(e, ctx), self)
		if s.mentions(y, selfName) {
			return self
		}
		if step != nil && !peq(step, y) {
			return self
		}
		step = y
	}
	if init == nil || step == nil || !s.invariant(step, l) || !s.invariant(init, l) {
		return self
	}
	return padd(init, pmul(step, patom(l.atom)))
}

// evalFresh evaluates without remembering values computed while a phi is only known by name.
func (s *scev) evalFresh(v ssa.Value, ctx *ictx) poly {
	old, oldBusy := s.memo, s.busy
	s.busy = map[scevKey]bool{}
	for k := range oldBusy {
		if _, ok := k.v.(*ssa.Phi); ok {
			s.busy[k] = true
		}
	}
	s.memo = map[scevKey]poly{}
	for k, m := range old {
		s.memo[k] = m
	}
	m := s.eval(v, ctx)
	s.memo, s.busy = old, oldBusy
	return m
}

// trip is the number of iterations of a loop left only by its condition:
// the counter runs from 0 to trip-1. ok is false if it cannot be told.
// down is set instead when the loop runs while a decreasing value stays non-negative
// and its step is not ±1: cond is then that value.
type tripCount struct {
	n        poly // number of iterations (if not negative)
	ok       bool
	whileNon poly // the loop runs while this value is >= 0, stepping by a non-unit amount
	bottom   bool
}

func (s *scev) trip(l *sloop) tripCount { return s.tripTo(l, nil) }

// finishes: the function can return from the block.
func (s *scev) finishes(g *cfg, t, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if to != nil {
			if b == to {
				return true
			}
		} else if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && g.cut[b.Index] >= len(b.Instrs) {
			return true
		}
		for _, x := range g.succs[b.Index] {
			if walk(x) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// tripTo is the number of iterations on the runs that go on to a block (nil: that return at all).
func (s *scev) tripTo(l *sloop, to *ssa.BasicBlock) tripCount {
	g := s.p.cfg(l.fn)
	var exit *ssa.BasicBlock
	for b := range l.body {
		for _, t := range g.succs[b.Index] {
			if !l.body[t] && s.finishes(g, t, to) {
				if exit != nil && exit != b {
					return tripCount{}
				}
				exit = b
			}
		}
	}
	if exit == nil {
		return tripCount{}
	}
	iff, ok := exit.Instrs[len(exit.Instrs)-1].(*ssa.If)
	if !ok {
		return tripCount{}
	}
	for _, lt := range l.latch {
		if !g.dominates(exit, lt) {
			return tripCount{}
		}
	}
	bottom := len(l.latch) == 1 && l.latch[0] == exit
	if !bottom && exit != l.header {
		// A test in the middle: treat what precedes as part of the header only if nothing does.
		return tripCount{}
	}
	stay := l.body[exit.Succs[0]]
	cond := iff.Cond
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, stay = u.X, !stay
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return tripCount{}
	}
	op := bo.Op
	if !stay {
		op = negate(op)
	}
	x, y := s.eval(bo.X, l.ctx), s.eval(bo.Y, l.ctx)
	// Stay while d >= 0.
	var d poly
	switch op {
	case token.LSS:
		d = padd(psub(y, x), pconst(-1))
	case token.LEQ:
		d = psub(y, x)
	case token.GTR:
		d = padd(psub(x, y), pconst(-1))
	case token.GEQ:
		d = psub(x, y)
	case token.NEQ:
		d = padd(psub(y, x), pconst(-1))
		if c, _, lin := d.coeff(l.atom); lin {
			if n, ok := c.isConst(); ok && n == 1 {
				d = padd(psub(x, y), pconst(-1))
			} else if !ok || n != -1 {
				return tripCount{}
			}
		}
	default:
		return tripCount{}
	}
	c, r, lin := d.coeff(l.atom)
	if !lin || !s.invariant(c, l) || !s.invariant(r, l) || s.mentions(r, l.atom) {
		return tripCount{}
	}
	n, isC := c.isConst()
	if isC && n == -1 {
		t := padd(r, pconst(1))
		if bottom {
			t = padd(t, pconst(1))
		}
		return tripCount{n: t, ok: true, bottom: bottom}
	}
	if isC && n >= 0 {
		return tripCount{}
	}
	if bottom {
		return tripCount{}
	}
	return tripCount{whileNon: d, ok: true}
}
