package main

// What is known where a term is stored: equalities, and element-wise facts
// established by loops that leave through a failure.

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A forall says that the comparison held in every iteration of a loop that ran to its end.
type forall struct {
	n    poly // iterations
	atom string
	op   token.Token
	x, y poly
}

type factSet struct {
	ap    *applier
	at    ssa.Instruction
	ctx   *ictx
	eqs   []poly // known to be zero
	cmps  []cmpFact
	atoms []fact
	all   []forall
}

// factsAt collects what holds when control is at an instruction in a context.
func (ap *applier) factsAt(in ssa.Instruction, ctx *ictx) *factSet {
	fs := &factSet{ap: ap, at: in, ctx: ctx}
	var raw []fact
	seen := map[ictxBlock]bool{}
	var visit func(b *ssa.BasicBlock, c *ictx)
	visit = func(b *ssa.BasicBlock, c *ictx) {
		k := ictxBlock{c, b}
		if seen[k] {
			return
		}
		seen[k] = true
		fs.loopFacts(b, c)
	}
	ap.p.onEnter = visit
	var point func(at ssa.Instruction, c *ictx, depth int)
	point = func(at ssa.Instruction, c *ictx, depth int) {
		raw = append(raw, ap.p.guards(at.Block(), c)...)
		visit(at.Block(), c)
		if depth > 3 {
			return
		}
		g := ap.p.cfg(at.Parent())
		for _, b := range at.Parent().Blocks {
			if !g.reach[b.Index] || !g.dominates(b, at.Block()) {
				continue
			}
			for _, x := range b.Instrs {
				if x == at {
					break
				}
				call, ok := x.(*ssa.Call)
				if !ok || !g.live(x) || call.Call.IsInvoke() {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || f.Blocks == nil || !ap.p.inModule(f) || f.Signature.Results().Len() != 0 {
					continue
				}
				if n, _ := c.count(f); n > 0 {
					continue
				}
				if rt := onlyReturn(ap.p, f); rt != nil {
					point(rt, c.enter(call, f), depth+1)
				}
			}
		}
	}
	at := in
	c := ctx
	for {
		point(at, c, 0)
		// The call through which this function was entered.
		for c != nil && (c.callee != at.Parent() || c.call == nil) {
			c = c.parent
		}
		if c == nil {
			break
		}
		at, c = c.call.(ssa.Instruction), c.parent
	}
	fs.cmps, fs.atoms = ap.p.expand(raw)
	ap.p.onEnter = nil
	for _, k := range fs.cmps {
		if k.op == token.EQL && isIntType(k.x.Type()) {
			fs.eqs = append(fs.eqs, psub(ap.s.eval(k.x, k.ctx), ap.s.eval(k.y, k.ctx)))
		}
	}
	for _, a := range fs.atoms {
		call, ok := a.cond.(*ssa.Call)
		if !ok || !a.val {
			continue
		}
		if f := call.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "slices.Equal[") {
			xb, xl, xh := ap.intSlice(call.Call.Args[0], a.ctx)
			yb, yl, yh := ap.intSlice(call.Call.Args[1], a.ctx)
			k := "#equal"
			fs.eqs = append(fs.eqs, psub(psub(xh, xl), psub(yh, yl)))
			fs.all = append(fs.all, forall{psub(xh, xl), k, token.EQL, ap.s.elem(xb, padd(xl, patom(k))), ap.s.elem(yb, padd(yl, patom(k)))})
		}
	}
	return fs
}

type ictxBlock struct {
	c *ictx
	b *ssa.BasicBlock
}

func onlyReturn(p *Prog, f *ssa.Function) *ssa.Return {
	g := p.cfg(f)
	var one *ssa.Return
	for i, b := range f.Blocks {
		if !g.reach[i] || g.cut[i] < len(b.Instrs) {
			continue
		}
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if one != nil {
				return nil
			}
			one = rt
		}
	}
	return one
}

// loopFacts: the loops that must have run to their end for control to be at b.
func (fs *factSet) loopFacts(b *ssa.BasicBlock, ctx *ictx) {
	s := fs.ap.s
	f := b.Parent()
	g := s.p.cfg(f)
	for _, sh := range s.loopsOf(f) {
		if sh.body[b] || !g.dominates(sh.header, b) {
			continue
		}
		l := s.loopAt(f, sh, ctx)
		t := s.tripTo(l, b)
		if !t.ok || t.n == nil || t.bottom {
			continue
		}
		for x := range sh.body {
			iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			if !ok || x == sh.header {
				continue
			}
			every := true
			for _, lt := range sh.latch {
				if !g.dominates(x, lt) {
					every = false
				}
			}
			if !every {
				continue
			}
			for i, t2 := range x.Succs {
				if sh.body[t2] || s.finishes(g, t2, b) {
					continue
				}
				cmps, _ := s.p.expand([]fact{{iff.Cond, i == 1, ctx}})
				for _, k := range cmps {
					if isIntType(k.x.Type()) {
						fs.all = append(fs.all, forall{t.n, l.atom, k.op, s.eval(k.x, k.ctx), s.eval(k.y, k.ctx)})
					}
				}
			}
		}
	}
}

// rewrite uses the known equalities to replace atoms by others or by constants.
func (fs *factSet) rewrite(a poly) poly {
	a = fs.ap.norm(a)
	for round := 0; round < 4; round++ {
		for _, e := range fs.eqs {
			e = fs.ap.norm(e)
			if len(e) > 2 {
				continue
			}
			// x - y = 0 or x - c = 0, with x the atom that sorts first among single atoms.
			var as []string
			for m := range e {
				if m != "" && !strings.Contains(m, polySep) {
					as = append(as, m)
				}
			}
			sort.Strings(as)
			if len(as) == 0 {
				continue
			}
			x := as[0]
			c := e[x]
			if c != 1 && c != -1 {
				continue
			}
			by := poly{}
			for m, k := range e {
				if m != x {
					by = padd(by, pscale(poly{m: k}, -c))
				}
			}
			a = fs.ap.norm(fs.ap.s.subst(a, x, by))
		}
	}
	return a
}

func (fs *factSet) same(a, b poly) bool { return peq(fs.rewrite(a), fs.rewrite(b)) }

// teq compares terms up to the known equalities.
func (fs *factSet) teq(a, b *term) bool {
	if a == nil || b == nil || a.kind != b.kind || a.seq != b.seq || a.op != b.op || a.key != b.key || a.side != b.side || len(a.args) != len(b.args) || a.loop != b.loop {
		return false
	}
	if !fs.same(a.idx, b.idx) || !fs.same(a.lo, b.lo) || !fs.same(a.hi, b.hi) {
		return false
	}
	for i := range a.args {
		if !fs.teq(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// holdsFor: seq[k] compares as given with y (in terms of k) for every k of [lo, hi).
func (fs *factSet) holdsFor(seq string, lo, hi poly, y func(k poly) poly) bool {
	s := fs.ap.s
	for _, f := range fs.all {
		if f.op != token.EQL {
			continue
		}
		for _, pr := range [][2]poly{{f.x, f.y}, {f.y, f.x}} {
			var e *atomInfo
			for _, x := range pr[0].atoms() {
				if i := s.info[x]; i != nil && i.kind == "elem" && i.seq == seq {
					e = i
				}
			}
			if e == nil || !peq(pr[0], s.elem(seq, e.a)) {
				continue
			}
			c, r, lin := e.a.coeff(f.atom)
			n, isC := c.isConst()
			if !lin || !isC || (n != 1 && n != -1) {
				continue
			}
			first := r
			if n == -1 {
				first = padd(psub(r, f.n), pconst(1))
			}
			if !fs.same(first, lo) || !fs.same(f.n, psub(hi, lo)) {
				continue
			}
			if fs.same(pr[1], y(e.a)) {
				return true
			}
		}
	}
	return false
}

// oneElem: the operand has exactly one element.
func (fs *factSet) oneElem(x string, matrix bool) bool {
	ap := fs.ap
	if !matrix {
		return fs.same(ap.length(x), pconst(1))
	}
	return fs.same(ap.length(x+".data"), pconst(1)) ||
		fs.holdsFor(x+".shape", poly{}, ap.length(x+".shape"), func(poly) poly { return pconst(1) })
}

// sameShape: both operands have the same shape.
func (fs *factSet) sameShape(x, y string, matrix bool) bool {
	ap := fs.ap
	if !matrix {
		return fs.same(ap.length(x), ap.length(y))
	}
	if !fs.same(ap.length(x+".shape"), ap.length(y+".shape")) {
		return false
	}
	eq := func(a, b string) bool {
		return fs.holdsFor(a+".shape", poly{}, ap.length(a+".shape"), func(k poly) poly { return ap.s.elem(b+".shape", k) })
	}
	return eq(x, y) || eq(y, x)
}

// isVector: x is n by 1 by 1 ... and n is the last dimension of y.
func (fs *factSet) isVector(x, y string) bool {
	ap := fs.ap
	if !fs.same(patom("first("+x+")"), patom("last("+y+")")) {
		return false
	}
	return fs.holdsFor(x+".shape", pconst(1), ap.length(x+".shape"), func(poly) poly { return pconst(1) })
}
