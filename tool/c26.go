package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C26"] = checkC26 }

// everyIteration: each time round the loops that contain them, one of the stores is passed.
func (ap *applier) everyIteration(sinks []*sink) (string, bool) {
	type level struct {
		f *ssa.Function
		c *ictx
	}
	hits := map[level]map[*ssa.BasicBlock]bool{}
	add := func(f *ssa.Function, c *ictx, b *ssa.BasicBlock) {
		k := level{f, c}
		if hits[k] == nil {
			hits[k] = map[*ssa.BasicBlock]bool{}
		}
		hits[k][b] = true
	}
	for _, s := range sinks {
		var in ssa.Instruction = s.in
		c := s.ctx
		for {
			add(in.Parent(), ownCtxOf(in.Parent(), c), in.Block())
			for _, l := range ap.s.enclosing(in.Block(), c) {
				add(in.Parent(), ownCtxOf(in.Parent(), c), l.header)
			}
			for c != nil && (c.callee != in.Parent() || c.call == nil) {
				c = c.parent
			}
			if c == nil {
				break
			}
			in, c = c.call.(ssa.Instruction), c.parent
		}
	}
	for k, hs := range hits {
		g := ap.p.cfg(k.f)
		for _, l := range ap.s.loopsOf(k.f) {
			used := false
			for b := range hs {
				if l.body[b] && (b != l.header) {
					used = true
				}
				if b == l.header {
					// The header is a hit only as the mark of this loop itself.
					continue
				}
			}
			if !used {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock) bool
			walk = func(b *ssa.BasicBlock) bool {
				for _, t := range g.succs[b.Index] {
					if t == l.header {
						return true
					}
					if !l.body[t] || hs[t] || seen[t] {
						continue
					}
					seen[t] = true
					if walk(t) {
						return true
					}
				}
				return false
			}
			if !hs[l.header] || !sinkIn(sinks, l.header) {
				if walk(l.header) {
					return fmt.Sprintf("an iteration of the loop at %s can pass without a result", ap.p.pos(blockPos(l.header))), false
				}
			}
		}
	}
	return "", true
}

func sinkIn(ss []*sink, b *ssa.BasicBlock) bool {
	for _, s := range ss {
		if s.in.Block() == b {
			return true
		}
	}
	return false
}

func ownCtxOf(f *ssa.Function, ctx *ictx) *ictx {
	for c := ctx; c != nil; c = c.parent {
		if c.callee == f {
			return c
		}
	}
	return nil
}

// group collects the sinks by the editor they write.
func (ap *applier) group() (names []string, by map[string][]*sink) {
	by = map[string][]*sink{}
	for _, s := range ap.sinks {
		if s.ed == "" {
			continue
		}
		if by[s.ed] == nil {
			names = append(names, s.ed)
		}
		by[s.ed] = append(by[s.ed], s)
	}
	return
}

func (s *sink) edLen(ap *applier) (poly, bool) {
	c, ok := s.edv.(*ssa.Call)
	if !ok {
		return nil, false
	}
	if f := c.Call.StaticCallee(); f != nil && f.Name() == "newVectorEditor" {
		return ap.s.eval(c.Call.Args[0], s.edc), true
	}
	return nil, false
}

// level splits the name of a sequence into the operand and whether it is a matrix's data.
func level(seq string) (x string, matrix bool) {
	if m, ok := strings.CutSuffix(seq, ".data"); ok {
		return m, true
	}
	return seq, false
}

// resultOf checks how the editor's contents leave the construct: as a vector when asVector, or as a
// matrix with one of the shapes given.
func (ap *applier) resultOf(outs []result, s *sink, asVector func(fs *factSet) bool, shapes ...[]segment) (string, bool) {
	found := false
	for _, o := range outs {
		for _, e := range ap.publishes(o) {
			ev := e[0].(ssa.Value)
			ec, _ := e[1].(*ictx)
			if ap.edName(ev, ec) != s.ed {
				continue
			}
			found = true
			fs := ap.factsAt(o.at, o.ctx)
			if o.kind == "vector" {
				if asVector == nil || !asVector(fs) {
					return "the result is a vector where it should be a matrix", false
				}
				continue
			}
			if len(shapes) == 0 {
				return "the result is a matrix where it should be a vector", false
			}
			got, ok := ap.shapesFor(o, ev)
			if !ok {
				return "the shape of the result cannot be told", false
			}
			fs2 := ap.factsAt(s.in, s.ctx)
			for _, gs := range got {
				hit := false
				for _, want := range shapes {
					if fs.sameSegs(gs, want) || fs2.sameSegs(gs, want) {
						hit = true
					}
				}
				if !hit {
					return fmt.Sprintf("the result has shape %s instead of %s", segString(gs), segString(shapes[0])), false
				}
			}
		}
	}
	if !found {
		return "what is stored is not returned", false
	}
	return "", true
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

func always(*factSet) bool { return true }

func checkC26(p *Prog, r *Report) {
	uf, bf := p.method("value", "unaryOp", "EvalUnary"), p.method("value", "binaryOp", "EvalBinary")
	r.rule("elementwise-unary", "a unary operator defined element by element gives, for every k, the operator applied to element k, in the operand's shape", 2)
	r.rule("elementwise-binary", "a binary operator defined element by element gives, for every k, the operator applied to element k of the left operand and element k of the right one, where an operand known to have one element is repeated, a vector known to match the last dimension is repeated along it, and otherwise both are known to have the same shape; the result has the shape of the operand that is not repeated", 8)
	r.rule("outer-product", "element x of the outer product is the operator applied to left element x / (right length) and right element x mod (right length), for every pair; the result has the left shape followed by the right shape", 2)
	r.rule("inner-product", "each element of the inner product folds, from the last pair to the first, the left operator over the right operator applied to a row of the left operand and a column of the right one, of equal length", 2)
	r.rule("derived", "a binary operator formed from two with a period is evaluated as the product of its operands in order", 2)
	p.derivedOps(r, "derived", true, map[string]string{"foo.bar": `Product(L,"foo.bar",V)`, "o.bar": `Product(L,"o.bar",V)`})
	for _, f := range []*ssa.Function{uf, bf, p.fn("value", "Product")} {
		if f == nil {
			r.missing("inner-product", "the functions that evaluate operators")
			return
		}
	}
	name := func(f *ssa.Function) string { return fmt.Sprintf("%s.name", uniq(f.Params[0])) }

	{
		ap := newApplier(p, uf)
		ap.walk(uf, nil, true)
		outs := ap.results(uf, nil)
		eds, by := ap.group()
		for _, e := range eds {
			for _, s := range by[e] {
				msg, ok := ap.unaryElem(s, name(uf), outs)
				r.add("elementwise-unary", fname(s.in.Parent()), s.in.Pos(), ok, "%s", orStr(msg, s.t.String()))
			}
		}
	}
	{
		ap := newApplier(p, bf)
		ap.walk(bf, nil, true)
		outs := ap.results(bf, nil)
		eds, by := ap.group()
		for _, e := range eds {
			for _, s := range by[e] {
				msg, ok := ap.binaryElem(s, name(bf), outs)
				r.add("elementwise-binary", fname(s.in.Parent()), s.in.Pos(), ok, "%s", orStr(msg, s.t.String()))
			}
		}
	}
	{
		f := p.fn("value", "Product")
		ap := newApplier(p, f)
		ap.walk(f, nil, true)
		outs := ap.results(f, nil)
		eds, by := ap.group()
		for _, e := range eds {
			for _, s := range by[e] {
				if s.t.kind == "fold" {
					msg, ok := ap.innerMatrix(s, f, outs)
					r.add("inner-product", fname(s.in.Parent()), s.in.Pos(), ok, "%s", orStr(msg, "row by column"))
				} else {
					msg, ok := ap.outer(s, f, outs)
					r.add("outer-product", fname(s.in.Parent()), s.in.Pos(), ok, "%s", orStr(msg, s.t.String()))
				}
			}
		}
		for _, o := range outs {
			if o.kind != "other" {
				continue
			}
			msg, ok := ap.innerVector(o, f)
			r.add("inner-product", fname(o.at.Parent()), o.at.Pos(), ok, "%s", orStr(msg, "pair by pair"))
		}
	}
}

func (ap *applier) stored(s *sink) (n poly, msg string, ok bool) {
	if s.kind != "set" {
		return nil, "elements are appended in an order that cannot be told", false
	}
	n, ok = s.edLen(ap)
	if !ok {
		return nil, "the length of the result cannot be told", false
	}
	if m, ok := ap.covers(s.idx, n, ap.s.chain(s.in.Block(), s.ctx)); !ok {
		return nil, m, false
	}
	if m, ok := ap.everyIteration([]*sink{s}); !ok {
		return nil, m, false
	}
	return n, "", true
}

func (ap *applier) unaryElem(s *sink, op string, outs []result) (string, bool) {
	n, msg, ok := ap.stored(s)
	if !ok {
		return msg, false
	}
	t := s.t
	if t.kind != "app" || len(t.args) != 1 || t.args[0].kind != "elem" {
		return "not the operator applied to an element: " + t.String(), false
	}
	if t.op != op {
		return "another operator is applied: " + t.op, false
	}
	e := t.args[0]
	fs := ap.factsAt(s.in, s.ctx)
	x, matrix := level(e.seq)
	if x != "R" || !fs.same(e.idx, s.idx) {
		return "another element is used: " + e.String(), false
	}
	if !fs.same(n, ap.length(e.seq)) {
		return fmt.Sprintf("the result has %s elements", n), false
	}
	if matrix {
		return ap.resultOf(outs, s, nil, ap.shapeSeg("R"))
	}
	return ap.resultOf(outs, s, always)
}

func (ap *applier) binaryElem(s *sink, op string, outs []result) (string, bool) {
	n, msg, ok := ap.stored(s)
	if !ok {
		return msg, false
	}
	t := s.t
	if t.kind != "app" || len(t.args) != 2 || t.args[0].kind != "elem" || t.args[1].kind != "elem" {
		return "not the operator applied to two elements: " + t.String(), false
	}
	if t.op != op {
		return "another operator is applied: " + t.op, false
	}
	a, b := t.args[0], t.args[1]
	xa, ma := level(a.seq)
	xb, mb := level(b.seq)
	if xa != "L" || xb != "R" || ma != mb {
		return "the operands are not the left and the right one: " + t.String(), false
	}
	fs := ap.factsAt(s.in, s.ctx)
	full := func(e *term) bool { return fs.same(e.idx, s.idx) }
	var shapes [][]segment
	wantLen := a.seq
	repeat := func(e *term, x, y string) string {
		if m, ok := fs.rewrite(e.idx).isConst(); ok && m == 0 {
			if !fs.oneElem(x, ma) {
				return "its first element is repeated for an operand not known to have one element"
			}
			return ""
		}
		if ma && (fs.same(e.idx, ap.s.mod(s.idx, patom("first("+x+")"))) || fs.same(e.idx, ap.s.mod(s.idx, patom("last("+y+")")))) {
			if !fs.isVector(x, y) {
				return "the operand is repeated without being known to match the last dimension"
			}
			return ""
		}
		return "another element is used: " + e.String()
	}
	switch {
	case full(a) && full(b):
		if !fs.sameShape("L", "R", ma) {
			return "the operands are not known to have the same shape", false
		}
		shapes = [][]segment{ap.shapeSeg("L"), ap.shapeSeg("R")}
	case full(b):
		if m := repeat(a, "L", "R"); m != "" {
			return m, false
		}
		wantLen = b.seq
		shapes = [][]segment{ap.shapeSeg("R")}
	case full(a):
		if m := repeat(b, "R", "L"); m != "" {
			return m, false
		}
		shapes = [][]segment{ap.shapeSeg("L")}
	default:
		return "another element is used: " + t.String(), false
	}
	if !fs.same(n, ap.length(wantLen)) {
		return fmt.Sprintf("the result has %s elements", n), false
	}
	if ma {
		return ap.resultOf(outs, s, nil, shapes...)
	}
	return ap.resultOf(outs, s, always)
}

// dotParts: the keys of what precedes and follows the period of the operator's name.
func dotKeys(t string, prm string) (left, right bool) {
	if !strings.Contains(t, prm) {
		return
	}
	idx := fmt.Sprintf("strings.IndexByte(%s,46)", prm)
	left = t == fmt.Sprintf("%s[:%s]", prm, idx)
	right = t == fmt.Sprintf("%s[(1+%s):]", prm, idx) || t == fmt.Sprintf("%s[(%s+1):]", prm, idx)
	return
}

func opParam(f *ssa.Function) string {
	for _, prm := range f.Params {
		if isString(prm.Type()) {
			return uniq(prm)
		}
	}
	return ""
}

func (ap *applier) outer(s *sink, f *ssa.Function, outs []result) (string, bool) {
	n, msg, ok := ap.stored(s)
	if !ok {
		return msg, false
	}
	t := s.t
	if t.kind != "app" || len(t.args) != 2 || t.args[0].kind != "elem" || t.args[1].kind != "elem" {
		return "not the operator applied to two elements: " + t.String(), false
	}
	if _, right := dotKeys(t.op, opParam(f)); !right {
		return "another operator is applied: " + t.op, false
	}
	a, b := t.args[0], t.args[1]
	xa, ma := level(a.seq)
	xb, mb := level(b.seq)
	if xa != "L" || xb != "R" || ma != mb {
		return "the operands are not the left and the right one: " + t.String(), false
	}
	fs := ap.factsAt(s.in, s.ctx)
	rl := ap.length(b.seq)
	if !fs.same(a.idx, ap.s.div(s.idx, rl)) || !fs.same(b.idx, ap.s.mod(s.idx, rl)) {
		return "another pair of elements is used: " + t.String(), false
	}
	if !fs.same(n, pmul(ap.length(a.seq), rl)) {
		return fmt.Sprintf("the result has %s elements", n), false
	}
	shape := []segment{{elem: ap.length(a.seq)}, {elem: rl}}
	if ma {
		shape = append(ap.shapeSeg("L"), ap.shapeSeg("R")...)
	}
	return ap.resultOf(outs, s, nil, shape)
}

// fold checks that a term folds, from k = n-1 down to 0, the elements e(k), the rest as right operand.
func (ap *applier) foldRight(fs *factSet, t *term, op func(string) bool, e func(k poly) *term, n poly, inRange poly) (string, bool) {
	if t.kind != "fold" {
		// A single element is its own fold.
		if fs.same(n, pconst(1)) && fs.teq(t, e(poly{})) {
			return "", true
		}
		return "not a fold: " + t.String(), false
	}
	if !op(t.op) {
		return "another operator is folded: " + t.op, false
	}
	if t.side != 1 {
		return "the accumulated result is the left operand: the fold is not right associative", false
	}
	first, step := t.args[0], t.args[1]
	skip := int64(1) // what is folded before the loop
	if t.late {
		skip = 0
	} else if want := e(padd(n, pconst(-1))); !fs.teq(first, want) {
		return fmt.Sprintf("the fold starts with %s instead of %s", first, want), false
	}
	want := e(psub(padd(n, pconst(-1-skip)), patom(t.loop.atom)))
	if !fs.teq(step, want) {
		return fmt.Sprintf("the fold continues with %s instead of %s", step, want), false
	}
	tr := ap.s.trip(t.loop)
	if !tr.ok {
		return "the number of steps of the fold cannot be told", false
	}
	if tr.whileNon == nil {
		if !fs.same(tr.n, padd(n, pconst(-skip))) {
			return fmt.Sprintf("the fold takes %s steps for %s elements", tr.n, n), false
		}
		return "", true
	}
	// The loop runs while a value that goes down by c stays non-negative: in the last step it is
	// in [0, c).
	c, _, _ := tr.whileNon.coeff(t.loop.atom)
	last := fs.rewrite(ap.s.subst(tr.whileNon, t.loop.atom, padd(n, pconst(-1-skip))))
	as := last.atoms()
	if len(as) == 1 && peq(last, patom(as[0])) {
		if i := ap.s.info[as[0]]; i != nil && i.kind == "loop" {
			if ti := ap.s.trip(i.loop); ti.ok && ti.n != nil && fs.same(ti.n, pscale(c, -1)) {
				return "", true
			}
		}
	}
	if inRange != nil && fs.same(pscale(c, -1), inRange) && len(last) == 0 {
		return "", true
	}
	return fmt.Sprintf("the fold runs while %s is not negative", tr.whileNon), false
}

func elemT(seq string, idx poly) *term { return &term{kind: "elem", seq: seq, idx: idx} }

func (ap *applier) innerMatrix(s *sink, f *ssa.Function, outs []result) (string, bool) {
	n, msg, ok := ap.stored(s)
	if !ok {
		return msg, false
	}
	fs := ap.factsAt(s.in, s.ctx)
	rest, dim := patom("rest(R)"), patom("first(R)")
	if !fs.same(dim, patom("last(L)")) {
		return "the last dimension of the left operand is not known to be the first of the right one", false
	}
	opR := ""
	if st := s.t.args[1]; st.kind == "app" {
		opR = st.op
	}
	if _, right := dotKeys(opR, opParam(f)); !right {
		return "another operator is applied: " + opR, false
	}
	i, j := ap.s.div(s.idx, rest), ap.s.mod(s.idx, rest)
	msg, ok = ap.foldRight(fs, s.t, func(o string) bool { l, _ := dotKeys(o, opParam(f)); return l }, func(k poly) *term {
		return &term{kind: "app", op: opR, args: []*term{elemT("L.data", padd(pmul(i, dim), k)), elemT("R.data", padd(j, pmul(k, rest)))}}
	}, dim, nil)
	if !ok {
		return msg, false
	}
	if !fs.same(n, pmul(patom("rows(L)"), rest)) {
		return fmt.Sprintf("the result has %s elements", n), false
	}
	ll, rl := ap.length("L.shape"), ap.length("R.shape")
	return ap.resultOf(outs, s, func(fs *factSet) bool { return fs.zero(padd(padd(ll, rl), pconst(-3))) },
		[]segment{{base: "L.shape", lo: poly{}, hi: padd(ll, pconst(-1))}, {base: "R.shape", lo: pconst(1), hi: rl}})
}

// zero: the polynomial is known to be zero.
func (fs *factSet) zero(a poly) bool {
	a = fs.rewrite(a)
	if len(a) == 0 {
		return true
	}
	for _, e := range fs.eqs {
		e = fs.rewrite(e)
		if peq(a, e) || peq(a, pscale(e, -1)) {
			return true
		}
	}
	for _, e := range fs.eqs {
		if peq(a, e) || peq(a, pscale(e, -1)) {
			return true
		}
	}
	return false
}

func (ap *applier) innerVector(o result, f *ssa.Function) (string, bool) {
	fs := ap.factsAt(o.at, o.ctx)
	t := ap.term(o.v, o.ctx)
	if t.kind != "fold" {
		return "not a fold: " + t.String(), false
	}
	if !fs.sameShape("L", "R", false) {
		return "the operands are not known to have the same length", false
	}
	opR := ""
	if st := t.args[1]; st.kind == "app" {
		opR = st.op
	}
	if _, right := dotKeys(opR, opParam(f)); !right {
		return "another operator is applied: " + opR, false
	}
	return ap.foldRight(fs, t, func(o string) bool { l, _ := dotKeys(o, opParam(f)); return l }, func(k poly) *term {
		return &term{kind: "app", op: opR, args: []*term{elemT("L", k), elemT("R", k)}}
	}, ap.length("L"), pconst(1))
}
