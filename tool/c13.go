package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

func checkC13(p *Prog, r *Report) {
	r.rule("reduce", "a reduction folds the elements of the axis from the last to the first, the accumulated result as right operand, over every element", 3)
	r.rule("scan", "element j of a scan is the reduction of the elements up to j; the running form is used only where the operator is a built-in one known to be associative", 4)
	r.rule("grammar", "an operator's right operand is everything to its right: the parser builds it from a full expression, and its left operand is not a combination already built", 2)
	r.rule("operand-order", "the right operand is evaluated before the left one", 1)
	r.rule("list-order", "the items of a vector and the indexes of an index expression are evaluated from the last to the first, statements from the first to the last", 3)
	r.rule("indexed-after", "what is indexed is evaluated after its indexes", 1)
	r.rule("derived", "an operator followed by / or \\ is its reduction or scan along the last axis, by /% or \\% along the first", 4)
	p.derivedOps(r, "derived", false, map[string]string{
		"foo/": `Reduce("foo",V)`, `foo\`: `Scan("foo",V)`, "foo/%": `ReduceFirst("foo",V)`, `foo\%`: `ScanFirst("foo",V)`})
	p.reductions(r)
	p.scans(r)
	p.grammar(r)
	p.operandOrder(r)
	p.listOrder(r)
}

// ---------------------------------------------------------------- reductions

func (p *Prog) reductions(r *Report) {
	red := p.fn("value", "Reduce")
	for _, n := range []string{"Reduce", "ReduceFirst"} {
		f := p.fn("value", n)
		if f == nil || red == nil {
			r.missing("reduce", "value."+n)
			continue
		}
		ap := newApplier(p, f)
		if f != red {
			ap.entries[red] = "reduce"
		}
		ap.walk(f, nil, true)
		outs := ap.results(f, nil)
		isOp := func(o string) bool { return o == opParam(f) }
		eds, by := ap.group()
		for _, e := range eds {
			for _, s := range by[e] {
				msg, ok := ap.reduceMatrix(s, n == "ReduceFirst", isOp, outs)
				r.add("reduce", fname(s.in.Parent()), s.in.Pos(), ok, "%s", orStr(msg, s.t.String()))
			}
		}
		for _, o := range outs {
			if o.kind != "other" {
				continue
			}
			t := ap.term(o.v, o.ctx)
			fs := ap.factsAt(o.at, o.ctx)
			switch t.kind {
			case "whole":
				// The operand itself: a scalar, or no elements.
				msg := ""
				if !fs.isEmptyOrScalar("R", o) {
					msg = "the operand is returned as it is although it may have elements to reduce"
				}
				r.add("reduce", fname(o.at.Parent())+" unchanged", o.at.Pos(), msg == "", "%s", orStr(msg, "a scalar or an empty vector"))
			case "reduce":
				msg := ""
				if !isOp(t.op) || len(t.args) != 1 || t.args[0].String() != "R" {
					msg = "reduces something else: " + t.String()
				}
				r.add("reduce", fname(o.at.Parent())+" as Reduce", o.at.Pos(), msg == "", "%s", orStr(msg, t.String()))
			default:
				msg, ok := ap.foldRight(fs, t, isOp, func(k poly) *term { return elemT("R", k) }, ap.length("R"), pconst(1))
				r.add("reduce", fname(o.at.Parent())+" of a vector", o.at.Pos(), ok, "%s", orStr(msg, t.String()))
			}
		}
	}
}

// atMost: the number, which is not negative, is known not to exceed k.
func (fs *factSet) atMost(n poly, k int64) bool {
	for i := int64(0); i <= k; i++ {
		if fs.same(n, pconst(i)) {
			return true
		}
	}
	says := func(op token.Token, x, y ssa.Value, ctx *ictx) bool {
		if !isIntType(x.Type()) {
			return false
		}
		d := fs.ap.norm(psub(fs.ap.s.eval(x, ctx), fs.ap.s.eval(y, ctx)))
		if op == token.GTR || op == token.GEQ {
			d, op = pscale(d, -1), map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
		}
		// d op 0, where d is n - c.
		c, isC := psub(fs.ap.norm(n), d).isConst()
		if !isC && op == token.EQL {
			c, isC = padd(fs.ap.norm(n), d).isConst()
		}
		return isC && (op == token.LSS && c-1 <= k || op == token.LEQ && c <= k || op == token.EQL && c <= k)
	}
	for _, c := range fs.cmps {
		if says(c.op, c.x, c.y, c.ctx) {
			return true
		}
	}
	// Each of the ways into the block tells.
	b := fs.at.Block()
	g := fs.ap.p.cfg(b.Parent())
	n0 := 0
	for _, pb := range g.preds[b.Index] {
		iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		op := bo.Op
		if pb.Succs[0] != b {
			op = negate(op)
		}
		if !says(op, bo.X, bo.Y, fs.ctx) {
			return false
		}
		n0++
	}
	return n0 > 0
}

// isEmptyOrScalar: the operand is known not to be a vector or matrix, or to have no elements.
func (fs *factSet) isEmptyOrScalar(x string, o result) bool {
	if fs.atMost(fs.ap.length(x), 0) {
		return true
	}
	// A successful type test for a scalar kind, in the type of what is returned or among the facts.
	scalar := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && pkgOfNamed(n) == "value" && !isValueIface(t) && n.Obj().Name() != "Vector" && n.Obj().Name() != "Matrix"
	}
	seen := false
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				if fs.ap.p.cfg(x.Parent()).reach[x.Block().Preds[i].Index] && !walk(e) {
					return false
				}
			}
			return true
		case *ssa.MakeInterface:
			seen = true
			return scalar(x.X.Type())
		}
		return false
	}
	if walk(o.v) && seen {
		return true
	}
	// All the ways into the block come from successful tests for scalar kinds.
	b := o.at.Block()
	for hops := 0; hops < 4; hops++ {
		g := fs.ap.p.cfg(b.Parent())
		all := len(g.preds[b.Index]) > 0
		for _, pb := range g.preds[b.Index] {
			iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
			if !ok || pb.Succs[0] != b {
				all = false
				break
			}
			ex, ok := iff.Cond.(*ssa.Extract)
			if !ok {
				all = false
				break
			}
			ta, ok := ex.Tuple.(*ssa.TypeAssert)
			if !ok || !scalar(ta.AssertedType) {
				all = false
				break
			}
		}
		if all {
			return true
		}
		if len(g.preds[b.Index]) != 1 {
			break
		}
		b = g.preds[b.Index][0]
	}
	return false
}

func pkgOfNamed(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return strings.TrimPrefix(n.Obj().Pkg().Path(), "robpike.io/ivy/")
}

func (ap *applier) reduceMatrix(s *sink, first bool, isOp func(string) bool, outs []result) (string, bool) {
	n, msg, ok := ap.stored(s)
	if !ok {
		return msg, false
	}
	fs := ap.factsAt(s.in, s.ctx)
	rank := ap.length("R.shape")
	if first {
		rest := patom("rest(R)")
		if !fs.same(n, rest) {
			return fmt.Sprintf("the result has %s elements", n), false
		}
		msg, ok = ap.foldRight(fs, s.t, isOp, func(k poly) *term { return elemT("R.data", padd(s.idx, pmul(k, rest))) }, patom("first(R)"), nil)
		if !ok {
			return msg, false
		}
		return ap.resultOf(outs, s, func(fs *factSet) bool { return fs.zero(padd(rank, pconst(-2))) }, []segment{{base: "R.shape", lo: pconst(1), hi: rank}})
	}
	last := patom("last(R)")
	if !fs.same(n, patom("rows(R)")) {
		return fmt.Sprintf("the result has %s elements", n), false
	}
	msg, ok = ap.foldRight(fs, s.t, isOp, func(k poly) *term { return elemT("R.data", padd(pmul(s.idx, last), k)) }, last, nil)
	if !ok {
		return msg, false
	}
	return ap.resultOf(outs, s, func(fs *factSet) bool { return fs.zero(padd(rank, pconst(-2))) }, []segment{{base: "R.shape", lo: poly{}, hi: padd(rank, pconst(-1))}})
}

// ---------------------------------------------------------------- scans

// The built-in operators whose repeated application may be grouped either way.
var associative = map[string]bool{"+": true, "*": true, "min": true, "max": true, "or": true, "and": true, "xor": true,
	"|": true, "&": true, "^": true, "gcd": true, "lcm": true, ",": true}

func (p *Prog) scans(r *Report) {
	red, f := p.fn("value", "Reduce"), p.fn("value", "Scan")
	if red == nil || f == nil {
		r.missing("scan", "value.Scan")
		return
	}
	ap := newApplier(p, f)
	ap.entries[red] = "reduce"
	ap.walk(f, nil, true)
	outs := ap.results(f, nil)
	eds, by := ap.group()
	for _, e := range eds {
		p.scanEditor(r, ap, f, by[e], outs)
	}
	for _, o := range outs {
		if o.kind != "other" {
			continue
		}
		t := ap.term(o.v, o.ctx)
		fs := ap.factsAt(o.at, o.ctx)
		msg := ""
		if t.kind != "whole" || !fs.isEmptyOrScalar("R", o) && !fs.atMost(ap.length("R"), 1) {
			msg = "the result is not that of a scan: " + t.String()
		}
		r.add("scan", fname(o.at.Parent())+" unchanged", o.at.Pos(), msg == "", "%s", orStr(msg, "a scalar or an empty vector"))
	}
	// Along the first axis: transpose, scan, transpose.
	ff := p.fn("value", "ScanFirst")
	if ff == nil {
		r.missing("scan", "value.ScanFirst")
		return
	}
	ap = newApplier(p, ff)
	ap.entries[f] = "scan"
	for _, o := range ap.results(ff, nil) {
		d := p.scanFirstForm(ap, o.v, o.ctx, f, 0)
		ok := d == "scan(R)" && ap.factsAt(o.at, o.ctx).notMatrix("R") || d == "transpose(scan(transpose(R)))"
		r.add("scan", fname(ff)+" "+d, o.at.Pos(), ok, "%s", d)
	}
}

// notMatrix: a failed type test shows that the operand is not a matrix.
func (fs *factSet) notMatrix(x string) bool {
	for _, a := range fs.atoms {
		ex, ok := a.cond.(*ssa.Extract)
		if !ok || a.val || ex.Index != 1 {
			continue
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok || isValueIface(ta.AssertedType) {
			continue
		}
		if n := namedOf(ta.AssertedType); n == nil || n.Obj().Name() != "Matrix" {
			continue
		}
		if w, _ := fs.ap.resolve(ta.X, a.ctx); w != nil {
			if prm, ok := w.(*ssa.Parameter); ok && fs.ap.roles[prm] == x {
				return true
			}
		}
	}
	return false
}

func (p *Prog) scanFirstForm(ap *applier, v ssa.Value, ctx *ictx, scan *ssa.Function, d int) string {
	if d > 12 {
		return "?"
	}
	w, c := ap.resolve(v, ctx)
	switch x := w.(type) {
	case *ssa.TypeAssert:
		return p.scanFirstForm(ap, x.X, c, scan, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return p.scanFirstForm(ap, ta.X, c, scan, d+1)
		}
	case *ssa.Parameter:
		return ap.roles[x]
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			break
		}
		if f == scan {
			for i, prm := range f.Params {
				if isString(prm.Type()) && ap.p.key(x.Call.Args[i], c) != opParam(ap.root) {
					return "scan by another operator"
				}
			}
			return "scan(" + p.scanFirstForm(ap, x.Call.Args[len(x.Call.Args)-1], c, scan, d+1) + ")"
		}
		if recvNamed(f) == "Matrix" && f.Name() == "transpose" {
			return "transpose(" + p.scanFirstForm(ap, x.Call.Args[0], c, scan, d+1) + ")"
		}
	}
	return "?" + ap.seq(w, c)
}

func (p *Prog) scanEditor(r *Report, ap *applier, f *ssa.Function, ss []*sink, outs []result) {
	// The base of the run each store belongs to: 0 for a vector, a row start for a matrix.
	var heads, tails []*sink
	name := fname(ss[0].in.Parent())
	fail := func(s *sink, format string, args ...any) {
		r.add("scan", name, s.in.Pos(), false, format, args...)
	}
	matrix := false
	for _, s := range ss {
		if strings.Contains(s.t.String(), "R.data") {
			matrix = true
		}
	}
	src, n := "R", ap.length("R")
	if matrix {
		src, n = "R.data", patom("last(R)")
	}
	total := ap.length(src)
	opP := opParam(f)
	// Split index = base + offset: base uses the outer loops.
	baseOf := func(s *sink) (poly, poly, *sloop, string) {
		loops := ap.s.chain(s.in.Block(), s.ctx)
		if !matrix {
			switch len(loops) {
			case 0:
				return poly{}, s.idx, nil, ""
			case 1:
				return poly{}, s.idx, loops[0], ""
			}
			return nil, nil, nil, "too many loops"
		}
		if len(loops) == 0 {
			return nil, nil, nil, "not in a loop over the rows"
		}
		o := loops[0]
		c, rest, lin := s.idx.coeff(o.atom)
		if !lin || !peq(c, n) {
			return nil, nil, nil, "the rows do not start one row apart"
		}
		t := ap.s.trip(o)
		if !t.ok || t.n == nil || !peq(ap.norm(t.n), patom("rows(R)")) {
			return nil, nil, nil, fmt.Sprintf("%s rows are scanned", t.n)
		}
		base := pmul(c, patom(o.atom))
		switch len(loops) {
		case 1:
			return base, rest, nil, ""
		case 2:
			return base, rest, loops[1], ""
		}
		return nil, nil, nil, "too many loops"
	}
	for _, s := range ss {
		fs := ap.factsAt(s.in, s.ctx)
		if s.kind != "set" {
			fail(s, "elements are appended in an order that cannot be told")
			return
		}
		if m, ok := s.edLen(ap); !ok || !fs.same(m, total) {
			fail(s, "the result has %s elements", m)
			return
		}
		base, off, l, msg := baseOf(s)
		if msg != "" {
			fail(s, "%s", msg)
			return
		}
		if l == nil {
			// The first element.
			if k, ok := off.isConst(); !ok || k != 0 || s.t.kind != "elem" || s.t.seq != src || !fs.same(s.t.idx, base) {
				fail(s, "element %s is set to %s", s.idx, s.t)
				return
			}
			heads = append(heads, s)
			r.ok("scan", name+" first", s.in.Pos(), "%s", s.t)
			continue
		}
		c, start, lin := off.coeff(l.atom)
		k, isC := c.isConst()
		st, sc := start.isConst()
		t := ap.s.trip(l)
		if !lin || !isC || !t.ok || t.n == nil {
			fail(s, "the index %s cannot be followed", s.idx)
			return
		}
		// Ascending from 0 or 1 to n-1, or descending to 0 or 1.
		lo, cnt := st, t.n
		if k == -1 {
			end := psub(start, padd(t.n, pconst(-1)))
			lo, sc = end.isConst()
		}
		if k != 1 && k != -1 || !sc || (lo != 0 && lo != 1) || !fs.same(padd(cnt, pconst(lo)), n) {
			fail(s, "the scan sets %s elements from %s, not all that remain", cnt, start)
			return
		}
		if lo == 0 {
			heads = append(heads, s)
		}
		tails = append(tails, s)
		switch s.t.kind {
		case "reduce":
			a := s.t.args[0]
			if s.t.op != opP || a.kind != "part" || a.seq != src || !fs.same(a.lo, base) || !fs.same(a.hi, padd(s.idx, pconst(1))) {
				fail(s, "element %s is %s", s.idx, s.t)
				return
			}
			r.ok("scan", name+" by reduction", s.in.Pos(), "%s", s.t)
		case "app":
			if len(s.t.args) == 2 && s.t.args[0].kind == "fold" {
				// The running result is kept apart.
				f := s.t.args[0]
				if s.t.op != opP || f.op != opP || f.late || f.side != 0 || f.loop != l || lo != 1 || k != 1 || !fs.teq(f.args[0], elemT(src, base)) ||
					!fs.teq(f.args[1], elemT(src, s.idx)) || !fs.teq(s.t.args[1], elemT(src, s.idx)) {
					fail(s, "element %s is %s", s.idx, s.t)
					return
				}
			} else if s.t.op != opP || lo != 1 || k != 1 || len(s.t.args) != 2 || s.t.args[0].kind != "elem" || s.t.args[1].kind != "elem" ||
				s.t.args[0].seq != s.ed || !fs.same(s.t.args[0].idx, padd(s.idx, pconst(-1))) || s.t.args[1].seq != src || !fs.same(s.t.args[1].idx, s.idx) {
				fail(s, "element %s is %s", s.idx, s.t)
				return
			}
			if m := p.onlyAssociative(fs, opP); m != "" {
				fail(s, "%s", m)
				return
			}
			r.ok("scan", name+" running", s.in.Pos(), "%s", s.t)
		default:
			fail(s, "element %s is %s", s.idx, s.t)
			return
		}
	}
	last := ss[0]
	if len(heads) == 0 || len(tails) == 0 {
		fail(last, "not every element is set")
		return
	}
	if m, ok := ap.everyIteration(heads); !ok {
		fail(heads[0], "%s", m)
		return
	}
	if m, ok := ap.everyIteration(tails); !ok {
		fail(tails[0], "%s", m)
		return
	}
	if m, ok := ap.passed(heads); !ok {
		fail(heads[0], "%s", m)
		return
	}
	if m, ok := ap.passed(tails); !ok {
		fail(tails[0], "%s", m)
		return
	}
	var msg string
	var ok bool
	if matrix {
		msg, ok = ap.resultOf(outs, last, nil, ap.shapeSeg("R"))
	} else {
		msg, ok = ap.resultOf(outs, last, always)
	}
	r.add("scan", name+" result", last.in.Pos(), ok, "%s", orStr(msg, "all elements, in the operand's shape"))
}

// passed: in the function that stores outside any loop of rows, every way from the first store's
// editor to the return passes one of the stores (or the loop around them).
func (ap *applier) passed(ss []*sink) (string, bool) {
	f := ss[0].in.Parent()
	g := ap.p.cfg(f)
	hits := map[*ssa.BasicBlock]bool{}
	for _, s := range ss {
		if s.in.Parent() != f {
			return "", true
		}
		ls := ap.s.enclosing(s.in.Block(), s.ctx)
		if len(ls) > 0 {
			hits[ls[0].header] = true
		} else {
			hits[s.in.Block()] = true
		}
	}
	start := f.Blocks[0]
	if mi, ok := ss[0].edv.(ssa.Instruction); ok && mi.Parent() == f {
		start = mi.Block()
	}
	if hits[start] {
		return "", true
	}
	seen := map[*ssa.BasicBlock]bool{start: true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && g.live(rt) {
			// Giving back the operand is judged as a result of its own.
			if len(rt.Results) == 1 && ap.term(rt.Results[0], ss[0].ctx).kind == "whole" {
				return false
			}
			return true
		}
		for _, t := range g.succs[b.Index] {
			if hits[t] || seen[t] {
				continue
			}
			seen[t] = true
			if walk(t) {
				return true
			}
		}
		return false
	}
	if walk(start) {
		return "the function can return without storing the elements", false
	}
	return "", true
}

// onlyAssociative: under what is known, the operator can only be a built-in associative one.
func (p *Prog) onlyAssociative(fs *factSet, opKey string) string {
	tabs := p.opTables()
	names := []string{"<user-defined>"}
	for n := range tabs.binary {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, ud := range []bool{false, true} {
			if associative[n] && !ud {
				continue
			}
			if fs.opPossible(opKey, n, true, ud) {
				if ud {
					return fmt.Sprintf("the running form may be used for a user-defined operator (%s)", n)
				}
				return fmt.Sprintf("the running form may be used for %s, which is not associative", n)
			}
		}
	}
	return ""
}

// opPossible: nothing known excludes that the operator has this name and is (not) user-defined.
func (fs *factSet) opPossible(opKey, name string, binary, ud bool) bool {
	p := fs.ap.p
	for _, c := range fs.cmps {
		if !isString(c.x.Type()) || c.op != token.EQL && c.op != token.NEQ {
			continue
		}
		x, y := c.x, c.y
		if _, ok := constStr(x); ok {
			x, y = y, x
		}
		s, ok := constStr(y)
		if !ok || p.key(x, c.ctx) != opKey {
			continue
		}
		if (s == name) != (c.op == token.EQL) {
			return false
		}
	}
	for _, a := range fs.atoms {
		call, ok := a.cond.(*ssa.Call)
		if !ok {
			continue
		}
		if call.Call.IsInvoke() {
			if call.Call.Method.Name() == "UserDefined" && p.key(call.Call.Args[0], a.ctx) == opKey && ud != a.val {
				if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) == binary {
					return false
				}
			}
			continue
		}
		f := call.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !p.inModule(f) {
			continue
		}
		var args []av
		uses := false
		for _, x := range call.Call.Args {
			switch {
			case isString(x.Type()) && p.key(x, a.ctx) == opKey:
				args = append(args, sconst(name))
				uses = true
			default:
				if k, ok := x.(*ssa.Const); ok && k.Value != nil {
					args = append(args, kconst{k.Value})
				} else {
					args = append(args, ktok{"arg"})
				}
			}
		}
		if !uses {
			continue
		}
		if !p.predCan(f, args, binary, ud, a.val) {
			return false
		}
	}
	return true
}

// predCan: a predicate on an operator's name can give the result.
func (p *Prog) predCan(f *ssa.Function, args []av, binary, ud, val bool) bool {
	for _, o := range explore(p, func() *interp {
		return &interp{p: p, globals: p.tableGlobals(), onCmp: tokNotNil, onCall: func(in *interp, callee *ssa.Function, method *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			if method != nil && method.Name() == "UserDefined" {
				// The question for the other valence has any answer.
				if k, ok := args[len(args)-1].(kconst); ok && k.v != nil && k.v.Kind() == constant.Bool && constant.BoolVal(k.v) == binary {
					return bconst(ud), true
				}
				return ktok{"other valence"}, true
			}
			return nil, false
		}}
	}, func(in *interp) av { return in.call(f, args, nil) }, 200) {
		if o.panicked {
			continue
		}
		k, ok := o.ret.(kconst)
		if !ok || k.v == nil || k.v.Kind() != constant.Bool || constant.BoolVal(k.v) == val {
			return true
		}
	}
	return false
}

// tableGlobals: the tables of built-in operators, with the names they have.
func (p *Prog) tableGlobals() map[*ssa.Global]*obj {
	out := map[*ssa.Global]*obj{}
	t := p.opTables()
	for name, tab := range map[string]map[string]*opEntry{"UnaryOps": t.unary, "BinaryOps": t.binary} {
		g, ok := p.spkg["value"].Members[name].(*ssa.Global)
		if !ok {
			continue
		}
		am := &amap{m: map[string]av{}, keys: map[string]av{}}
		for n := range tab {
			k, _ := akey(sconst(n))
			am.m[k], am.keys[k] = ktok{"BUILTIN"}, sconst(n)
		}
		o := newObj(g.Type().(*types.Pointer).Elem())
		o.val = kmap{am}
		out[g] = o
	}
	return out
}

// tokNotNil: an abstract object is not nil.
func tokNotNil(op token.Token, x, y av) (bool, bool) {
	isTok := func(a av) bool { _, ok := a.(ktok); return ok }
	isNil := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
	if (isTok(x) && isNil(y) || isTok(y) && isNil(x)) && (op == token.EQL || op == token.NEQ) {
		return op == token.NEQ, true
	}
	return false, false
}

// ---------------------------------------------------------------- derived operators

// derivedOps: what EvalUnary or EvalBinary does with operators formed from others.
func (p *Prog) derivedOps(r *Report, rule string, binary bool, cases map[string]string) {
	eu, eb := p.method("exec", "Context", "EvalUnary"), p.method("exec", "Context", "EvalBinary")
	ctxN, un, bin := p.opFields()
	if eu == nil || eb == nil || ctxN == nil {
		r.missing(rule, "exec.Context.EvalUnary and EvalBinary")
		return
	}
	var names []string
	for n := range cases {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, op := range names {
		var called []string
		msg := ""
		outs := explore(p, func() *interp {
			called = nil
			return &interp{p: p, onCall: func(in *interp, callee *ssa.Function, method *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
				name := ""
				if callee != nil {
					name = callee.Name()
				} else if method != nil {
					name = method.Name()
				}
				switch {
				case name == "Inner" && len(args) == 1:
					return args[0], true
				case strings.HasPrefix(name, "Trace"):
					return kconst{nil}, true
				case callee != nil && relPkg(callee) == "value" && p.appliers()[callee]:
					var as []string
					for _, a := range args[1:] {
						as = append(as, showAV(a))
					}
					called = append(called, name+"("+strings.Join(as, ",")+")")
					return ktok{"RESULT"}, true
				case callee != nil && p.noRet[callee]:
					panic(absPanic{sconst("error")})
				}
				return nil, false
			}}
		}, func(in *interp) av {
			co := newObj(ctxN)
			co.kids[un].val = kmap{&amap{m: map[string]av{}, keys: map[string]av{}}}
			co.kids[bin].val = kmap{&amap{m: map[string]av{}, keys: map[string]av{}}}
			if binary {
				return in.call(eb, []av{kptr{co}, ktok{"L"}, sconst(op), ktok{"V"}}, nil)
			}
			return in.call(eu, []av{kptr{co}, sconst(op), ktok{"V"}}, nil)
		}, 64)
		n := 0
		for _, o := range outs {
			n++
			switch {
			case o.aborted != "":
				msg = "undecided: " + o.aborted
			case o.panicked:
				msg = "stops with an error"
			case len(called) != 1 || called[0] != cases[op]:
				msg = fmt.Sprintf("computes %v instead of %s", called, cases[op])
			case showAV(o.ret) != "RESULT":
				msg = "gives something else than what " + cases[op] + " gives"
			}
		}
		if n != 1 && msg == "" {
			msg = "what it does depends on something else"
		}
		f := eu
		if binary {
			f = eb
		}
		r.add(rule, f.Name()+" "+op, f.Pos(), msg == "", "%s", orStr(msg, cases[op]))
	}
}

// ---------------------------------------------------------------- grammar

// exprSource follows an expression to where the parser made it: calls, allocations and parameters,
// through merges, conversions and callers' arguments.
func (p *Prog) exprSources(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				if p.cfg(x.Parent()).reach[x.Block().Preds[i].Index] {
					walk(e)
				}
			}
			return
		case *ssa.MakeInterface:
			walk(x.X)
			return
		case *ssa.ChangeInterface:
			walk(x.X)
			return
		case *ssa.TypeAssert:
			walk(x.X)
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a := rootAlloc(x.X); a != nil {
					for _, st := range storesTo(a) {
						walk(st.Val)
					}
					return
				}
			}
		case *ssa.Parameter:
			i := -1
			for j, q := range x.Parent().Params {
				if q == x {
					i = j
				}
			}
			cs := p.callers[x.Parent()]
			if len(cs) == 0 {
				break
			}
			for _, c := range cs {
				args := c.Common().Args
				if c.Common().StaticCallee() == x.Parent() && i < len(args) {
					walk(args[i])
				}
			}
			return
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

// combines: the function can return, directly or from a function it returns the result of, a
// binary expression.
func (p *Prog) combines(bin *types.Named) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcs {
			if relPkg(f) != "parse" || m[f] {
				continue
			}
			g := p.cfg(f)
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || !g.live(rt) {
					continue
				}
				for _, res := range rt.Results {
					if !types.IsInterface(res.Type()) && namedOf(res.Type()) != bin {
						continue
					}
					for _, s := range p.exprSources(res) {
						hit := false
						switch x := s.(type) {
						case *ssa.Alloc:
							hit = namedOf(x.Type()) != nil && namedOf(x.Type()).Obj() == bin.Obj()
						case *ssa.Call:
							hit = m[x.Call.StaticCallee()]
						}
						if hit && !m[f] {
							m[f], ch = true, true
						}
					}
				}
			}
		}
	}
	return m
}

func (p *Prog) grammar(r *Report) {
	bin, un := p.namedType("value", "BinaryExpr"), p.namedType("value", "UnaryExpr")
	if bin == nil || un == nil {
		r.missing("grammar", "value.BinaryExpr and UnaryExpr")
		return
	}
	full := p.combines(bin)
	cond := p.namedType("value", "CondExpr")
	for _, f := range p.funcs {
		if relPkg(f) != "parse" {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !g.live(in) {
					continue
				}
				n := namedOf(al.Type())
				if n == nil || n.Obj() != bin.Obj() && n.Obj() != un.Obj() {
					continue
				}
				if n.Obj() == bin.Obj() && cond != nil && storedInto(al, cond) {
					continue // the two sides of a conditional
				}
				msg := ""
				set := map[string]bool{}
				for _, rf := range *al.Referrers() {
					fa, ok := rf.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					field := fieldName(al.Type(), fa.Field)
					for _, r2 := range *fa.Referrers() {
						st, ok := r2.(*ssa.Store)
						if !ok || st.Addr != fa {
							continue
						}
						set[field] = true
						for _, src := range p.exprSources(st.Val) {
							switch field {
							case "Right":
								if c, ok := src.(*ssa.Call); !ok || !full[c.Call.StaticCallee()] {
									msg = "the right operand is not the whole expression to the right"
								}
							case "Left":
								if a, ok := src.(*ssa.Alloc); ok && namedOf(a.Type()) != nil && namedOf(a.Type()).Obj() == bin.Obj() {
									msg = "the left operand may be a combination: operators group to the left"
								}
							}
						}
					}
				}
				if !set["Right"] || n.Obj() == bin.Obj() && !set["Left"] {
					msg = orStr(msg, "an operand is not set")
				}
				r.add("grammar", fname(f)+" "+n.Obj().Name(), al.Pos(), msg == "", "%s", orStr(msg, "right operand is a full expression"))
			}
		}
	}
}

// storedInto: the allocated object is stored in a field of the named type.
func storedInto(al *ssa.Alloc, n *types.Named) bool {
	for _, rf := range *al.Referrers() {
		if st, ok := rf.(*ssa.Store); ok && st.Val == al {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				if m := namedOf(fa.X.Type()); m != nil && m.Obj() == n.Obj() {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- evaluation order

// An evalSite is an evaluation of an expression, in a context below some root.
type evalSite struct {
	in   ssa.CallInstruction
	recv ssa.Value
	ctx  *ictx
}

// evalSites lists the evaluations of expressions made by a function or by those it calls in its package.
func (p *Prog) evalSites(f *ssa.Function, ctx *ictx, out *[]evalSite) {
	exprI := p.namedType("value", "Expr")
	g := p.cfg(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !g.live(in) {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				if n := namedOf(cc.Value.Type()); cc.Method.Name() == "Eval" && n != nil && n.Obj() == exprI.Obj() {
					*out = append(*out, evalSite{c, cc.Value, ctx})
				}
				continue
			}
			cf := cc.StaticCallee()
			if cf == nil || relPkg(cf) != relPkg(f) || cf.Blocks == nil || ctxDepth(ctx) > 5 || !p.evaluates()[cf] {
				continue
			}
			if n, _ := ctx.count(cf); n > 0 {
				continue
			}
			p.evalSites(cf, ctx.enter(c, cf), out)
		}
	}
}

var evaluatesMemo map[*ssa.Function]bool

// evaluates: functions that evaluate an expression themselves or through static calls.
func (p *Prog) evaluates() map[*ssa.Function]bool {
	if evaluatesMemo != nil {
		return evaluatesMemo
	}
	m := map[*ssa.Function]bool{}
	exprI := p.namedType("value", "Expr")
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcs {
			if m[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || m[f] {
						continue
					}
					cc := c.Common()
					if cc.IsInvoke() {
						if n := namedOf(cc.Value.Type()); cc.Method.Name() == "Eval" && n != nil && n.Obj() == exprI.Obj() {
							m[f], ch = true, true
						}
					} else if cf := cc.StaticCallee(); cf != nil && m[cf] {
						m[f], ch = true, true
					}
				}
			}
		}
	}
	evaluatesMemo = m
	return m
}

// before: whenever b is reached, a has been executed, in the tree of calls below a common root.
func (p *Prog) before(a ssa.Instruction, ac *ictx, b ssa.Instruction, bc *ictx) bool {
	type hop struct {
		in ssa.Instruction
		c  *ictx
	}
	path := func(in ssa.Instruction, c *ictx) []hop {
		out := []hop{{in, ownCtxOf(in.Parent(), c)}}
		for c := ownCtxOf(in.Parent(), c); c != nil; c = c.parent {
			out = append(out, hop{c.call.(ssa.Instruction), c.parent})
		}
		return out
	}
	pa, pb := path(a, ac), path(b, bc)
	for i, x := range pa {
		for _, y := range pb {
			if x.c != y.c || x.in.Parent() != y.in.Parent() {
				continue
			}
			if x.in == y.in {
				return false
			}
			if !p.cfg(x.in.Parent()).instrDominates(x.in, y.in) {
				return false
			}
			// Below the common function, a is executed on every way out.
			for _, z := range pa[:i] {
				g := p.cfg(z.in.Parent())
				for _, blk := range z.in.Parent().Blocks {
					if rt, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && g.live(rt) && !g.instrDominates(z.in, rt) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

func (p *Prog) operandOrder(r *Report) {
	f := p.method("value", "BinaryExpr", "Eval")
	if f == nil {
		r.missing("operand-order", "value.BinaryExpr.Eval")
		return
	}
	var es []evalSite
	p.evalSites(f, nil, &es)
	recv := uniq(f.Params[0])
	n := 0
	for _, l := range es {
		if p.key(l.recv, l.ctx) != recv+".Left" {
			continue
		}
		n++
		ok := false
		for _, x := range es {
			if p.key(x.recv, x.ctx) == recv+".Right" && p.before(x.in, x.ctx, l.in, l.ctx) {
				ok = true
			}
		}
		msg := ""
		if !ok {
			msg = "the left operand may be evaluated before the right one"
		}
		r.add("operand-order", fname(l.in.Parent())+" Left", l.in.Pos(), ok, "%s", orStr(msg, "after the right operand"))
	}
	if n == 0 {
		r.missing("operand-order", "the evaluation of the left operand")
	}
}

// listOrder: evaluations of the elements of a list of expressions.
func (p *Prog) listOrder(r *Report) {
	exprI := p.namedType("value", "Expr")
	isList := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		n := namedOf(sl.Elem())
		return n != nil && n.Obj() == exprI.Obj()
	}
	index := p.namedType("value", "IndexExpr")
	for _, f := range p.funcs {
		if pkg := relPkg(f); pkg != "value" && pkg != "exec" {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !g.live(in) {
					continue
				}
				var ev ssa.Value
				if n := namedOf(c.Call.Value.Type()); c.Call.IsInvoke() && c.Call.Method.Name() == "Eval" && n != nil && n.Obj() == exprI.Obj() {
					ev = c.Call.Value
				} else {
					continue
				}
				// The element it comes from.
				var ia *ssa.IndexAddr
				v := ev
				for i := 0; i < 6 && ia == nil; i++ {
					switch x := v.(type) {
					case *ssa.UnOp:
						if a, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
							ia = a
						} else if w, ok := loadedValue(x); ok {
							v = w
						}
					case *ssa.TypeAssert:
						v = x.X
					case *ssa.Extract:
						if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
							v = ta.X
						}
					}
				}
				if ia == nil || !isList(ia.X.Type()) {
					continue
				}
				desc := p.fromIndex(ia.X, index, 0)
				if n := namedOf(ia.X.Type()); n != nil && n.Obj().Name() == "VectorExpr" {
					desc = true
				}
				ap := newApplier(p, f)
				ap.roles = map[*ssa.Parameter]string{}
				s := ap.s
				idx := s.eval(ia.Index, nil)
				loops := s.enclosing(c.Block(), nil)
				msg := ""
				what := "statements in order"
				if desc {
					what = "from the last to the first"
				}
				if len(loops) == 0 {
					msg = "evaluates one element only"
				} else {
					l := loops[len(loops)-1]
					k, rest, lin := idx.coeff(l.atom)
					step, isC := k.isConst()
					n := ap.length(ap.seq(ia.X, nil))
					t := s.trip(l)
					first := pconst(0)
					if desc {
						first = padd(n, pconst(-1))
					}
					want := int64(1)
					if desc {
						want = -1
					}
					switch {
					case !lin || !isC || step != want:
						msg = fmt.Sprintf("evaluates element %s: not %s", idx, what)
					case !peq(rest, first):
						msg = fmt.Sprintf("starts with element %s", rest)
					case desc && (!t.ok || t.n == nil || !peq(t.n, n)):
						msg = "does not evaluate every element"
					}
					if desc && msg == "" {
						// What is indexed is evaluated afterwards.
						if prm, ok := indexedParam(f, exprI); ok && !(namedOf(ia.X.Type()) != nil && namedOf(ia.X.Type()).Obj().Name() == "VectorExpr") {
							p.indexedAfter(r, f, l, prm)
						}
					}
				}
				r.add("list-order", fname(f)+" elements", c.Pos(), msg == "", "%s", orStr(msg, what))
			}
		}
	}
}

// fromIndex: the list is the Right field of an index expression, possibly passed by callers.
func (p *Prog) fromIndex(v ssa.Value, index *types.Named, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if w, ok := loadedValue(x); ok {
			return p.fromIndex(w, index, d)
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			n := namedOf(fa.X.Type())
			return n != nil && index != nil && n.Obj() == index.Obj()
		}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, c := range p.callers[x.Parent()] {
				if args := c.Common().Args; c.Common().StaticCallee() == x.Parent() && i < len(args) && p.fromIndex(args[i], index, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func indexedParam(f *ssa.Function, exprI *types.Named) ([]*ssa.Parameter, bool) {
	var out []*ssa.Parameter
	for _, prm := range f.Params {
		if n := namedOf(prm.Type()); n != nil && (n.Obj() == exprI.Obj() || n.Obj().Name() == "VarExpr") {
			out = append(out, prm)
		}
	}
	return out, len(out) > 0
}

// readsIndexed: h evaluates an expression or looks up a variable.
func (p *Prog) readsIndexed(h *ssa.Function, d int) bool {
	if d > 3 {
		return false
	}
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if c.Call.IsInvoke() {
				if in2(c.Call.Method.Name(), "Eval", "Local", "Global") {
					return true
				}
			} else if k := c.Call.StaticCallee(); k != nil && p.inModule(k) && !p.noRet[k] && p.readsIndexed(k, d+1) {
				return true
			}
		}
	}
	return false
}

// indexedAfter: evaluations of other expressions, and reads of the variable indexed, come after the loop.
func (p *Prog) indexedAfter(r *Report, f *ssa.Function, l *sloop, prms []*ssa.Parameter) {
	g := p.cfg(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !g.live(in) {
				continue
			}
			isEval := false
			name := ""
			if c.Call.IsInvoke() {
				name = c.Call.Method.Name()
			} else if h := c.Call.StaticCallee(); h != nil && p.inModule(h) && p.readsIndexed(h, 0) {
				// a helper given the expression
				for _, a := range c.Call.Args {
					for _, q := range prms {
						if a == ssa.Value(q) {
							isEval, name = true, h.Name()
						}
					}
				}
			}
			if name == "Eval" {
				w := c.Call.Value
				if u, ok := w.(*ssa.UnOp); ok {
					if x, ok := loadedValue(u); ok {
						w = x
					}
				}
				for _, q := range prms {
					if w == ssa.Value(q) {
						isEval = true
					}
				}
			}
			if !isEval && name != "Local" && name != "Global" {
				continue
			}
			ok = !l.body[b] && g.dominates(l.header, b)
			msg := ""
			if !ok {
				msg = "what is indexed may be read before its indexes are evaluated"
			}
			r.add("indexed-after", fname(f)+" "+name, c.Pos(), ok, "%s", orStr(msg, "after the indexes"))
		}
	}
}
