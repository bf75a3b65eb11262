package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

func checkC08(p *Prog, r *Report) {
	persistRules(p, r, "storage-", "concurrency")
	r.rule("tiling", "the ranges given to the workers are disjoint and together make up all the elements, and at least one worker is started", 2)
	r.rule("join", "every worker reports to the goroutine that started it, which waits for all of them and stops with the error if one of them failed", 3)
	r.rule("operators", "no operator that is defined by the user, derived from one, or draws random numbers is applied by workers", 15)
	r.rule("elements", "different workers never store to the same element of a result, unless they store the same value", 20)
	r.rule("private", "a worker stores to nothing that another worker or the goroutine that started it can see, other than the elements of the result", 20)
	r.rule("shared-state", "code that may run in a worker changes package variables, the session or the configuration only under a lock", 10)
	p.workersStarted(r)
	p.workerBodies(r)
	p.workerEffects(r)
}

// ---------------------------------------------------------------- the parallel loop

func (p *Prog) workersStarted(r *Report) {
	n := 0
	for _, f := range p.funcs {
		if relPkg(f) != "value" {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				gi, ok := in.(*ssa.Go)
				if !ok || !g.live(in) {
					continue
				}
				n++
				if _, _, ok := p.parFor(f); !ok {
					r.bad("tiling", fname(f)+" go", gi.Pos(), "goroutines are started by something that is not a loop over ranges")
					continue
				}
				p.tiling(r, f, gi)
				p.join(r, f, gi)
			}
		}
	}
	if n == 0 {
		r.missing("tiling", "a parallel loop in package value")
	}
}

func (p *Prog) tiling(r *Report, f *ssa.Function, gi *ssa.Go) {
	nArg, fArg, _ := p.parFor(f)
	ap := newApplier(p, f)
	s := ap.s
	name := fname(f)
	body, c := p.goBody(gi)
	if body == nil {
		r.bad("tiling", name, gi.Pos(), "what the goroutine runs cannot be told")
		return
	}
	n := s.eval(f.Params[nArg], nil)
	isF := func(v ssa.Value, ctx *ictx) bool {
		w, _ := ap.resolve(v, ctx)
		return w == f.Params[fArg]
	}
	// The call of the loop body in the goroutine.
	calls := 0
	p.within(body, c, 4, func(in ssa.Instruction, ctx *ictx) {
		call, ok := in.(*ssa.Call)
		if !ok || call.Call.IsInvoke() || !isF(call.Call.Value, ctx) {
			return
		}
		calls++
		lo, hi := s.eval(call.Call.Args[0], ctx), s.eval(call.Call.Args[1], ctx)
		msg := p.tiles(ap, gi, lo, hi, n, call.Call.Args[0], call.Call.Args[1], ctx)
		r.add("tiling", name+" ranges", call.Pos(), msg == "", "%s", orStr(msg, fmt.Sprintf("[%s, %s) of %s", lo, hi, n)))
	})
	if calls != 1 {
		r.bad("tiling", name, gi.Pos(), "the goroutine calls the loop body at %d places", calls)
	}
	// The direct calls.
	g := p.cfg(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !g.live(in) || call.Call.IsInvoke() || !isF(call.Call.Value, nil) {
				continue
			}
			lo, hi := s.eval(call.Call.Args[0], nil), s.eval(call.Call.Args[1], nil)
			ok2 := len(lo) == 0 && peq(hi, n) && len(s.enclosing(b, nil)) == 0
			r.add("tiling", name+" sequential", call.Pos(), ok2, "[%s, %s) of %s", lo, hi, n)
		}
	}
}

// goBody: the function a go statement runs, in the context of the statement.
func (p *Prog) goBody(gi *ssa.Go) (*ssa.Function, *ictx) {
	var f *ssa.Function
	switch x := gi.Call.Value.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	}
	if f == nil || f.Blocks == nil {
		return nil, nil
	}
	return f, (*ictx)(nil).enter(gi, f)
}

// within visits the instructions of a function and of what it calls in package value.
func (p *Prog) within(f *ssa.Function, ctx *ictx, depth int, visit func(ssa.Instruction, *ictx)) {
	g := p.cfg(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if !g.live(in) {
				continue
			}
			visit(in, ctx)
			c, ok := in.(ssa.CallInstruction)
			if !ok || depth == 0 {
				continue
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
			cf := c.Common().StaticCallee()
			if cf == nil || cf.Blocks == nil || relPkg(cf) != "value" {
				continue
			}
			if k, _ := ctx.count(cf); k > 0 {
				continue
			}
			p.within(cf, ctx.enter(c, cf), depth-1, visit)
		}
	}
}

func (p *Prog) tiles(ap *applier, gi *ssa.Go, lo, hi, n poly, loV, hiV ssa.Value, ctx *ictx) string {
	s := ap.s
	loops := s.enclosing(gi.Block(), nil)
	if len(loops) != 1 {
		return "the workers are not started by a single loop"
	}
	l := loops[0]
	g := p.cfg(gi.Parent())
	for _, lt := range l.latch {
		if !g.dominates(gi.Block(), lt) {
			return "an iteration may start no worker"
		}
	}
	t := s.trip(l)
	counted := t.ok && t.n != nil && t.whileNon == nil
	some := func() string {
		// At least one.
		exit := l.header
		if t.bottom {
			exit = l.latch[0]
		}
		iff, ok := exit.Instrs[len(exit.Instrs)-1].(*ssa.If)
		if !t.bottom && (!ok || !p.someIteration(s, l, iff, gi)) || t.bottom && !p.reachesLoop(s, l, t.n) {
			return "there may be no worker at all"
		}
		return ""
	}
	if counted {
		if next := s.subst(lo, l.atom, padd(patom(l.atom), pconst(1))); peq(next, hi) {
			if start := s.subst(lo, l.atom, poly{}); len(start) != 0 {
				return fmt.Sprintf("the first range starts at %s", start)
			}
			if end := s.subst(lo, l.atom, t.n); !peq(end, n) {
				return fmt.Sprintf("the last range ends at %s instead of %s", end, n)
			}
			return some()
		}
		// The end of one range is kept as the start of the next.
		if w, _ := ap.resolve(loV, ctx); w != nil {
			if ph, ok := w.(*ssa.Phi); ok && ph.Block() == l.header {
				chained := true
				for i, e := range ph.Edges {
					switch pb := ph.Block().Preds[i]; {
					case !g.reach[pb.Index]:
					case l.body[pb]:
						chained = chained && peq(s.eval(e, nil), hi)
					default:
						k, ok := constInt(e)
						chained = chained && ok && k == 0
					}
				}
				if chained {
					if end := s.subst(hi, l.atom, padd(t.n, pconst(-1))); !peq(end, n) {
						return fmt.Sprintf("the last range ends at %s instead of %s", end, n)
					}
					return some()
				}
			}
		}
	}
	// Steps of a fixed size, the last one cut short.
	lo0 := lo
	if w, wc := ap.resolve(loV, ctx); w != nil {
		// min(i*c, n)
		if x, ok := w.(*ssa.Call); ok {
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "min" && len(x.Call.Args) == 2 {
				for i, a := range x.Call.Args {
					if peq(s.eval(x.Call.Args[1-i], wc), n) {
						lo0 = s.eval(a, wc)
					}
				}
			}
		}
	}
	if m := s.subst(lo0, l.atom, poly{}); len(m) != 0 {
		return fmt.Sprintf("the first range starts at %s", m)
	}
	c, _, lin := lo0.coeff(l.atom)
	if !lin || len(c) == 0 {
		return "the ranges cannot be followed: " + lo.String()
	}
	lo = lo0
	w, wc := ap.resolve(hiV, ctx)
	var ends []ssa.Value
	var stores []*ssa.Store
	switch x := w.(type) {
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "min" {
			ends = x.Call.Args
		}
	case *ssa.Phi:
		ends = x.Edges
	case *ssa.UnOp:
		// A captured variable that is changed under a condition.
		if a := rootAlloc(x.X); a != nil {
			if st := storesTo(a); len(st) == 2 && g.instrDominates(st[0], st[1]) && st[1].Parent() == gi.Parent() {
				stores = st
				ends = []ssa.Value{st[0].Val, st[1].Val}
				wc = nil
			}
		}
	}
	full, cut := false, false
	for _, e := range ends {
		switch m := s.eval(e, wc); {
		case peq(m, padd(lo, c)):
			full = true
		case peq(m, n):
			cut = true
		default:
			return "a range ends at " + m.String()
		}
	}
	if !full || !cut {
		return "the ranges cannot be followed: " + hi.String()
	}
	if ph, ok := w.(*ssa.Phi); ok || stores != nil {
		// The cut must be made exactly when the full range goes beyond the end.
		good := false
		for i, e := range ends {
			if !peq(s.eval(e, wc), n) {
				continue
			}
			var cm []cmpFact
			if stores != nil {
				cm, _ = p.expand(p.guards(stores[i].Block(), nil))
			} else {
				cm, _ = p.expand(p.edgeFacts(ph.Block().Preds[i], ph.Block(), wc))
			}
			for _, k := range cm {
				x, y := s.eval(k.x, wc), s.eval(k.y, wc)
				if (k.op == token.GTR || k.op == token.GEQ) && peq(x, padd(lo, c)) && peq(y, n) ||
					(k.op == token.LSS || k.op == token.LEQ) && peq(y, padd(lo, c)) && peq(x, n) {
					good = true
				}
				// The last of p ranges of n/p takes the rest.
				if k.op == token.EQL && counted && peq(c, s.div(n, t.n)) {
					last := padd(t.n, pconst(-1))
					if peq(x, patom(l.atom)) && peq(y, last) || peq(y, patom(l.atom)) && peq(x, last) {
						return some()
					}
				}
			}
		}
		if !good {
			return "the last range is not cut where the elements end"
		}
	}
	if counted {
		ceil := func(a, b poly) poly { return s.div(padd(padd(a, b), pconst(-1)), b) }
		if peq(c, ceil(n, t.n)) || peq(t.n, ceil(n, c)) {
			return some()
		}
		return fmt.Sprintf("%s ranges of %s may not reach %s", t.n, c, n)
	}
	// The loop goes on while lo < n.
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return "the loop over the ranges cannot be followed"
	}
	cm, _ := p.expand([]fact{{iff.Cond, l.body[l.header.Succs[0]], nil}})
	for _, k := range cm {
		x, y := s.eval(k.x, nil), s.eval(k.y, nil)
		if k.op == token.LSS && peq(x, lo) && peq(y, n) || k.op == token.GTR && peq(y, lo) && peq(x, n) {
			return ""
		}
	}
	return "the loop over the ranges may stop early"
}

// reachesLoop: a loop tested at the end is entered, n being the number of iterations.
func (p *Prog) reachesLoop(s *scev, l *sloop, n poly) bool {
	f := l.header.Parent()
	g := p.cfg(f)
	for i, pb := range l.header.Preds {
		_ = i
		if l.body[pb] || !g.reach[pb.Index] {
			continue
		}
		iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
		if !ok {
			return true
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		lim := bo.Y
		if bo.Op == token.GTR || bo.Op == token.GEQ {
			lim = bo.X
		}
		return p.positive(s, lim, p.guards(pb, nil), 0)
	}
	return false
}

// someIteration: the loop runs at least once.
func (p *Prog) someIteration(s *scev, l *sloop, iff *ssa.If, at ssa.Instruction) bool {
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	lim := bo.Y
	if bo.Op == token.GTR || bo.Op == token.GEQ {
		lim = bo.X
	}
	if _, isPhi := lim.(*ssa.Phi); isPhi && lim.(*ssa.Phi).Block() == l.header {
		// Counting down: the start.
		for i, e := range lim.(*ssa.Phi).Edges {
			if !l.body[l.header.Preds[i]] {
				lim = e
			}
		}
	}
	return p.positive(s, lim, p.guards(l.header, nil), 0)
}

// positive: the value is at least 1.
func (p *Prog) positive(s *scev, v ssa.Value, facts []fact, d int) bool {
	if d > 10 {
		return false
	}
	if n, ok := constInt(v); ok {
		return n >= 1
	}
	cm, _ := p.expand(facts)
	// d >= 0 for each known comparison.
	geq := func(want poly, nonneg func(poly) bool) bool {
		for _, k := range cm {
			if !isIntType(k.x.Type()) {
				continue
			}
			x, y := s.eval(k.x, k.ctx), s.eval(k.y, k.ctx)
			var e poly
			switch k.op {
			case token.GEQ, token.EQL:
				e = psub(x, y)
			case token.GTR:
				e = padd(psub(x, y), pconst(-1))
			case token.LEQ:
				e = psub(y, x)
			case token.LSS:
				e = padd(psub(y, x), pconst(-1))
			default:
				continue
			}
			if nonneg(psub(want, e)) {
				return true
			}
		}
		return false
	}
	constNonneg := func(m poly) bool { k, ok := m.isConst(); return ok && k >= 0 }
	if geq(padd(s.eval(v, nil), pconst(-1)), constNonneg) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		n := 0
		for i, e := range x.Edges {
			pb := x.Block().Preds[i]
			if !p.cfg(x.Parent()).reach[pb.Index] || p.edgeExcluded(x.Block(), i, facts) {
				continue
			}
			n++
			if !p.positive(s, e, append(p.edgeFacts(pb, x.Block(), nil), facts...), d+1) {
				return false
			}
		}
		return n > 0
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return p.globalPositive(g)
			}
			if w, ok := loadedValue(x); ok {
				return p.positive(s, w, facts, d+1)
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.MUL, token.ADD:
			return p.positive(s, x.X, facts, d+1) && p.positive(s, x.Y, facts, d+1)
		case token.QUO:
			if !p.positive(s, x.Y, facts, d+1) {
				return false
			}
			// x >= y is known.
			y := s.eval(x.Y, nil)
			ya := map[string]bool{}
			for _, a := range y.atoms() {
				ya[a] = true
			}
			return geq(psub(s.eval(x.X, nil), y), func(m poly) bool {
				for mono, k := range m {
					if k < 0 || mono != "" && !ya[mono] {
						return false
					}
				}
				return true
			})
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			any, all := false, true
			for _, a := range x.Call.Args {
				if p.positive(s, a, facts, d+1) {
					any = true
				} else {
					all = false
				}
			}
			return bi.Name() == "min" && all || bi.Name() == "max" && any
		}
		if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "runtime" && (f.Name() == "GOMAXPROCS" || f.Name() == "NumCPU") {
			return true
		}
	}
	return false
}

// edgeExcluded: a fact about another variable merged at the block rules out the edge.
func (p *Prog) edgeExcluded(b *ssa.BasicBlock, i int, facts []fact) bool {
	for _, f := range facts {
		ph, ok := f.cond.(*ssa.Phi)
		if !ok || ph.Block() != b {
			continue
		}
		e := ph.Edges[i]
		if isBoolConst(e) && constBool(e) != f.val {
			return true
		}
		pb := b.Preds[i]
		if iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && iff.Cond == e && pb.Succs[0] != pb.Succs[1] && (pb.Succs[0] == b) != f.val {
			return true
		}
	}
	return false
}

// globalPositive: everything stored in the variable is a positive constant.
func (p *Prog) globalPositive(g *ssa.Global) bool {
	n := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					n++
					if k, ok := constInt(st.Val); !ok || k < 1 {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// join: the workers' failures reach whoever started them, and none is left running.
func (p *Prog) join(r *Report, f *ssa.Function, gi *ssa.Go) {
	name := fname(f)
	ap := newApplier(p, f)
	s := ap.s
	body, c := p.goBody(gi)
	if body == nil {
		return
	}
	loops := s.enclosing(gi.Block(), nil)
	if len(loops) != 1 {
		return
	}
	start := loops[0]
	// What the goroutine defers.
	var rep *ssa.Defer
	var sent ssa.Value // channel or variable that receives the result of recover
	var sentCtx *ictx
	var done ssa.Instruction
	g := p.cfg(body)
	for _, b := range body.Blocks {
		for _, in := range b.Instrs {
			df, ok := in.(*ssa.Defer)
			if !ok || !g.live(in) {
				continue
			}
			cf := df.Call.StaticCallee()
			if cf == nil {
				continue
			}
			if isWaitGroup(cf, "Done") {
				done = df
				continue
			}
			if cf.Blocks == nil {
				continue
			}
			cc := c.enter(df, cf)
			fg := p.cfg(cf)
			for _, b2 := range cf.Blocks {
				for _, in2 := range b2.Instrs {
					if !fg.live(in2) {
						continue
					}
					switch x := in2.(type) {
					case *ssa.Send:
						if isRecover(x.X) && everyPath(p, cf, b2) {
							rep, sent, sentCtx = df, x.Chan, cc
						}
					case *ssa.Store:
						if isRecover(x.Val) {
							rep, sent, sentCtx = df, x.Addr, cc
						}
					case *ssa.Call:
						if isWaitGroup(x.Call.StaticCallee(), "Done") {
							done = df
						}
					}
				}
			}
		}
	}
	msg := ""
	if rep == nil {
		msg = "a worker that fails does not report its error"
	} else {
		// Before anything that can fail.
		for _, b := range body.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && g.live(in) && !g.instrDominates(rep, call) {
					if _, bi := call.Call.Value.(*ssa.Builtin); !bi {
						msg = "the worker may fail before it is set to report"
					}
				}
			}
		}
	}
	r.add("join", name+" reports", gi.Pos(), msg == "", "%s", orStr(msg, "deferred"))
	if rep == nil {
		return
	}
	ch, _ := ap.resolve(sent, sentCtx)
	ch = stripChan(ch)
	ch, _ = ap.resolve(ch, nil)
	// Waiting for all, here or in a function called for it.
	w := p.findWait(ap, f, nil, ch, start, done != nil, 0)
	waited := w != nil
	if waited {
		fg := p.cfg(f)
		// Every way from the start of the workers to the end passes the waiting.
		for b := range start.body {
			for _, t := range fg.succs[b.Index] {
				if !start.body[t] && w.avoidable(fg, t) {
					waited = false
				}
			}
		}
	}
	r.add("join", name+" waits", gi.Pos(), waited, "every worker is waited for before going on")
	if w == nil {
		return
	}
	// Passing the error on.
	msg = "no error of a worker is passed on"
	for lv := w; lv != nil; lv = lv.inner {
		fg := p.cfg(lv.f)
		for _, b := range lv.f.Blocks {
			for _, in := range b.Instrs {
				pn, ok := in.(*ssa.Panic)
				if !ok || !fg.live(in) {
					continue
				}
				m := p.errorAt(ap, lv, pn.X, ch)
				if m == "?" {
					continue
				}
				msg = m
				if msg == "" {
					// Returning means there was none.
					for _, b2 := range lv.f.Blocks {
						rt, ok := b2.Instrs[len(b2.Instrs)-1].(*ssa.Return)
						if !ok || !fg.live(rt) || lv == w && !fg.reachableFrom(gi, rt) {
							continue
						}
						known := false
						cm, _ := p.expand(p.guards(b2, nil))
						for _, k := range cm {
							if k.op == token.EQL && (k.x == pn.X && isNilConst(k.y) || k.y == pn.X && isNilConst(k.x)) {
								known = true
							}
						}
						if !known && w.receive() != nil {
							msg = "the loop can return although a worker has failed"
						}
					}
				}
			}
		}
	}
	r.add("join", name+" fails", gi.Pos(), msg == "", "%s", orStr(msg, "the error of a worker is passed on"))
}

// waiting: where a function waits for the workers, itself or by calling another.
type waiting struct {
	f     *ssa.Function
	block *ssa.BasicBlock // passed only after all workers are done
	recv  *ssa.UnOp       // what is received from a worker, if the workers send
	call  *ssa.Call       // or the call that waits
	inner *waiting
}

func (w *waiting) receive() *ssa.UnOp {
	for ; w != nil; w = w.inner {
		if w.recv != nil {
			return w.recv
		}
	}
	return nil
}

// avoidable: there is a way from the block to the end that does not pass the waiting.
func (w *waiting) avoidable(g *cfg, from *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == w.block || seen[b] {
			return false
		}
		seen[b] = true
		if len(g.succs[b.Index]) == 0 {
			return true
		}
		for _, t := range g.succs[b.Index] {
			if walk(t) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

func (p *Prog) findWait(ap *applier, f *ssa.Function, ctx *ictx, ch ssa.Value, start *sloop, done bool, depth int) *waiting {
	s := ap.s
	fg := p.cfg(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if !fg.live(in) {
				continue
			}
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op != token.ARROW {
					continue
				}
				w, _ := ap.resolve(x.X, ctx)
				w = stripChan(w)
				w, _ = ap.resolve(w, nil)
				if w != ch {
					continue
				}
				ls := s.enclosing(b, ctx)
				if len(ls) != 1 || ls[0] == start {
					continue
				}
				t0, t1 := s.trip(start), s.trip(ls[0])
				every := true
				for _, lt := range ls[0].latch {
					every = every && fg.dominates(b, lt)
				}
				if !t0.ok || !t1.ok || t0.n == nil || t1.n == nil || !peq(t0.n, t1.n) || !every {
					continue
				}
				res := &waiting{f: f, block: ls[0].header, recv: x}
				if t1.bottom {
					// Tested beforehand: not entered if there is no worker.
					for _, pb := range res.block.Preds {
						if _, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && !ls[0].body[pb] && p.entryTest(s, ctx, pb, res.block, t1.n) {
							res.block = pb
							break
						}
					}
				}
				// The waiting loop is left only by its condition.
				exit := ls[0].header
				if t1.bottom {
					exit = ls[0].latch[0]
				}
				for lb := range ls[0].body {
					for _, t := range fg.succs[lb.Index] {
						if !ls[0].body[t] && lb != exit {
							return nil
						}
					}
					if len(fg.succs[lb.Index]) == 0 {
						return nil
					}
				}
				return res
			case *ssa.Call:
				if len(s.enclosing(b, ctx)) != 0 {
					continue
				}
				if isWaitGroup(x.Call.StaticCallee(), "Wait") {
					if done {
						return &waiting{f: f, block: b}
					}
					continue
				}
				cf := x.Call.StaticCallee()
				if cf == nil || cf.Blocks == nil || !p.inModule(cf) || depth > 2 || cf == f {
					continue
				}
				if w := p.findWait(ap, cf, ctx.enter(x, cf), ch, start, done, depth+1); w != nil && !w.avoidable(p.cfg(cf), cf.Blocks[0]) {
					return &waiting{f: f, block: b, call: x, inner: w}
				}
			}
		}
	}
	return nil
}

// errorAt: what errorOf says of a value in a function that waits.
func (p *Prog) errorAt(ap *applier, w *waiting, v ssa.Value, ch ssa.Value) string {
	if w.inner == nil {
		return p.errorOf(ap, v, w.recv, ch, p.cfg(w.f))
	}
	if v != ssa.Value(w.call) {
		return "?"
	}
	g := p.cfg(w.inner.f)
	n := 0
	for _, b := range w.inner.f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !g.live(rt) || len(rt.Results) != 1 {
			continue
		}
		n++
		if m := p.errorAt(ap, w.inner, rt.Results[0], ch); m != "" {
			return m
		}
	}
	if n == 0 {
		return "?"
	}
	return ""
}

// entryTest: the block goes to the loop if and only if n is at least 1.
func (p *Prog) entryTest(s *scev, ctx *ictx, b, loop *ssa.BasicBlock, n poly) bool {
	iff := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	cm, _ := p.expand([]fact{{iff.Cond, b.Succs[0] == loop, ctx}})
	for _, k := range cm {
		x, y := s.eval(k.x, ctx), s.eval(k.y, ctx)
		switch k.op {
		case token.LSS:
			if peq(psub(y, x), n) {
				return true
			}
		case token.GTR:
			if peq(psub(x, y), n) {
				return true
			}
		}
	}
	return false
}

// errorOf: v is the error received from a worker, kept once there is one. "?": something else.
func (p *Prog) errorOf(ap *applier, v ssa.Value, recv *ssa.UnOp, cell ssa.Value, g *cfg) string {
	if recv == nil {
		// Loaded from where the workers put it.
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return ""
		}
		return "?"
	}
	from := false
	seen := map[ssa.Value]bool{}
	msg := ""
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				pb := x.Block().Preds[i]
				if !g.reach[pb.Index] {
					continue
				}
				if e == recv {
					// Kept only if it is one.
					known := false
					cm, _ := p.expand(p.edgeFacts(pb, x.Block(), nil))
					for _, k := range cm {
						if k.op == token.NEQ && (k.x == recv && isNilConst(k.y) || k.y == recv && isNilConst(k.x)) {
							known = true
						}
					}
					if !known {
						msg = "a worker that succeeds hides the error of one that failed"
					}
				}
				walk(e)
			}
		case *ssa.UnOp:
			if x == recv {
				from = true
			}
		}
	}
	walk(v)
	if !from {
		return "?"
	}
	return msg
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func stripChan(v ssa.Value) ssa.Value {
	for {
		ct, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = ct.X
	}
}

func isRecover(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		bi, ok := x.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "recover"
	case *ssa.MakeInterface:
		return isRecover(x.X)
	}
	return false
}

func isWaitGroup(f *ssa.Function, name string) bool {
	return f != nil && f.Name() == name && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && recvNamed(f) == "WaitGroup"
}

// everyPath: every way through the function passes the block.
func everyPath(p *Prog, f *ssa.Function, b *ssa.BasicBlock) bool {
	g := p.cfg(f)
	for _, x := range f.Blocks {
		if g.reach[x.Index] && len(g.succs[x.Index]) == 0 && !g.dominates(b, x) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- the bodies

// workerBodies examines every use of the parallel loop.
func (p *Prog) workerBodies(r *Report) {
	for _, f := range p.funcs {
		if relPkg(f) != "value" {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !g.live(in) {
					continue
				}
				cf := call.Call.StaticCallee()
				if cf == nil || relPkg(cf) != "value" {
					continue
				}
				if _, _, ok := p.parFor(cf); !ok {
					continue
				}
				for _, ctx := range p.contextsOf(f, 0) {
					p.workerBody(r, f, call, cf, ctx)
				}
			}
		}
	}
}

// contextsOf: a function that is handed functions is examined for each of its callers.
func (p *Prog) contextsOf(f *ssa.Function, d int) []*ictx {
	higher := false
	for _, prm := range f.Params {
		if _, ok := prm.Type().Underlying().(*types.Signature); ok {
			higher = true
		}
		if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			higher = true
		}
	}
	cs := p.callers[f]
	if !higher || len(cs) == 0 || d > 2 || p.addressTaken(f) {
		return []*ictx{nil}
	}
	var out []*ictx
	for _, c := range cs {
		if !p.cfg(c.Parent()).live(c) {
			continue
		}
		for _, x := range p.contextsOf(c.Parent(), d+1) {
			out = append(out, x.enter(c, f))
		}
	}
	return out
}

type worker struct {
	p     *Prog
	r     *Report
	ap    *applier
	name  string
	body  *ssa.Function
	ctx   *ictx // of the body
	cmps  []cmpFact
	atoms []fact
	seen  map[ictxFn]bool
}

func (p *Prog) workerBody(r *Report, f *ssa.Function, call *ssa.Call, par *ssa.Function, ctx *ictx) {
	nArg, fArg, _ := p.parFor(par)
	ap := newApplier(p, f)
	w, _ := ap.resolve(call.Call.Args[fArg], ctx)
	mc, ok := w.(*ssa.MakeClosure)
	name := fname(f)
	if !ok {
		r.bad("private", name, call.Pos(), "what the workers run cannot be told")
		return
	}
	body := mc.Fn.(*ssa.Function)
	c2 := ctx.enter(call, body)
	if c2.args == nil {
		c2.args = make([]ssa.Value, len(body.Params))
	}
	ap.s.ranges[c2] = scevRange{body.Params[0], body.Params[1], call.Call.Args[nArg], ctx}
	wk := &worker{p: p, r: r, ap: ap, name: fname(body), body: body, ctx: c2, seen: map[ictxFn]bool{}}
	// What is known when it runs in parallel.
	facts := p.guards(call.Block(), ctx)
	for i, prm := range par.Params {
		if bt, ok := prm.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			if isBoolConst(call.Call.Args[i]) && !constBool(call.Call.Args[i]) {
				return // never in parallel
			}
			facts = append(facts, fact{call.Call.Args[i], true, ctx})
		}
	}
	for c := ctx; c != nil; c = c.parent {
		facts = append(facts, p.guards(c.call.Block(), c.parent)...)
	}
	wk.cmps, wk.atoms = p.expand(facts)
	wk.walk(body, c2, 0)
}

func (w *worker) walk(f *ssa.Function, ctx *ictx, depth int) {
	if w.seen[ictxFn{ctx, f}] {
		return
	}
	w.seen[ictxFn{ctx, f}] = true
	p, r := w.p, w.r
	g := p.cfg(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if !g.live(in) || w.impossible(b, ctx) {
				continue
			}
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && w.result(ia.X, ctx) {
					w.element(in, ia.X, ia.Index, x.Val, ctx)
					continue
				}
				w.store(x.Addr, in, ctx, "stores to")
			case *ssa.UnOp:
				if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && w.result(ia.X, ctx) && w.written(ia.X, ctx) {
					w.read(in, ia.X, ia.Index, ctx)
				}
			case *ssa.MapUpdate:
				w.store(x.Map, in, ctx, "updates")
			case *ssa.Go:
				r.bad("private", w.name, x.Pos(), "a worker starts goroutines of its own")
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if !capLimited(cc.Args[0]) {
							w.store(cc.Args[0], in, ctx, "appends to")
						}
					case "copy", "clear", "delete":
						w.store(cc.Args[0], in, ctx, "writes to")
					}
					continue
				}
				call, isCall := in.(*ssa.Call)
				if isCall {
					if op, _, ok := p.evalCall(&call.Call); ok {
						w.operator(call, op, ctx)
						continue
					}
				}
				if cc.IsInvoke() {
					continue
				}
				cf := cc.StaticCallee()
				if cf == nil && isCall {
					cf = w.ap.calleeOf(call, ctx)
				}
				if cf == nil {
					continue
				}
				if isBigMethod(cf) {
					for _, i := range bigWrites(cf) {
						if i < len(cc.Args) {
							w.store(cc.Args[i], in, ctx, "changes")
						}
					}
					continue
				}
				if isCall {
					switch typ, name := w.ap.method(call); {
					case typ == "vectorEditor" && name == "Set":
						w.set(call, ctx)
						continue
					case typ == "vectorEditor" && name == "At":
						w.get(call, ctx)
						continue
					case typ == "vectorEditor" && (name == "Len" || name == "All"):
						continue
					case typ == "vectorEditor":
						w.store(call.Call.Args[0], in, ctx, "calls "+name+" on")
						continue
					case typ == "Vector":
						continue
					}
				}
				if relPkg(cf) != "value" || cf.Blocks == nil || depth > 8 {
					continue
				}
				if n, _ := ctx.count(cf); n > 0 {
					continue
				}
				if _, _, ok := p.parFor(cf); ok {
					continue // a nested loop; the rules for loops apply to it
				}
				w.walk(cf, ctx.enter(x, cf), depth+1)
			}
		}
	}
	for _, an := range f.AnonFuncs {
		// Closures made here run here.
		if n, _ := ctx.count(an); n == 0 && depth <= 8 {
			if mc := closureOf(an); mc != nil && g.live(mc) {
				c := ctx.enter(nil, an)
				c.args = make([]ssa.Value, len(an.Params))
				w.walk(an, c, depth+1)
			}
		}
	}
}

// impossible: what is known here contradicts what is known when the loop is parallel.
func (w *worker) impossible(b *ssa.BasicBlock, ctx *ictx) bool {
	if w.nilUse(b, ctx) {
		return true
	}
	cm, _ := w.p.expand(w.p.guards(b, ctx))
	for _, a := range cm {
		if a.op != token.EQL && a.op != token.NEQ {
			continue
		}
		for _, k := range w.cmps {
			if k.op == negate(a.op) && w.p.key(k.x, k.ctx) == w.p.key(a.x, a.ctx) && w.p.key(k.y, k.ctx) == w.p.key(a.y, a.ctx) {
				return true
			}
		}
	}
	return false
}

// nilUse: the block uses a pointer known to be nil when the loop is parallel.
func (w *worker) nilUse(b *ssa.BasicBlock, ctx *ictx) bool {
	for _, in := range b.Instrs {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.IsInvoke() || c.Call.Signature().Recv() == nil || len(c.Call.Args) == 0 {
			continue
		}
		key := ""
		for _, k := range w.cmps {
			if k.op != token.EQL || !isNilConst(k.y) {
				continue
			}
			if key == "" {
				key = w.p.key(c.Call.Args[0], ctx)
			}
			if w.p.key(k.x, k.ctx) == key {
				return true
			}
		}
	}
	return false
}

// inside: the value is made by the worker itself.
func (w *worker) inside(v ssa.Value, ctx *ictx) bool {
	for c := ctx; c != nil; c = c.parent {
		if c.callee == v.Parent() {
			return true
		}
		if c == w.ctx {
			return false
		}
	}
	return false
}

// shared describes what a worker can see of an object it did not make; "" if it made it.
func (w *worker) shared(v ssa.Value, ctx *ictx, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		return "the package variable " + x.Name()
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		if w.inside(v, ctx) {
			return ""
		}
		if al, ok := v.(*ssa.Alloc); ok && al.Comment != "" {
			return al.Comment + ", which all workers share"
		}
		return "something made outside the worker"
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return w.shared(b, ctx, seen)
		}
		return "a variable from outside the worker"
	case *ssa.Parameter:
		if a, c, ok := ctx.argOf(x); ok {
			return w.shared(a, c, seen)
		}
		if x.Parent() == w.body || w.inside(v, ctx) {
			return ""
		}
		return "the operand " + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a := rootAlloc(x.X); a != nil {
				for _, st := range storesTo(a) {
					if s := w.shared(st.Val, ctx, seen); s != "" {
						return s
					}
				}
				return ""
			}
			return w.shared(x.X, ctx, seen)
		}
	case *ssa.IndexAddr:
		return w.shared(x.X, ctx, seen)
	case *ssa.FieldAddr:
		return w.shared(x.X, ctx, seen)
	case *ssa.Field:
		return w.shared(x.X, ctx, seen)
	case *ssa.Slice:
		return w.shared(x.X, ctx, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := w.shared(e, ctx, seen); s != "" {
				return s
			}
		}
	case *ssa.MakeInterface:
		return w.shared(x.X, ctx, seen)
	case *ssa.ChangeInterface:
		return w.shared(x.X, ctx, seen)
	case *ssa.ChangeType:
		return w.shared(x.X, ctx, seen)
	case *ssa.Convert:
		return w.shared(x.X, ctx, seen)
	case *ssa.TypeAssert:
		return w.shared(x.X, ctx, seen)
	case *ssa.Extract:
		return w.shared(x.Tuple, ctx, seen)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return w.shared(x.Call.Args[0], ctx, seen)
		}
		if !w.inside(v, ctx) {
			return "something made outside the worker"
		}
	}
	return ""
}

func (w *worker) store(target ssa.Value, in ssa.Instruction, ctx *ictx, how string) {
	d := w.shared(target, ctx, map[ssa.Value]bool{})
	if d != "" && w.p.locked(in) {
		w.r.ok("private", w.where(in), in.Pos(), "%s %s under a lock", how, d)
		return
	}
	w.r.add("private", w.where(in), in.Pos(), d == "", "%s %s", how, orStr(d, "its own"))
}

func (w *worker) where(in ssa.Instruction) string {
	if in.Parent() == w.body {
		return w.name
	}
	return w.name + " in " + fname(in.Parent())
}

// locked: a mutex is held at the instruction.
func (p *Prog) locked(in ssa.Instruction) bool { return len(p.locks(in, false, 3)) > 0 }

// lockCall: the call locks or unlocks a mutex; which one.
func (p *Prog) lockCall(x ssa.Instruction, names ...string) (string, bool) {
	c, ok := x.(*ssa.Call)
	if !ok || c.Call.IsInvoke() {
		return "", false
	}
	cf := c.Call.StaticCallee()
	mu := ""
	if len(c.Call.Args) > 0 {
		mu = p.key(c.Call.Args[0], nil)
	}
	for d := 0; cf != nil && d < 3; d++ {
		if cf.Pkg != nil && cf.Pkg.Pkg.Path() == "sync" {
			for _, n := range names {
				if cf.Name() == n {
					return mu, true
				}
			}
			return "", false
		}
		// A function that only locks.
		var next *ssa.Function
		if len(cf.Blocks) == 1 {
			for _, y := range cf.Blocks[0].Instrs {
				if c2, ok := y.(*ssa.Call); ok {
					next = c2.Call.StaticCallee()
					if _, isG := c2.Call.Value.(*ssa.Builtin); !isG && len(c2.Call.Args) > 0 {
						if _, isG := c2.Call.Args[0].(*ssa.Global); isG {
							mu = p.key(c2.Call.Args[0], nil)
						}
					}
				}
			}
		}
		cf = next
	}
	return "", false
}

// locks: the mutexes held at the instruction, for reading too if read.
func (p *Prog) locks(in ssa.Instruction, read bool, depth int) map[string]bool {
	f := in.Parent()
	g := p.cfg(f)
	out := map[string]bool{}
	held := func(lock, unlock string) {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				mu, ok := p.lockCall(x, lock)
				if !ok || !g.instrDominates(x, in) {
					continue
				}
				held := true
				for _, b2 := range f.Blocks {
					for _, y := range b2.Instrs {
						if m, ok := p.lockCall(y, unlock); ok && m == mu && g.instrDominates(x, y) && g.instrDominates(y, in) {
							held = false
						}
					}
				}
				if held {
					out[mu] = true
				}
			}
		}
	}
	held("Lock", "Unlock")
	if read {
		held("RLock", "RUnlock")
	}
	if len(out) > 0 || depth == 0 {
		return out
	}
	// Every caller holds one; or the function is run by a sync.Once.
	sites := p.callSites(f)
	if mc := closureOf(f); mc != nil && mc.Referrers() != nil {
		for _, u := range *mc.Referrers() {
			if c, ok := u.(*ssa.Call); ok {
				if cf := c.Call.StaticCallee(); cf != nil && cf.Pkg != nil && cf.Pkg.Pkg.Path() == "sync" && cf.Name() == "Do" {
					return map[string]bool{"once": true}
				}
			}
		}
	}
	var common map[string]bool
	for _, c := range sites {
		if cf := c.Parent(); !p.cfg(cf).live(c) {
			continue
		}
		ls := p.locks(c, read, depth-1)
		if common == nil {
			common = ls
			continue
		}
		for k := range common {
			if !ls[k] {
				delete(common, k)
			}
		}
	}
	for k := range common {
		out[k] = true
	}
	return out
}

// operator: an operator applied by a worker must be a built-in one.
func (w *worker) operator(call *ssa.Call, op ssa.Value, ctx *ictx) {
	binary := len(call.Call.Args) == 3
	tabs := w.p.opTables()
	tab := tabs.unary
	if binary {
		tab = tabs.binary
	}
	ov, _ := w.ap.resolve(op, ctx)
	if s, ok := constStr(ov); ok {
		ok = tab[s] != nil && s != "?" && s != "rand" && !isIdent(s)
		why := "the built-in " + s
		if !ok {
			why = fmt.Sprintf("%q may be defined by the user or draws random numbers", s)
		}
		w.r.add("operators", w.where(call)+" "+s, call.Pos(), ok, "%s", why)
		return
	}
	fs := &factSet{ap: w.ap, cmps: w.cmps, atoms: w.atoms}
	key := w.p.key(op, ctx)
	if tableName(ov) {
		w.r.ok("operators", w.where(call), call.Pos(), "the name of a built-in operator")
		return
	}
	type c struct {
		n  string
		ud bool
	}
	cases := []c{{"?", false}, {"foo", true}, {"foo", false}, {"foo@", false}, {"foo/", false}, {`foo\`, false}, {"foo/%", false}}
	if binary {
		cases = append(cases, c{"o.foo", false}, c{"+.foo", false}, c{"@foo", false})
	} else {
		cases = append(cases, c{"rand", false})
	}
	var names []string
	for n := range tab {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		cases = append(cases, c{n, true})
	}
	for _, k := range cases {
		if fs.opPossible(key, k.n, binary, k.ud) {
			d := "the operator " + k.n
			if k.ud {
				d = "a user-defined operator " + k.n
			}
			w.r.bad("operators", w.where(call), call.Pos(), "%s may be applied by several workers at once", d)
			return
		}
	}
	w.r.ok("operators", w.where(call), call.Pos(), "built-in operators only")
}

// tableName: the name field of an entry of the operator tables.
func tableName(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n := namedOf(fa.X.Type())
	return n != nil && (n.Obj().Name() == "unaryOp" || n.Obj().Name() == "binaryOp")
}

// outer is the loop of the body over the worker's range.
func (w *worker) outer(in ssa.Instruction, ctx *ictx) (*sloop, []*sloop) {
	var ls []*sloop
	for _, l := range w.ap.s.chain(in.Block(), ctx) {
		inner := false
		for c := l.ctx; c != nil; c = c.parent {
			if c == w.ctx {
				inner = true
			}
		}
		if inner {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		return nil, nil
	}
	return ls[0], ls[1:]
}

func (w *worker) set(call *ssa.Call, ctx *ictx) {
	w.element(call, call.Call.Args[0], call.Call.Args[1], call.Call.Args[2], ctx)
}

// element: an element of something is stored to.
func (w *worker) element(call ssa.Instruction, base, idxV, val ssa.Value, ctx *ictx) {
	s := w.ap.s
	if w.shared(base, ctx, map[ssa.Value]bool{}) == "" {
		w.r.ok("elements", w.where(call), call.Pos(), "a vector of its own")
		return
	}
	idx := s.eval(idxV, ctx)
	undecided := func() {
		if w.fromData(idxV, ctx, map[ssa.Value]bool{}) {
			w.r.bad("elements", w.where(call), call.Pos(), "which element is stored to depends on the operands, so two workers may store different values to the same one")
			return
		}
		if _, ok := call.(*ssa.Store); ok {
			w.r.bad("private", w.where(call), call.Pos(), "stores to element %s of a slice that all workers share", idx)
			return
		}
		w.r.ok("elements", w.where(call), call.Pos(), "undecided: element %s", idx)
	}
	o, inner := w.outer(call, ctx)
	if o != nil && s.ranges[w.ctx].n != nil {
		// The loop over the worker's range.
		if t := s.trip(o); t.ok && t.n != nil && !peq(t.n, s.eval(s.ranges[w.ctx].n, s.ranges[w.ctx].ctx)) {
			o = nil
		}
	}
	if o == nil {
		// Once per worker.
		if k, ok := idx.isConst(); ok {
			w.r.bad("elements", w.where(call), call.Pos(), "every worker stores to element %d", k)
			return
		}
		undecided()
		return
	}
	if w.uniform(val, ctx) {
		w.r.ok("elements", w.where(call), call.Pos(), "the same value from every worker")
		return
	}
	type dim struct{ c, t poly }
	c, rest, lin := idx.coeff(o.atom)
	if lin && len(c) == 0 && !s.mentions(idx, o.atom) && s.invariant(idx, o) {
		w.r.bad("elements", w.where(call), call.Pos(), "element %s is stored to for every index of the loop", idx)
		return
	}
	t := s.trip(o)
	if !lin || len(c) == 0 || !t.ok || t.n == nil {
		undecided()
		return
	}
	abs := func(c poly) poly {
		if k, ok := c.isConst(); ok && k < 0 || !ok && onlyNegative(c) {
			return pscale(c, -1)
		}
		return c
	}
	dims := []dim{{abs(c), t.n}}
	for _, l := range inner {
		ci, r2, lin := rest.coeff(l.atom)
		if !lin || s.mentions(r2, l.atom) {
			undecided()
			return
		}
		rest = r2
		if len(ci) == 0 {
			continue
		}
		ti := s.trip(l)
		if !ti.ok || ti.n == nil {
			undecided()
			return
		}
		dims = append(dims, dim{abs(ci), ti.n})
	}
	if !s.invariant(rest, o) {
		undecided()
		return
	}
	if len(dims) == 1 {
		w.r.ok("elements", w.where(call), call.Pos(), "element %s", idx)
		return
	}
	// Mixed radix: the step of one is at least the extent of the other.
	if len(dims) == 2 {
		a, b := dims[0], dims[1]
		fits := func(small, big dim) (bool, bool) {
			d := w.ap.norm(psub(big.c, pmul(small.c, small.t)))
			if len(d) == 0 {
				return true, true
			}
			k, isC := d.isConst()
			return isC && k >= 0, isC
		}
		ok1, known1 := fits(a, b)
		ok2, known2 := fits(b, a)
		if ok1 || ok2 {
			w.r.ok("elements", w.where(call), call.Pos(), "element %s", idx)
			return
		}
		// A smaller step by a known amount: neighbours overlap.
		if known1 || known2 {
			w.r.bad("elements", w.where(call), call.Pos(), "element %s is stored to by more than one worker", idx)
			return
		}
	}
	undecided()
}

// uniform: the value is the same for every worker.
func (w *worker) uniform(v ssa.Value, ctx *ictx) bool {
	v, ctx = w.ap.resolve(v, ctx)
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return w.uniform(x.X, ctx)
	case *ssa.ChangeInterface:
		return w.uniform(x.X, ctx)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a := rootAlloc(x.X); a != nil && !w.inside(a, ctx) {
				for _, st := range storesTo(a) {
					if w.inside(st.Addr, ctx) {
						return false
					}
					for f := st.Parent(); f != nil; f = f.Parent() {
						if f == w.body {
							return false
						}
					}
				}
				return true
			}
		}
	}
	return !w.inside(v, ctx)
}

// fromData: the number is computed from elements of the operands, not only from positions and shapes.
func (w *worker) fromData(v ssa.Value, ctx *ictx, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		return w.fromData(x.X, ctx, seen) || w.fromData(x.Y, ctx, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.fromData(e, ctx, seen) {
				return true
			}
		}
	case *ssa.Convert:
		return w.fromData(x.X, ctx, seen)
	case *ssa.ChangeType:
		return w.fromData(x.X, ctx, seen)
	case *ssa.TypeAssert:
		return isValueIface(x.X.Type())
	case *ssa.Extract:
		return w.fromData(x.Tuple, ctx, seen)
	case *ssa.Parameter:
		if a, c, ok := ctx.argOf(x); ok {
			return w.fromData(a, c, seen)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return w.fromData(x.X, ctx, seen)
		}
		if a := rootAlloc(x.X); a != nil {
			for _, st := range storesTo(a) {
				if w.fromData(st.Val, ctx, seen) {
					return true
				}
			}
		}
	case *ssa.Call:
		if cf := x.Call.StaticCallee(); cf != nil && relPkg(cf) == "value" && cf.Blocks != nil {
			c := ctx.enter(x, cf)
			for _, b := range cf.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					if n, _ := ctx.count(cf); n == 0 && w.fromData(ret.Results[0], c, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// get: what is read back from the result must be what the same worker stored.
func (w *worker) get(call *ssa.Call, ctx *ictx) {
	w.read(call, call.Call.Args[0], call.Call.Args[1], ctx)
}

// result: a slice made by the function that starts the workers, for them to fill in.
func (w *worker) result(v ssa.Value, ctx *ictx) bool {
	x, c := w.ap.resolve(v, ctx)
	if sl, ok := x.(*ssa.Slice); ok && sl.Low == nil {
		x, c = w.ap.resolve(sl.X, c)
	}
	switch x.(type) {
	case *ssa.MakeSlice, *ssa.Alloc:
		return !w.inside(x, c)
	}
	return false
}

// written: the workers store to elements of the slice.
func (w *worker) written(v ssa.Value, ctx *ictx) bool {
	key := w.p.key(v, ctx)
	n := 0
	w.p.within(w.body, w.ctx, 4, func(in ssa.Instruction, c *ictx) {
		if st, ok := in.(*ssa.Store); ok {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && w.p.key(ia.X, c) == key {
				n++
			}
		}
	})
	return n > 0
}

func (w *worker) read(call ssa.Instruction, base, idxV ssa.Value, ctx *ictx) {
	s := w.ap.s
	if w.shared(base, ctx, map[ssa.Value]bool{}) == "" {
		return
	}
	idx := s.eval(idxV, ctx)
	o, inner := w.outer(call, ctx)
	if o == nil {
		return
	}
	c, rest, lin := idx.coeff(o.atom)
	if lin && len(c) == 0 && !s.mentions(idx, o.atom) && s.invariant(idx, o) {
		w.r.bad("elements", w.where(call)+" read", call.Pos(), "element %s, which another worker may store, is read", idx)
		return
	}
	for _, l := range inner {
		if _, r2, lin := rest.coeff(l.atom); lin {
			rest = r2
		}
	}
	if k, ok := rest.isConst(); ok && k < 0 && lin {
		w.r.bad("elements", w.where(call)+" read", call.Pos(), "element %s, which another worker may store, is read", idx)
		return
	}
	w.r.ok("elements", w.where(call)+" read", call.Pos(), "element %s", idx)
}

// ---------------------------------------------------------------- shared state

// workerCode: the functions that may run in a worker: the implementations of the built-in operators
// that are run in parallel and everything they call.
func (p *Prog) workerCode() map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	add := func(f, by *ssa.Function) {
		if f == nil || f.Blocks == nil || !p.inModule(f) {
			return
		}
		if _, ok := from[f]; !ok {
			from[f] = by
			work = append(work, f)
		}
	}
	for _, e := range p.opTables().all() {
		if e.name == "?" || e.name == "rand" || !e.binary && !e.elementwise {
			continue
		}
		for _, k := range kindNames {
			add(e.fn[k], nil)
		}
		add(e.which, nil)
	}
	for _, n := range []string{"EvalUnary", "EvalBinary"} {
		add(p.method("value", "unaryOp", n), nil)
		add(p.method("value", "binaryOp", n), nil)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !g.live(in) {
					continue
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function), f)
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if fns, _ := p.constOp(c); fns != nil {
					for _, x := range fns {
						add(x, f)
					}
					continue
				}
				if _, _, ok := p.evalCall(c.Common()); ok {
					continue // decided by the rule about operators
				}
				if n := namedOf(c.Common().Value.Type()); n != nil && pkgOfNamed(n) == "value" && (n.Obj().Name() == "unaryFn" || n.Obj().Name() == "binaryFn") {
					continue // an entry of the operator tables
				}
				for _, x := range p.callees(c) {
					add(x, f)
				}
			}
		}
	}
	return from
}

func (p *Prog) workerEffects(r *Report) {
	code := p.workerCode()
	var fs []*ssa.Function
	for f := range code {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	path := func(f *ssa.Function) string {
		var s []string
		for x := f; x != nil && len(s) < 8; x = code[x] {
			s = append(s, fname(x))
		}
		return strings.Join(s, " < ")
	}
	lazy := map[*ssa.Function]bool{}
	writers := map[*ssa.Global]map[string]bool{}
	for _, f := range fs {
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !g.live(in) {
					continue
				}
				var target ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					target = x.Addr
				case *ssa.MapUpdate:
					target = x.Map
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "clear", "delete":
							target = x.Call.Args[0]
						}
					}
				}
				if target == nil {
					continue
				}
				d := p.sharedTarget(target)
				if gl := rootGlobal(target); gl != nil && p.locked(in) {
					ls := p.locks(in, false, 3)
					if w, ok := writers[gl]; ok {
						for k := range w {
							if !ls[k] {
								delete(w, k)
							}
						}
					} else {
						writers[gl] = ls
					}
				}
				switch {
				case d == "":
				case p.locked(in):
					r.ok("shared-state", fname(f), in.Pos(), "%s, under a lock", d)
				case p.lazyInit(f, in):
					lazy[f] = true
				default:
					r.bad("shared-state", fname(f), in.Pos(), "%s is changed without a lock; it may run in several workers (%s)", d, path(f))
				}
			}
		}
		r.ok("shared-state", fname(f)+" examined", f.Pos(), "%d blocks", len(f.Blocks))
	}
	// What workers change under a lock they read under the same lock.
	for _, f := range fs {
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || !g.live(in) {
					continue
				}
				gl := rootGlobal(ld.X)
				if gl == nil || writers[gl] == nil {
					continue
				}
				same := writers[gl]["once"]
				for k := range p.locks(in, true, 3) {
					if writers[gl][k] {
						same = true
					}
				}
				r.add("shared-state", fname(f)+" reads "+gl.Name(), in.Pos(), same, "the package variable %s, which workers change, is read holding the lock it is changed under", gl.Name())
			}
		}
	}
	// A configuration initialises itself when first used: that must have happened before.
	for f := range lazy {
		p.initialised(r, f)
	}
}

// lazyInit: the store fills in an object found to be still empty.
func (p *Prog) lazyInit(f *ssa.Function, in ssa.Instruction) bool {
	cm, _ := p.expand(p.guards(in.Block(), nil))
	for _, k := range cm {
		if k.op != token.EQL || !isNilConst(k.y) {
			continue
		}
		key := p.key(k.x, nil)
		// The field tested is set too.
		for _, x := range in.Block().Instrs {
			if st, ok := x.(*ssa.Store); ok && "&"+key == p.key(st.Addr, nil) {
				return true
			}
		}
	}
	return false
}

// initialised: contexts and package-level configurations run the initialisation when they are made.
func (p *Prog) initialised(r *Report, init *ssa.Function) {
	runs := func(f *ssa.Function, depth int) bool { return p.mustCall(f, init, depth, map[*ssa.Function]bool{}) }
	nc := p.fn("exec", "NewContext")
	if nc == nil {
		r.missing("shared-state", "exec.NewContext")
		return
	}
	r.add("shared-state", "NewContext initialises its configuration", nc.Pos(), runs(nc, 6), "before anything is evaluated")
	conf := init.Params[0].Type()
	for _, f := range p.funcs {
		if f.Name() != "init" || f.Parent() != nil || f.Pkg == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || !types.Identical(st.Val.Type(), conf) {
					continue
				}
				used := false
				for wf := range p.workerCode() {
					for _, b2 := range wf.Blocks {
						for _, in2 := range b2.Instrs {
							var ops []*ssa.Value
							for _, o := range in2.Operands(ops) {
								if *o == g {
									used = true
								}
							}
						}
					}
				}
				if !used {
					continue
				}
				ok = false
				if c, isC := st.Val.(*ssa.Call); isC && c.Call.StaticCallee() != nil {
					ok = runs(c.Call.StaticCallee(), 6)
				}
				// Or in an init function.
				for _, f2 := range p.funcs {
					if f2.Pkg == f.Pkg && f2.Parent() == nil && strings.HasPrefix(f2.Name(), "init#") {
						for _, b2 := range f2.Blocks {
							for _, in2 := range b2.Instrs {
								if c, isC := in2.(*ssa.Call); isC && c.Call.StaticCallee() != nil && len(c.Call.Args) > 0 && p.key(c.Call.Args[0], nil) == p.key(g, nil)[1:] && runs(c.Call.StaticCallee(), 3) {
									ok = true
								}
							}
						}
					}
				}
				r.add("shared-state", "configuration "+g.Name(), st.Pos(), ok, "it is used by workers and must be initialised before")
			}
		}
	}
}

// mustCall: every way through f calls the function.
func (p *Prog) mustCall(f, target *ssa.Function, depth int, busy map[*ssa.Function]bool) bool {
	if f == target {
		return true
	}
	if depth == 0 || f == nil || f.Blocks == nil || busy[f] {
		return false
	}
	busy[f] = true
	defer delete(busy, f)
	for _, b := range f.Blocks {
		if !p.cfg(f).reach[b.Index] || !everyPath(p, f, b) {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if cf := c.Call.StaticCallee(); cf != nil && p.mustCall(cf, target, depth-1, busy) {
					return true
				}
			}
		}
	}
	return false
}

func (p *Prog) sharedTarget(a ssa.Value) string {
	for {
		switch x := a.(type) {
		case *ssa.Global:
			return "the package variable " + x.Name()
		case *ssa.FieldAddr:
			t := x.X.Type().Underlying().(*types.Pointer).Elem()
			if n := namedOf(t); n != nil {
				switch pkgOfNamed(n) + "." + n.Obj().Name() {
				case "exec.Context", "config.Config", "value.Var":
					if al := rootAlloc(x.X); al == nil {
						if _, made := x.X.(*ssa.Alloc); !made {
							return "field " + fieldName(x.X.Type(), x.Field) + " of the " + n.Obj().Name()
						}
					}
				}
			}
			a = x.X
			continue
		case *ssa.IndexAddr:
			a = x.X
			continue
		case *ssa.UnOp:
			a = x.X
			continue
		case *ssa.Slice:
			a = x.X
			continue
		}
		return ""
	}
}

// rootGlobal: the package variable an address or a value read from it belongs to.
func rootGlobal(a ssa.Value) *ssa.Global {
	for {
		switch x := a.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.UnOp:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return nil
		}
	}
}
