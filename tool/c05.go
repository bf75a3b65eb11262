package main

// C05: the call stack of user-defined operators is bounded and balanced on every exit.
// C06: every call starts with fresh local variables.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = checkC05
	checks["C06"] = checkC06
}

// ctxFields finds the frame-size and variable-stack fields of the execution context by type.
func (p *Prog) ctxFields() (frames, stack *types.Var) {
	n := p.namedType("exec", "Context")
	if n == nil {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if b, ok := sl.Elem().(*types.Basic); ok && b.Kind() == types.Int && frames == nil {
			frames = st.Field(i)
		}
		if pt, ok := sl.Elem().(*types.Pointer); ok {
			if nn, ok := pt.Elem().(*types.Named); ok && nn.Obj().Name() == "Var" && stack == nil {
				stack = st.Field(i)
			}
		}
	}
	return
}

// fieldOf returns the struct field a FieldAddr/Field denotes.
func fieldVar(t types.Type, i int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i)
	}
	return nil
}

func isFieldAddr(v ssa.Value, f *types.Var) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && fieldVar(fa.X.Type(), fa.Field) == f
}

// loadsField reports whether v is (a local copy of) a load of field f.
func loadsField(v ssa.Value, f *types.Var) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if isFieldAddr(x.X, f) {
			return true
		}
		if w, ok := loadedValue(x); ok {
			return loadsField(w, f)
		}
	case *ssa.Field:
		return fieldVar(x.X.Type(), x.Field) == f
	case *ssa.ChangeType:
		return loadsField(x.X, f)
	}
	return false
}

// frameEffect classifies a store to the frame-size field: +n, -n, 0 (reset), or unknown.
func frameEffect(st *ssa.Store, frames *types.Var) (int, ssa.Value, bool) {
	switch v := st.Val.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(v.Call.Args) == 2 && loadsField(v.Call.Args[0], frames) {
			// append(frames, x): the variadic slice holds the appended elements.
			if sl, ok := v.Call.Args[1].(*ssa.Slice); ok {
				if a, ok := sl.X.(*ssa.Alloc); ok {
					at := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
					if at.Len() == 1 {
						for _, ref := range *a.Referrers() {
							if ia, ok := ref.(*ssa.IndexAddr); ok {
								for _, r2 := range *ia.Referrers() {
									if s2, ok := r2.(*ssa.Store); ok {
										return 1, s2.Val, true
									}
								}
							}
						}
					}
				}
			}
		}
	case *ssa.Slice:
		if loadsField(v.X, frames) && v.Low == nil && v.High != nil {
			if bo, ok := v.High.(*ssa.BinOp); ok && bo.Op == token.SUB {
				if n, ok := constInt(bo.Y); ok {
					if c, ok := bo.X.(*ssa.Call); ok {
						if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && loadsField(c.Call.Args[0], frames) {
							return -int(n), nil, true
						}
					}
				}
			}
		}
	}
	return 0, nil, false
}

type frameAnalysis struct {
	p       *Prog
	r       *Report
	frames  *types.Var
	sum     map[*ssa.Function]*frameSum
	panics  map[*ssa.Function]int
	visitng map[*ssa.Function]bool
}

type frameSum struct {
	delta    int  // net effect at normal return
	ok       bool // consistent
	touches  bool
	direct   bool
	panicBad []string
}

// mayPanic: can this function raise an ivy error (directly or transitively)?
func (a *frameAnalysis) mayPanic(f *ssa.Function) bool {
	switch a.panics[f] {
	case 1:
		return false
	case 2:
		return true
	case 3:
		return false
	}
	if f.Blocks == nil {
		return false
	}
	a.panics[f] = 3
	res := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				res = true
			case ssa.CallInstruction:
				if _, isB := x.Common().Value.(*ssa.Builtin); isB {
					continue
				}
				if c := x.Common().StaticCallee(); c != nil {
					if a.p.inModule(c) && a.mayPanic(c) {
						res = true
					}
				} else {
					res = true
				}
			}
		}
	}
	if res {
		a.panics[f] = 2
	} else {
		a.panics[f] = 1
	}
	return res
}

func (a *frameAnalysis) summary(f *ssa.Function) *frameSum {
	if s := a.sum[f]; s != nil {
		return s
	}
	if a.visitng[f] || f.Blocks == nil {
		return &frameSum{ok: true}
	}
	a.visitng[f] = true
	defer delete(a.visitng, f)
	s := &frameSum{ok: true}
	type state struct{ d, def int }
	g := a.p.cfg(f)
	entry := map[*ssa.BasicBlock]map[state]bool{}
	var work []*ssa.BasicBlock
	addSt := func(b *ssa.BasicBlock, st state) {
		if entry[b] == nil {
			entry[b] = map[state]bool{}
		}
		if !entry[b][st] && len(entry[b]) < 16 {
			entry[b][st] = true
			work = append(work, b)
		}
	}
	if len(f.Blocks) == 0 {
		return s
	}
	addSt(f.Blocks[0], state{})
	rets := map[int]bool{}
	badAt := map[string]bool{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for st := range entry[b] {
			cur := st
			dead := false
			for idx, in := range b.Instrs {
				if idx > g.cut[b.Index] {
					dead = true
					break
				}
				check := func(what string) {
					if cur.d+cur.def != 0 {
						k := fmt.Sprintf("%s: frame count is off by %+d if %s fails here", a.p.pos(in.Pos()), cur.d+cur.def, what)
						if !badAt[k] {
							badAt[k] = true
							s.panicBad = append(s.panicBad, k)
						}
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					if isFieldAddr(x.Addr, a.frames) {
						n, _, ok := frameEffect(x, a.frames)
						s.touches, s.direct = true, true
						if !ok {
							if c, isC := x.Val.(*ssa.Const); isC && c.Value == nil {
								continue
							}
							s.ok = false
							s.panicBad = append(s.panicBad, a.p.pos(x.Pos())+": unrecognised update of the frame list")
							continue
						}
						cur.d += n
					}
				case *ssa.Panic:
					check("a panic")
					dead = true
				case *ssa.Call:
					if _, isB := x.Call.Value.(*ssa.Builtin); isB {
						continue
					}
					c := x.Call.StaticCallee()
					if c == nil {
						check("a dynamic call")
						continue
					}
					if !a.p.inModule(c) {
						continue
					}
					cs := a.summary(c)
					if a.mayPanic(c) {
						check("the call of " + fname(c))
					}
					if cs.delta != 0 {
						cur.d += cs.delta
						s.touches = true
					}
				case *ssa.Defer:
					if c := x.Call.StaticCallee(); c != nil && a.p.inModule(c) {
						cs := a.summary(c)
						if cs.delta != 0 {
							cur.def += cs.delta
							s.touches = true
						}
					}
				case *ssa.RunDefers:
					cur.d += cur.def
					cur.def = 0
				case *ssa.Return:
					rets[cur.d] = true
				}
				if dead {
					break
				}
			}
			if dead || g.cut[b.Index] < len(b.Instrs) {
				continue
			}
			for _, sc := range g.succs[b.Index] {
				addSt(sc, cur)
			}
		}
	}
	if len(rets) > 1 {
		s.ok = false
		s.panicBad = append(s.panicBad, "returns with different frame counts on different paths")
	}
	for d := range rets {
		s.delta = d
	}
	a.sum[f] = s
	return s
}

// isMaxStack: does v denote the configured stack limit?
func (p *Prog) isMaxStack(v ssa.Value, ctx *ictx) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return p.isMaxStack(x.X, ctx)
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil {
			return c.Name() == "MaxStack" && relPkg(c) == "config"
		}
	case *ssa.UnOp:
		if w, ok := loadedValue(x); ok {
			return p.isMaxStack(w, ctx)
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldName(fa.X.Type(), fa.Field) == "maxStack"
		}
	case *ssa.Parameter:
		if a, c, ok := ctx.argOf(x); ok {
			return p.isMaxStack(a, c)
		}
	}
	return false
}

// lenOfFrames returns k if v == len(frames)+k.
func (p *Prog) lenOfFrames(v ssa.Value, frames *types.Var, ctx *ictx) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Convert:
		return p.lenOfFrames(x.X, frames, ctx)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && loadsField(x.Call.Args[0], frames) {
			return 0, true
		}
		if c := x.Call.StaticCallee(); c != nil && p.inModule(c) {
			if w := trivialResult(c); w != nil {
				return p.lenOfFrames(w, frames, ctx.enter(x, c))
			}
		}
	case *ssa.UnOp:
		if w, ok := loadedValue(x); ok {
			return p.lenOfFrames(w, frames, ctx)
		}
	case *ssa.BinOp:
		if n, ok := constInt(x.Y); ok {
			if k, ok := p.lenOfFrames(x.X, frames, ctx); ok {
				if x.Op == token.ADD {
					return k + n, true
				}
				if x.Op == token.SUB {
					return k - n, true
				}
			}
		}
	case *ssa.Parameter:
		if a, c, ok := ctx.argOf(x); ok {
			return p.lenOfFrames(a, frames, c)
		}
	}
	return 0, false
}

// depthGuarded: at instr, is len(frames) < MaxStack known?
func (p *Prog) depthGuarded(in ssa.Instruction, frames *types.Var, ctx *ictx, depth int) (bool, string) {
	g := p.cfg(in.Parent())
	var fs []fact
	fs = append(fs, p.guards(in.Block(), ctx)...)
	// Helpers called earlier that only return when the limit is respected.
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok || !g.instrDominates(x, in) {
				continue
			}
			callee := c.Call.StaticCallee()
			if callee == nil || !p.inModule(callee) || callee.Blocks == nil {
				continue
			}
			fs = append(fs, p.postFacts(callee, ctx.enter(c, callee))...)
		}
	}
	cmps, _ := p.expand(fs)
	for _, c := range cmps {
		k, ok := p.lenOfFrames(c.x, frames, c.ctx)
		op := c.op
		y := c.y
		if !ok {
			k, ok = p.lenOfFrames(c.y, frames, c.ctx)
			op = flip(op)
			y = c.x
		}
		if !ok || !p.isMaxStack(y, c.ctx) {
			continue
		}
		// len+k op max  =>  len < max ?
		if op == token.LSS && k == 0 || op == token.LEQ && k == 1 {
			return true, fmt.Sprintf("guard at %s", p.pos(c.x.Pos()))
		}
	}
	if p.postGuarded(in, frames, ctx) {
		return true, "limit tested between the push and the evaluation"
	}
	if depth > 4 {
		return false, "no guard found within the inspected call depth"
	}
	cs := p.callers[in.Parent()]
	if len(cs) == 0 || p.addressTaken(in.Parent()) {
		return false, "no comparison of the frame count with the stack limit dominates the push"
	}
	for _, c := range cs {
		if ok, why := p.depthGuarded(c.(ssa.Instruction), frames, nil, depth+1); !ok {
			return false, fmt.Sprintf("via call at %s in %s: %s", p.pos(c.Pos()), fname(c.Parent()), why)
		}
	}
	return true, "guarded at every call site"
}

// postGuarded: everything that can run user code after the push at `in` is dominated by
// a test, made after the push, that the frame count does not exceed the limit.
func (p *Prog) postGuarded(in ssa.Instruction, frames *types.Var, ctx *ictx) bool {
	if _, isCall := in.(*ssa.Call); !isCall {
		return false // the push itself: decided at its call sites
	}
	f := in.Parent()
	g := p.cfg(f)
	n := 0
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok || x == in || !g.live(x) || !g.reachableFrom(in, x) || p.isNoReturnCall(x) {
				continue
			}
			if callee := c.Call.StaticCallee(); callee != nil && (relPkg(callee) == "exec" || relPkg(callee) == "config" || !p.inModule(callee)) {
				continue
			}
			if _, isB := c.Call.Value.(*ssa.Builtin); isB {
				continue
			}
			n++
			cmps, _ := p.expand(p.guards(x.Block(), ctx))
			held := false
			for _, cf := range cmps {
				k, ok := p.lenOfFrames(cf.x, frames, cf.ctx)
				op, lx, y := cf.op, cf.x, cf.y
				if !ok {
					k, ok = p.lenOfFrames(cf.y, frames, cf.ctx)
					op, lx, y = flip(op), cf.y, cf.x
				}
				if !ok || !p.isMaxStack(y, cf.ctx) {
					continue
				}
				li, isI := lx.(ssa.Instruction)
				if !isI || li.Parent() != f || !g.instrDominates(in, li) {
					continue
				}
				if op == token.LSS && k == -1 || op == token.LEQ && k == 0 {
					held = true
				}
			}
			if !held {
				return false
			}
		}
	}
	return n > 0
}

// postFacts: facts that hold whenever callee returns normally (single return block).
func (p *Prog) postFacts(callee *ssa.Function, ctx *ictx) []fact {
	g := p.cfg(callee)
	var common []fact
	first := true
	for i, b := range callee.Blocks {
		if !g.reach[i] || g.cut[i] < len(b.Instrs) {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			fs := p.guards(b, ctx)
			if first {
				common = fs
				first = false
			} else {
				var keep []fact
				for _, f := range common {
					for _, h := range fs {
						if f.cond == h.cond && f.val == h.val {
							keep = append(keep, f)
							break
						}
					}
				}
				common = keep
			}
		}
	}
	return common
}

func checkC05(p *Prog, r *Report) {
	r.rule("frame-balance", "on every exit of a function that evaluates user code, normal or by error, the number of frames equals that on entry; a frame's removal is deferred before anything that can fail", 2)
	r.rule("depth-guard", "a frame is pushed only where the frame count has been tested to be below the configured maximum", 1)
	r.rule("frame-size", "the number of variable slots added by a push is the number recorded for that frame, and a pop removes exactly the recorded number", 2)
	r.rule("body-in-frame", "the body and argument assignment of a user-defined operator are evaluated inside a frame of its own", 2)
	frames, stack := p.ctxFields()
	if frames == nil || stack == nil {
		r.missing("frame-balance", "the execution context's frame list and variable stack")
		return
	}
	// Operators' evaluation interpreted as a whole, if that is where all frames come from.
	var roots []*ssa.Function
	for _, m := range []string{"EvalUnary", "EvalBinary"} {
		if f := p.method("exec", "Function", m); f != nil {
			roots = append(roots, f)
		}
	}
	if len(roots) == 2 && p.onlyFrom(roots, frames, stack) {
		cf := []callFacts{p.callRule(roots[0]), p.callRule(roots[1])}
		if cf[0].undecided == "" && cf[1].undecided == "" {
			for i, f := range roots {
				n := fmt.Sprintf("%d evaluations of the operator's code, %d exits", cf[i].calls, cf[i].exits)
				r.add("frame-balance", fname(f), f.Pos(), cf[i].balance == "", "%s", orStr(cf[i].balance, n))
				r.add("depth-guard", fname(f), f.Pos(), cf[i].guard == "", "%s", orStr(cf[i].guard, n))
				r.add("frame-size", fname(f), f.Pos(), cf[i].size == "", "%s", orStr(cf[i].size, n))
				r.add("body-in-frame", fname(f), f.Pos(), cf[i].inFrame == "", "%s", orStr(cf[i].inFrame, n))
			}
			return
		}
	}
	a := &frameAnalysis{p: p, r: r, frames: frames, sum: map[*ssa.Function]*frameSum{}, panics: map[*ssa.Function]int{}, visitng: map[*ssa.Function]bool{}}
	for _, f := range p.funcs {
		a.summary(f)
	}
	for _, f := range p.funcs {
		s := a.sum[f]
		if s == nil || !s.touches {
			continue
		}
		key := fname(f)
		if !s.ok || len(s.panicBad) > 0 {
			r.bad("frame-balance", key, f.Pos(), "%s", strings.Join(s.panicBad, "; "))
			continue
		}
		if s.delta != 0 {
			// A push or pop helper: only other frame-manipulating functions may call it.
			exported := f.Object() != nil && f.Object().Exported()
			if exported || p.addressTaken(f) {
				r.bad("frame-balance", key, f.Pos(), "changes the frame count by %+d and can be called from anywhere", s.delta)
				continue
			}
		}
		r.ok("frame-balance", key, f.Pos(), "net effect %+d on every path", s.delta)
	}
	// Guards and sizes.
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isFieldAddr(st.Addr, frames) || !p.cfg(f).live(in) {
					continue
				}
				n, val, ok := frameEffect(st, frames)
				if !ok {
					continue
				}
				if n > 0 {
					if ok, why := p.depthGuarded(in, frames, nil, 0); ok {
						r.ok("depth-guard", "push in "+fname(f), in.Pos(), "%s", why)
					} else {
						r.bad("depth-guard", "push in "+fname(f), in.Pos(), "%s", why)
					}
					ok, why := p.stackGrowsBy(f, stack, val)
					r.add("frame-size", "push in "+fname(f), in.Pos(), ok, "%s", why)
				} else if n < 0 {
					ok, why := p.stackShrinksByFrame(f, stack, frames)
					r.add("frame-size", "pop in "+fname(f), in.Pos(), ok, "%s", why)
				}
			}
		}
	}
	// Bodies run inside their own frame.
	fnType := p.namedType("exec", "Function")
	if fnType == nil {
		r.missing("body-in-frame", "the user-defined operator type")
		return
	}
	var bodyField *types.Var
	if st, ok := fnType.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Body" {
				bodyField = st.Field(i)
			}
		}
	}
	for _, m := range []string{"EvalUnary", "EvalBinary"} {
		f := p.method("exec", "Function", m)
		if f == nil {
			r.missing("body-in-frame", "evaluation of user-defined operators ("+m+")")
			continue
		}
		found, bad := a.bodyInFrame(f, bodyField, 0, 0, map[*ssa.Function]bool{})
		switch {
		case bad != "":
			r.bad("body-in-frame", fname(f), f.Pos(), "%s", bad)
		case !found:
			r.bad("body-in-frame", fname(f), f.Pos(), "no evaluation of the operator's body found")
		default:
			r.ok("body-in-frame", fname(f), f.Pos(), "body and arguments evaluated with one frame pushed")
		}
	}
}

// bodyInFrame walks f in dominance order and checks that uses of the body happen at depth base+1.
func (a *frameAnalysis) bodyInFrame(f *ssa.Function, body *types.Var, base, depth int, seen map[*ssa.Function]bool) (bool, string) {
	if seen[f] || depth > 4 {
		return false, ""
	}
	seen[f] = true
	g := a.p.cfg(f)
	found := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !g.live(in) {
				continue
			}
			// depth at this point: sum of effects of dominating calls/stores
			d := base
			for _, b2 := range f.Blocks {
				for _, in2 := range b2.Instrs {
					if in2 == in || !g.instrDominates(in2, in) {
						continue
					}
					switch x := in2.(type) {
					case *ssa.Call:
						if cc := x.Call.StaticCallee(); cc != nil && a.p.inModule(cc) {
							d += a.summary(cc).delta
						}
					case *ssa.Store:
						if isFieldAddr(x.Addr, a.frames) {
							n, _, _ := frameEffect(x, a.frames)
							d += n
						}
					}
				}
			}
			usesBody := false
			for _, arg := range c.Call.Args {
				if body != nil && loadsField(arg, body) {
					usesBody = true
				}
			}
			callee := c.Call.StaticCallee()
			if callee != nil && relPkg(callee) == "value" && callee.Name() == "Assign" && callee.Signature.Recv() == nil {
				usesBody = true
			}
			if usesBody {
				if callee != nil && relPkg(callee) == "exec" {
					if fd, bad := a.bodyInFrame(callee, body, d, depth+1, seen); bad != "" {
						return fd, bad
					} else if fd {
						found = true
						continue
					}
				}
				found = true
				if d != 1 {
					return true, fmt.Sprintf("%s: evaluated with %d frames pushed, not 1", a.p.pos(in.Pos()), d)
				}
			} else if callee != nil && relPkg(callee) == "exec" && callee.Blocks != nil {
				fd, bad := a.bodyInFrame(callee, body, d, depth+1, seen)
				if bad != "" {
					return fd, bad
				}
				found = found || fd
			}
		}
	}
	return found, ""
}

// stackGrowsBy: the function extends the variable stack by exactly val.
func (p *Prog) stackGrowsBy(f *ssa.Function, stack *types.Var, val ssa.Value) (bool, string) {
	want := p.key(val, nil)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !isFieldAddr(st.Addr, stack) {
				continue
			}
			switch v := st.Val.(type) {
			case *ssa.Slice:
				if bo, ok := v.High.(*ssa.BinOp); ok && bo.Op == token.ADD {
					x, y := p.key(bo.X, nil), p.key(bo.Y, nil)
					for _, pr := range [][2]string{{x, y}, {y, x}} {
						if strings.HasPrefix(pr[0], "len(") && strings.HasSuffix(pr[0], "."+stack.Name()+")") && pr[1] == want {
							return true, "stack extended by " + want
						}
					}
				}
			case *ssa.Call:
				if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(v.Call.Args) == 2 {
					if ms, ok := v.Call.Args[1].(*ssa.MakeSlice); ok && p.key(ms.Len, nil) == want {
						return true, "stack extended by a fresh slice of length " + want
					}
				}
			}
		}
	}
	// The growth may live in a helper called from here, or a caller.
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if callee := c.Call.StaticCallee(); callee != nil && relPkg(callee) == "exec" && callee != f {
					for i, arg := range c.Call.Args {
						if p.key(arg, nil) == want && i < len(callee.Params) {
							if ok, why := p.stackGrowsBy(callee, stack, callee.Params[i]); ok {
								return true, why + " in " + fname(callee)
							}
						}
					}
					// The size may be recomputed in the helper.
					for _, b2 := range callee.Blocks {
						for _, in2 := range b2.Instrs {
							if v2, ok := in2.(ssa.Value); ok && p.key(v2, (*ictx)(nil).enter(c, callee)) == want {
								if ok, why := p.stackGrowsBy(callee, stack, v2); ok {
									return true, why + " in " + fname(callee)
								}
							}
						}
					}
				}
			}
		}
	}
	return false, "no extension of the variable stack by the recorded frame size (" + want + ") found beside the push"
}

func (p *Prog) stackShrinksByFrame(f *ssa.Function, stack, frames *types.Var) (bool, string) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !isFieldAddr(st.Addr, stack) {
				continue
			}
			v, ok := st.Val.(*ssa.Slice)
			if !ok || v.High == nil {
				continue
			}
			k := p.key(v.High, nil)
			// (len(X.stack)-X.frames[(len(X.frames)-1)])
			if strings.HasPrefix(k, "(len(") && strings.Contains(k, "."+stack.Name()+")-") && strings.Contains(k, "."+frames.Name()+"[(len(") && strings.HasSuffix(k, "."+frames.Name()+")-1)])") {
				// The size must be read before the frame list is shortened.
				return true, "stack shortened by the last recorded frame size"
			}
		}
	}
	return false, "the variable stack is not shortened by the last recorded frame size where the frame is removed"
}

func checkC06(p *Prog, r *Report) {
	r.rule("slot-undefined", "reading a local slot that was never assigned in this call yields an undefined variable, not a value", 1)
	frames, stack := p.ctxFields()
	if frames == nil || stack == nil {
		r.missing("frame-fresh", "the execution context's variable stack")
		return
	}
	// Whatever is put into a slot outside assignment holds no value.
	for _, f := range p.funcs {
		if relPkg(f) != "exec" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !p.cfg(f).live(in) {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || !p.fromField(ia.X, stack) {
					continue
				}
				ok, why := p.emptyVar(st.Val, nil, 0)
				r.add("slot-undefined", "slot filled in "+fname(f), in.Pos(), ok, "%s", why)
			}
		}
	}
	p.checkFrames(r)
	// VarExpr evaluation raises an error on a nil value.
	ev := p.method("value", "VarExpr", "Eval")
	if ev == nil {
		r.missing("slot-undefined", "variable evaluation")
		return
	}
	msg, und := p.undefinedLocal(ev)
	r.add("slot-undefined", fname(ev), ev.Pos(), msg == "", "%s", orStr(msg, orStr(und, "reading a variable without a value is an error")))
}

// checkFrames: see frames.go.
func (p *Prog) checkFrames(r *Report) {
	r.rule("frame-fresh", "when the arguments of an operator are assigned, every slot of its frame is empty, whatever the length and capacity of the stack and the number of locals", 2)
	var fs []*ssa.Function
	for _, n := range []string{"EvalUnary", "EvalBinary"} {
		if f := p.method("exec", "Function", n); f != nil {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		r.missing("frame-fresh", "evaluation of operators")
	}
	clears := len(fs) > 0
	var un []frameFacts
	for _, f := range fs {
		ff := p.freshFrames(f, false)
		un = append(un, ff)
		if ff.exit != "" || ff.paths == 0 {
			clears = false
		}
	}
	for i, f := range fs {
		ff := un[i]
		if ff.body != "" && clears {
			ff = p.freshFrames(f, true)
		}
		det := fmt.Sprintf("%d abstract path(s) reach the body", ff.paths)
		if ff.undecided != "" {
			det += "; not decided on others: " + ff.undecided
		}
		if ff.body != "" {
			det = "a slot of the frame may hold a variable of an earlier call: " + ff.body
		}
		r.add("frame-fresh", fname(f), f.Pos(), ff.body == "", "%s", det)
	}
	p.slotRules(r)
}

// slotRules: each local has a slot of its own and is looked up there.
func (p *Prog) slotRules(r *Report) {
	r.rule("local-slot", "a local variable is looked up in a slot of its own in the topmost frame, and yields the variable that slot holds", 1)
	r.rule("slot-number", "every local variable of an operator has a slot number of its own between 1 and the number of locals, however many locals it has", 1)
	if f := p.method("exec", "Context", "Local"); f == nil {
		r.missing("local-slot", "lookup of a local variable")
	} else {
		msg, n, und := p.slotRule(f)
		r.add("local-slot", fname(f), f.Pos(), msg == "", "%s", orStr(msg, orStr(und, fmt.Sprintf("%d abstract path(s)", n))))
	}
	if f, msg, und := p.slotNumbers(); f == nil {
		r.ok("slot-number", "slots", token.NoPos, "not decided: "+und)
	} else {
		r.add("slot-number", fname(f), f.Pos(), msg == "", "%s", orStr(msg, orStr(und, "distinct, in range")))
	}
}

// fromField: v is (a slice of) the slice held in field f.
func (p *Prog) fromField(v ssa.Value, f *types.Var) bool {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.UnOp:
			if w, ok := loadedValue(x); ok {
				v = w
				continue
			}
		}
		break
	}
	return loadsField(v, f)
}

// emptyVar: v is nil or a variable created with no value.
func (p *Prog) emptyVar(v ssa.Value, ctx *ictx, depth int) (bool, string) {
	if depth > 6 {
		return false, "cannot follow the variable put into the slot"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil, "nil"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if ok, why := p.emptyVar(e, ctx, depth+1); !ok {
				return false, why
			}
		}
		return true, "no value on any path"
	case *ssa.UnOp:
		if w, ok := loadedValue(x); ok {
			return p.emptyVar(w, ctx, depth+1)
		}
	case *ssa.Parameter:
		if a, c, ok := ctx.argOf(x); ok {
			return p.emptyVar(a, c, depth+1)
		}
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			if fv == nil || !types.IsInterface(fv.Type()) {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					if ok, _ := p.emptyVar(st.Val, ctx, depth+1); !ok {
						return false, p.pos(st.Pos()) + ": the variable put into a fresh slot is given a value"
					}
				}
			}
		}
		return true, "variable created without a value"
	case *ssa.Call:
		callee := x.Call.StaticCallee()
		if callee == nil || callee.Blocks == nil || !p.inModule(callee) {
			return false, "cannot follow the variable put into the slot"
		}
		c2 := ctx.enter(x, callee)
		n := 0
		for _, b := range callee.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				n++
				if ok, why := p.emptyVar(rt.Results[0], c2, depth+1); !ok {
					return false, why
				}
			}
		}
		return n > 0, "variable created without a value"
	}
	return false, "the variable put into a fresh slot may hold a value"
}
