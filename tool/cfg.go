package main

// Control-flow helpers: no-return functions, pruned flow graphs, dominance,
// branch facts, and structural keys for values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cfg struct {
	fn    *ssa.Function
	cut   []int // per block: index of the first instruction that never returns, or len(Instrs)
	succs [][]*ssa.BasicBlock
	preds [][]*ssa.BasicBlock
	reach []bool
	dom   [][]bool // dom[b][d]: d dominates b
}

func isNoReturnExternal(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	switch f.RelString(nil) {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		return true
	}
	return false
}

// computeNoReturn finds functions with no path to a normal return.
func (p *Prog) computeNoReturn() {
	p.noRet = map[*ssa.Function]bool{}
	p.cfgs = map[*ssa.Function]*cfg{}
	for changed := true; changed; {
		changed = false
		for _, f := range p.funcs {
			if p.noRet[f] || f.Recover != nil {
				continue
			}
			g := p.buildCFG(f)
			ret := false
			for i, b := range f.Blocks {
				if !g.reach[i] || g.cut[i] < len(b.Instrs) {
					continue
				}
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					ret = true
				}
			}
			if !ret {
				// An infinite loop also never returns; that is fine for pruning.
				p.noRet[f] = true
				changed = true
			}
		}
	}
}

func (p *Prog) isNoReturnCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	callee := c.Call.StaticCallee()
	if callee == nil {
		return false
	}
	return p.noRet[callee] || isNoReturnExternal(callee)
}

func (p *Prog) buildCFG(f *ssa.Function) *cfg {
	n := len(f.Blocks)
	g := &cfg{fn: f, cut: make([]int, n), succs: make([][]*ssa.BasicBlock, n), preds: make([][]*ssa.BasicBlock, n), reach: make([]bool, n)}
	for i, b := range f.Blocks {
		g.cut[i] = len(b.Instrs)
		for j, in := range b.Instrs {
			if p.isNoReturnCall(in) {
				g.cut[i] = j
				break
			}
		}
	}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if g.reach[b.Index] {
			return
		}
		g.reach[b.Index] = true
		if g.cut[b.Index] < len(b.Instrs) {
			return
		}
		ss := b.Succs
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				if constant.BoolVal(c.Value) {
					ss = ss[:1]
				} else {
					ss = ss[1:]
				}
			}
		}
		for _, s := range ss {
			g.succs[b.Index] = append(g.succs[b.Index], s)
			g.preds[s.Index] = append(g.preds[s.Index], b)
			visit(s)
		}
	}
	if n > 0 {
		visit(f.Blocks[0])
	}
	return g
}

func (p *Prog) cfg(f *ssa.Function) *cfg {
	if g := p.cfgs[f]; g != nil {
		return g
	}
	g := p.buildCFG(f)
	g.computeDom()
	p.cfgs[f] = g
	return g
}

func (g *cfg) computeDom() {
	n := len(g.fn.Blocks)
	g.dom = make([][]bool, n)
	for i := range g.dom {
		g.dom[i] = make([]bool, n)
		for j := range g.dom[i] {
			g.dom[i][j] = i != 0 || j == 0
		}
	}
	if n == 0 {
		return
	}
	for j := range g.dom[0] {
		g.dom[0][j] = j == 0
	}
	for changed := true; changed; {
		changed = false
		for i := 1; i < n; i++ {
			if !g.reach[i] {
				continue
			}
			nw := make([]bool, n)
			first := true
			for _, pr := range g.preds[i] {
				if first {
					copy(nw, g.dom[pr.Index])
					first = false
				} else {
					for j := range nw {
						nw[j] = nw[j] && g.dom[pr.Index][j]
					}
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != g.dom[i][j] {
					g.dom[i] = nw
					changed = true
					break
				}
			}
		}
	}
}

// dominates reports whether block a dominates block b on the pruned graph.
func (g *cfg) dominates(a, b *ssa.BasicBlock) bool {
	return g.reach[b.Index] && g.dom[b.Index][a.Index]
}

// live reports whether the instruction can execute at all.
func (g *cfg) live(in ssa.Instruction) bool {
	b := in.Block()
	if b == nil || !g.reach[b.Index] {
		return false
	}
	for i, x := range b.Instrs {
		if x == in {
			return i <= g.cut[b.Index]
		}
	}
	return false
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// instrDominates: a executes before b on every path reaching b.
func (g *cfg) instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return g.dominates(a.Block(), b.Block())
}

// reachable reports whether `to` can execute after `from` (strictly later).
func (g *cfg) reachableFrom(from, to ssa.Instruction) bool {
	if from.Block() == to.Block() && instrIndex(from) < instrIndex(to) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range g.succs[b.Index] {
			if seen[s] {
				continue
			}
			seen[s] = true
			if s == to.Block() {
				return true
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from.Block())
}

// ---------------------------------------------------------------- contexts

// ictx is an inlining context: the call through which the current function was entered.
type ictx struct {
	parent *ictx
	call   ssa.CallInstruction
	callee *ssa.Function
	depth  int
	args   []ssa.Value // when set, the arguments in parameter order
}

func (c *ictx) enter(call ssa.CallInstruction, callee *ssa.Function) *ictx {
	k := ictxKey{c, call, callee}
	if x := ictxMemo[k]; x != nil {
		return x
	}
	d := 1
	if c != nil {
		d = c.depth + 1
	}
	x := &ictx{parent: c, call: call, callee: callee, depth: d}
	ictxMemo[k] = x
	return x
}

type ictxKey struct {
	parent *ictx
	call   ssa.CallInstruction
	callee *ssa.Function
}

var ictxMemo = map[ictxKey]*ictx{}

// count reports how often callee occurs on the context's chain, and its innermost occurrence.
func (c *ictx) count(callee *ssa.Function) (n int, inner *ictx) {
	for x := c; x != nil; x = x.parent {
		if x.callee == callee {
			n++
			if inner == nil {
				inner = x
			}
		}
	}
	return
}

// argOf maps a parameter to the caller's argument.
func (c *ictx) argOf(prm *ssa.Parameter) (ssa.Value, *ictx, bool) {
	for x := c; x != nil; x = x.parent {
		if x.callee == prm.Parent() {
			for i, q := range prm.Parent().Params {
				if q == prm {
					if x.args != nil {
						if i < len(x.args) && x.args[i] != nil {
							return x.args[i], x.parent, true
						}
						return nil, nil, false
					}
					args := x.call.Common().Args
					if x.call.Common().IsInvoke() {
						if i == 0 {
							return x.call.Common().Value, x.parent, true
						}
						i--
					}
					if i < len(args) {
						return args[i], x.parent, true
					}
				}
			}
		}
	}
	return nil, nil, false
}

// closureOf finds the MakeClosure creating an anonymous function.
func closureOf(fn *ssa.Function) *ssa.MakeClosure {
	par := fn.Parent()
	if par == nil {
		return nil
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc
			}
		}
	}
	return nil
}

func freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	mc := closureOf(fv.Parent())
	if mc == nil {
		return nil
	}
	for i, v := range fv.Parent().FreeVars {
		if v == fv {
			return mc.Bindings[i]
		}
	}
	return nil
}

// rootAlloc resolves an address to the Alloc it denotes, through closures.
func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			b := freeVarBinding(x)
			if b == nil {
				return nil
			}
			v = b
		default:
			return nil
		}
	}
}

// storesTo lists all stores to the variable held by an Alloc, in its function and nested closures.
func storesTo(a *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && rootAlloc(st.Addr) == a {
					out = append(out, st)
				}
			}
		}
		for _, an := range f.AnonFuncs {
			scan(an)
		}
	}
	scan(a.Parent())
	return out
}

// loadedValue resolves a load of a local variable assigned exactly once.
func loadedValue(u *ssa.UnOp) (ssa.Value, bool) {
	if u.Op != token.MUL {
		return nil, false
	}
	a := rootAlloc(u.X)
	if a == nil {
		return nil, false
	}
	st := storesTo(a)
	if len(st) == 1 {
		return st[0].Val, true
	}
	return nil, false
}

func fieldName(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

// key is a structural name for a value: two values with equal keys denote the
// same expression over the same inputs. Unknown shapes get a unique key.
func (p *Prog) key(v ssa.Value, ctx *ictx) string { return p.keyN(v, ctx, 0) }

func uniq(v ssa.Value) string {
	if v.Parent() != nil {
		return fmt.Sprintf("<%s.%s>", fname(v.Parent()), v.Name())
	}
	return "<" + v.Name() + ">"
}

func (p *Prog) keyN(v ssa.Value, ctx *ictx, d int) string {
	if d > 25 {
		return uniq(v)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		if a, c, ok := ctx.argOf(x); ok {
			return p.keyN(a, c, d+1)
		}
		return uniq(x)
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return p.keyN(b, ctx, d+1)
		}
		return uniq(x)
	case *ssa.Global:
		return "&" + x.Pkg.Pkg.Name() + "." + x.Name()
	case *ssa.Function:
		return fname(x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w, ok := loadedValue(x); ok {
				return p.keyN(w, ctx, d+1)
			}
			k := p.keyN(x.X, ctx, d+1)
			if strings.HasPrefix(k, "&") {
				return k[1:]
			}
			return "*" + k
		}
		return x.Op.String() + p.keyN(x.X, ctx, d+1)
	case *ssa.FieldAddr:
		k := p.keyN(x.X, ctx, d+1)
		return "&" + strings.TrimPrefix(k, "&") + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return p.keyN(x.X, ctx, d+1) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return "&" + strings.TrimPrefix(p.keyN(x.X, ctx, d+1), "&") + "[" + p.keyN(x.Index, ctx, d+1) + "]"
	case *ssa.Index:
		return p.keyN(x.X, ctx, d+1) + "[" + p.keyN(x.Index, ctx, d+1) + "]"
	case *ssa.Lookup:
		return p.keyN(x.X, ctx, d+1) + "[" + p.keyN(x.Index, ctx, d+1) + "]"
	case *ssa.Slice:
		s := p.keyN(x.X, ctx, d+1) + "["
		if x.Low != nil {
			s += p.keyN(x.Low, ctx, d+1)
		}
		s += ":"
		if x.High != nil {
			s += p.keyN(x.High, ctx, d+1)
		}
		return s + "]"
	case *ssa.BinOp:
		a, b := p.keyN(x.X, ctx, d+1), p.keyN(x.Y, ctx, d+1)
		if (x.Op == token.ADD || x.Op == token.MUL) && b < a && !isString(x.Type()) {
			a, b = b, a
		}
		return "(" + a + x.Op.String() + b + ")"
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return p.keyN(x.X, ctx, d+1)
		}
		return "assert(" + p.keyN(x.X, ctx, d+1) + "," + x.AssertedType.String() + ")"
	case *ssa.ChangeType:
		return p.keyN(x.X, ctx, d+1)
	case *ssa.ChangeInterface:
		return p.keyN(x.X, ctx, d+1)
	case *ssa.MakeInterface:
		return p.keyN(x.X, ctx, d+1)
	case *ssa.Convert:
		return p.keyN(x.X, ctx, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return p.keyN(ta.X, ctx, d+1)
		}
		return p.keyN(x.Tuple, ctx, d+1) + "#" + fmt.Sprint(x.Index)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			var as []string
			for _, a := range x.Call.Args {
				as = append(as, p.keyN(a, ctx, d+1))
			}
			return b.Name() + "(" + strings.Join(as, ",") + ")"
		}
		if x.Call.IsInvoke() {
			// Interface accessors with no arguments are treated as stable names.
			if len(x.Call.Args) == 0 {
				return p.keyN(x.Call.Value, ctx, d+1) + "." + x.Call.Method.Name() + "()"
			}
			return uniq(x)
		}
		callee := x.Call.StaticCallee()
		if callee == nil {
			return uniq(x)
		}
		// A trivial accessor (single block, single result, no effects) is expanded.
		if w := trivialResult(callee); w != nil && d < 20 {
			return p.keyN(w, ctx.enter(x, callee), d+1)
		}
		if p.pure(callee) {
			var as []string
			for _, a := range x.Call.Args {
				as = append(as, p.keyN(a, ctx, d+1))
			}
			return fname(callee) + "(" + strings.Join(as, ",") + ")"
		}
		return uniq(x)
	}
	return uniq(v)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// trivialResult returns the returned value of a one-block function without effects.
func trivialResult(f *ssa.Function) ssa.Value {
	if len(f.Blocks) != 1 {
		return nil
	}
	b := f.Blocks[0]
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Return:
			if len(in.Results) == 1 {
				return in.Results[0]
			}
			return nil
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.RunDefers:
			return nil
		}
	}
	return nil
}

var pureMemo = map[*ssa.Function]int{}

// pure: no visible side effects; its result depends only on its inputs (and memory).
func (p *Prog) pure(f *ssa.Function) bool {
	switch pureMemo[f] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		return true // recursion: optimistic
	}
	if f.Blocks == nil {
		switch relTo(f) {
		case "strings", "unicode", "unicode/utf8", "strconv", "math/bits", "math", "slices":
			return true
		}
		if f.Signature.Recv() != nil && isBigType(f.Signature.Recv().Type()) {
			switch f.Name() {
			case "Sign", "Cmp", "IsInt64", "IsInt", "BitLen", "IsInf", "Int64", "Prec", "Signbit":
				return true
			}
		}
		if f.Signature.Recv() != nil && strings.Contains(f.Signature.Recv().Type().String(), "sync/atomic") && f.Name() == "Load" {
			return true
		}
		return false
	}
	pureMemo[f] = 3
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if a := rootAlloc(in.Addr); a == nil {
					if ia, ok2 := in.Addr.(*ssa.IndexAddr); ok2 && rootAlloc(ia.X) != nil {
						continue
					}
					if ia, ok2 := in.Addr.(*ssa.FieldAddr); ok2 && rootAlloc(ia.X) != nil {
						continue
					}
					ok = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				ok = false
			case *ssa.Call:
				if _, isB := in.Call.Value.(*ssa.Builtin); isB {
					continue
				}
				callee := in.Call.StaticCallee()
				if p.isNoReturnCall(in) {
					continue // raising an error is not a side effect for naming purposes
				}
				if callee == nil {
					if in.Call.IsInvoke() && len(in.Call.Args) == 0 {
						continue
					}
					ok = false
				} else if !p.pure(callee) {
					ok = false
				}
			}
		}
	}
	if ok {
		pureMemo[f] = 1
	} else {
		pureMemo[f] = 2
	}
	return ok
}

func relTo(f *ssa.Function) string {
	if pk := funcPkg(f); pk != nil {
		return pk.Path()
	}
	return ""
}

func isBigType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "math/big" {
		return false
	}
	switch n.Obj().Name() {
	case "Int", "Rat", "Float":
		return true
	}
	return false
}

// ---------------------------------------------------------------- branch facts

type fact struct {
	cond ssa.Value
	val  bool
	ctx  *ictx
}

// cmpFact is a normalised comparison known to hold.
type cmpFact struct {
	op   token.Token
	x, y ssa.Value
	ctx  *ictx
}

// guards returns the branch outcomes that hold whenever block b executes.
func (p *Prog) guards(b *ssa.BasicBlock, ctx *ictx) []fact {
	g := p.cfg(b.Parent())
	var out []fact
	for _, d := range b.Parent().Blocks {
		if !g.reach[d.Index] || !g.dominates(d, b) {
			continue
		}
		// edges into d that are not back edges
		var from *ssa.BasicBlock
		n := 0
		for _, pr := range g.preds[d.Index] {
			if g.dominates(d, pr) {
				continue
			}
			from = pr
			n++
		}
		if n != 1 {
			continue
		}
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok || from.Succs[0] == from.Succs[1] {
			continue
		}
		out = append(out, fact{iff.Cond, from.Succs[0] == d, ctx})
	}
	return out
}

// edgeFacts returns the facts that hold on the control edge from -> to.
func (p *Prog) edgeFacts(from, to *ssa.BasicBlock, ctx *ictx) []fact {
	out := p.guards(from, ctx)
	if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		out = append(out, fact{iff.Cond, from.Succs[0] == to, ctx})
	}
	return out
}

// expand turns boolean facts into comparison facts and opaque atoms.
func (p *Prog) expand(fs []fact) (cmps []cmpFact, atoms []fact) {
	seen := map[string]bool{}
	var do func(f fact, depth int)
	do = func(f fact, depth int) {
		k := fmt.Sprintf("%p/%v/%p", f.cond, f.val, f.ctx)
		if seen[k] || depth > 12 {
			return
		}
		seen[k] = true
		switch x := f.cond.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				do(fact{x.X, !f.val, f.ctx}, depth+1)
				return
			}
			if w, ok := loadedValue(x); ok {
				do(fact{w, f.val, f.ctx}, depth+1)
				return
			}
		case *ssa.BinOp:
			op := x.Op
			if !f.val {
				op = negate(op)
			}
			if op != token.ILLEGAL {
				if isBoolConst(x.Y) && (op == token.EQL || op == token.NEQ) {
					do(fact{x.X, constBool(x.Y) == (op == token.EQL), f.ctx}, depth+1)
					return
				}
				cmps = append(cmps, cmpFact{op, x.X, x.Y, f.ctx})
				return
			}
		case *ssa.Phi:
			// Which incoming edges are compatible with the outcome?
			var idx = -1
			n := 0
			for i, e := range x.Edges {
				if isBoolConst(e) && constBool(e) != f.val {
					continue
				}
				pb := x.Block().Preds[i]
				if !p.cfg(x.Parent()).reach[pb.Index] {
					continue
				}
				// The branch that leads here contradicts the value.
				if iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && iff.Cond == e && pb.Succs[0] != pb.Succs[1] && (pb.Succs[0] == x.Block()) != f.val {
					continue
				}
				idx = i
				n++
			}
			if n == 1 {
				if !isBoolConst(x.Edges[idx]) {
					do(fact{x.Edges[idx], f.val, f.ctx}, depth+1)
				}
				for _, e := range p.edgeFacts(x.Block().Preds[idx], x.Block(), f.ctx) {
					do(e, depth+1)
				}
				return
			}
		case *ssa.Parameter:
			if a, c, ok := f.ctx.argOf(x); ok {
				do(fact{a, f.val, c}, depth+1)
				return
			}
		case *ssa.Call:
			callee := x.Call.StaticCallee()
			if callee != nil && callee.Blocks != nil && p.inModule(callee) && callee.Signature.Results().Len() == 1 {
				// Facts implied by a predicate helper.
				g := p.cfg(callee)
				var only *ssa.Return
				n := 0
				for i, b := range callee.Blocks {
					if !g.reach[i] || g.cut[i] < len(b.Instrs) {
						continue
					}
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
						if isBoolConst(rt.Results[0]) && constBool(rt.Results[0]) != f.val {
							continue
						}
						only = rt
						n++
					}
				}
				if n == 1 {
					c2 := f.ctx.enter(x, callee)
					if c2.depth < 6 {
						if !isBoolConst(only.Results[0]) {
							do(fact{only.Results[0], f.val, c2}, depth+1)
						}
						for _, e := range p.guards(only.Block(), c2) {
							do(e, depth+1)
						}
						if p.onEnter != nil {
							p.onEnter(only.Block(), c2)
						}
					}
				}
			}
			atoms = append(atoms, f)
			return
		}
		atoms = append(atoms, f)
	}
	for _, f := range fs {
		do(f, 0)
	}
	return
}

func isBoolConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Bool
}

func constBool(v ssa.Value) bool { return constant.BoolVal(v.(*ssa.Const).Value) }

func constInt(v ssa.Value) (int64, bool) {
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, exact := constant.Int64Val(c.Value)
	return n, exact
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func negate(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return token.ILLEGAL
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// callersFacts collects facts at block b of fn, including those holding at every
// static call site of fn (when all uses of fn are static calls), up to depth levels.
func (p *Prog) addressTaken(fn *ssa.Function) bool {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands []*ssa.Value
				rands = in.Operands(rands)
				for i, r := range rands {
					if r == nil || *r != fn {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().Value == fn {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}
