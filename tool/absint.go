package main

// A small abstract interpreter over SSA. Values are constants, symbolic tokens,
// heap objects and "unknown". Branches on unknown conditions are explored both
// ways by re-execution under a decision vector. It never runs the program: the
// inputs are abstract tokens whose only known features are those the property
// quantifies over (an ordering, a sign, a truth value, an operator name).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type av interface{}

type (
	kconst   struct{ v constant.Value } // v==nil: nil
	ktok     struct{ name string }
	kunknown struct{}
	kstruct  struct{ f []av }
	ktuple   struct{ f []av }
	kptr     struct{ o *obj }
	kslice   struct {
		arr    *obj // array object
		lo, hi int
	}
	kmap  struct{ m *amap }
	kfunc struct {
		fn   *ssa.Function
		bind []av
	}
	kiface struct {
		t types.Type
		v av
	}
	kiter struct {
		m    *amap
		keys []string
		i    int
	}
)

type amap struct {
	m    map[string]av
	keys map[string]av
	unk  bool
	open bool // more keys than listed: the length is unknown
}

type obj struct {
	name string
	kids []*obj // struct fields or array elements
	val  av
	elem types.Type
	tok  string // symbolic object: loads of unset parts yield derived tokens
}

type absPanic struct{ v av }
type absAbort struct{ why string }

type interp struct {
	p       *Prog
	dec     []bool
	used    int
	steps   int
	max     int
	globals map[*ssa.Global]*obj
	depth   int
	// hooks
	vague      bool // a branch was taken on something unknown
	onCall     func(in *interp, callee *ssa.Function, method *types.Func, args []av, site ssa.CallInstruction) (av, bool)
	onCmp      func(op token.Token, x, y av) (bool, bool)
	onLoad     func(tok string, field string) (av, bool)
	onAssert   func(x av, t types.Type) (v av, known bool, ok bool)
	onGo       func(run func())
	onLen      func(x av) (av, bool)
	onBin      func(op token.Token, x, y av, t types.Type) (av, bool)
	onUn       func(op token.Token, x av, t types.Type) (av, bool)
	onConv     func(x av, from, to types.Type) (av, bool)
	onGlobal   func(in *interp, g *ssa.Global) (av, bool)
	onSlice    func(x, lo, hi av) (av, bool) // lo, hi nil if absent
	onIndex    func(x, i av, elem types.Type) (av, bool)
	onMake     func(n, c av, elem types.Type) (av, bool)
	onBuiltin  func(name string, args []av) (av, bool)
	onDyn      func(in *interp, f av, args []av) (av, bool) // call of a function value that is not a known function
	recoverers []*frame
	maxDepth   int
	symStrings bool // joining strings gives terms
	symInts    bool // so does adding, subtracting and shifting integers
	globalInit bool // evaluate package initialisers of globals on demand
}

func bconst(b bool) av   { return kconst{constant.MakeBool(b)} }
func iconst(i int64) av  { return kconst{constant.MakeInt64(i)} }
func sconst(s string) av { return kconst{constant.MakeString(s)} }

func (in *interp) abort(f string, a ...any) { panic(absAbort{fmt.Sprintf(f, a...)}) }

func (in *interp) decide() bool {
	if in.used < len(in.dec) {
		b := in.dec[in.used]
		in.used++
		return b
	}
	in.dec = append(in.dec, false)
	in.used++
	return false
}

type outcome struct {
	ret      av
	panicked bool
	pval     av
	aborted  string
	extra    any
}

// explore runs f under every decision vector.
func explore(p *Prog, mk func() *interp, run func(in *interp) av, limit int) []outcome {
	var outs []outcome
	var dec []bool
	for n := 0; ; n++ {
		in := mk()
		in.p = p
		in.dec = append([]bool(nil), dec...)
		if in.max == 0 {
			in.max = 200000
		}
		var o outcome
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch e := e.(type) {
					case absPanic:
						o.panicked = true
						o.pval = e.v
					case absAbort:
						o.aborted = e.why
					default:
						panic(e)
					}
				}
			}()
			o.ret = run(in)
		}()
		outs = append(outs, o)
		if n >= limit {
			outs = append(outs, outcome{aborted: "too many paths"})
			return outs
		}
		dec = in.dec[:in.used]
		for len(dec) > 0 && dec[len(dec)-1] {
			dec = dec[:len(dec)-1]
		}
		if len(dec) == 0 {
			return outs
		}
		dec = append([]bool(nil), dec...)
		dec[len(dec)-1] = true
	}
}

func newObj(t types.Type) *obj {
	o := &obj{elem: t}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			o.kids = append(o.kids, newObj(u.Field(i).Type()))
		}
		return o
	case *types.Array:
		if u.Len() <= 256 {
			for i := int64(0); i < u.Len(); i++ {
				o.kids = append(o.kids, newObj(u.Elem()))
			}
			return o
		}
	}
	o.val = zeroAV(t)
	return o
}

func zeroAV(t types.Type) av {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return bconst(false)
		case u.Info()&types.IsString != 0:
			return sconst("")
		case u.Info()&types.IsInteger != 0:
			return iconst(0)
		case u.Info()&types.IsFloat != 0:
			return kconst{constant.MakeFloat64(0)}
		}
		return kconst{nil}
	case *types.Struct:
		s := kstruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroAV(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 256 {
			return kunknown{}
		}
		s := kstruct{}
		for i := int64(0); i < u.Len(); i++ {
			s.f = append(s.f, zeroAV(u.Elem()))
		}
		return s
	}
	return kconst{nil}
}

func (in *interp) load(o *obj) av {
	if o.kids != nil {
		s := kstruct{}
		for _, k := range o.kids {
			s.f = append(s.f, in.load(k))
		}
		return s
	}
	return o.val
}

func (in *interp) store(o *obj, v av) {
	if o.kids != nil {
		switch v := v.(type) {
		case kstruct:
			for i, k := range o.kids {
				in.store(k, v.f[i])
			}
			return
		case ktok:
			for i, k := range o.kids {
				in.store(k, in.derived(v, fieldName(o.elem, i)))
			}
			return
		}
		for _, k := range o.kids {
			in.store(k, kunknown{})
		}
		return
	}
	o.val = v
}

// narrows: a conversion between integer types that can lose bits.
func (in *interp) narrows(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || f.Info()&types.IsInteger == 0 || t.Info()&types.IsInteger == 0 {
		return false
	}
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(t) < sz.Sizeof(f)
}

func (in *interp) derived(t ktok, field string) av {
	if in.onLoad != nil {
		if v, ok := in.onLoad(t.name, field); ok {
			return v
		}
	}
	return ktok{t.name + "." + field}
}

func (in *interp) globalObj(g *ssa.Global) *obj {
	if in.globals == nil {
		in.globals = map[*ssa.Global]*obj{}
	}
	if o := in.globals[g]; o != nil {
		return o
	}
	et := g.Type().(*types.Pointer).Elem()
	o := newObj(et)
	in.globals[g] = o
	if in.onGlobal != nil {
		if v, ok := in.onGlobal(in, g); ok {
			in.store(o, v)
			return o
		}
	}
	if in.p.inModulePkg(g.Pkg) {
		// A global stored exactly once, in package initialisation, with a constant
		// or constant-like value has a known value; everything else is a token.
		if v, ok := in.p.globalConst(g); ok {
			in.store(o, v)
			return o
		}
	}
	in.store(o, ktok{"G:" + g.Pkg.Pkg.Name() + "." + g.Name()})
	return o
}

func (p *Prog) inModulePkg(pk *ssa.Package) bool {
	for _, s := range p.spkg {
		if s == pk {
			return true
		}
	}
	return false
}

var globalStores map[*ssa.Global][]*ssa.Store

func (p *Prog) storesToGlobal(g *ssa.Global) []*ssa.Store {
	if globalStores == nil {
		globalStores = map[*ssa.Global][]*ssa.Store{}
		var all []*ssa.Function
		all = append(all, p.funcs...)
		for _, sp := range p.spkg {
			if f := sp.Func("init"); f != nil {
				all = append(all, f)
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range all {
			if seen[f] {
				continue
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if gg, ok := st.Addr.(*ssa.Global); ok {
							globalStores[gg] = append(globalStores[gg], st)
						}
					}
				}
			}
		}
	}
	return globalStores[g]
}

// globalConst: the value of a global assigned once, in init, a constant.
func (p *Prog) globalConst(g *ssa.Global) (av, bool) {
	sts := p.storesToGlobal(g)
	if len(sts) != 1 || sts[0].Parent().Name() != "init" {
		return nil, false
	}
	v := sts[0].Val
	for {
		switch x := v.(type) {
		case *ssa.Const:
			return kconst{x.Value}, true
		case *ssa.MakeInterface:
			if c, ok := x.X.(*ssa.Const); ok {
				return kiface{x.X.Type(), kconst{c.Value}}, true
			}
			return nil, false
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeMap:
			return p.literalMap(g, x)
		case *ssa.Slice:
			return p.literalSlice(g, x)
		default:
			return nil, false
		}
	}
}

// literalMap: a map made of constants in init, which is only looked into afterwards.
func (p *Prog) literalMap(g *ssa.Global, mm *ssa.MakeMap) (av, bool) {
	am := &amap{m: map[string]av{}, keys: map[string]av{}}
	for _, r := range *mm.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			k, ok1 := x.Key.(*ssa.Const)
			v, ok2 := x.Value.(*ssa.Const)
			if x.Map != ssa.Value(mm) || !ok1 || !ok2 {
				return nil, false
			}
			val := zeroAV(v.Type())
			if v.Value != nil {
				val = kconst{v.Value}
			}
			key, ok := akey(kconst{k.Value})
			if !ok {
				return nil, false
			}
			am.m[key], am.keys[key] = val, kconst{k.Value}
		case *ssa.Store:
		case *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	if !p.readOnlyGlobal(g) {
		return nil, false
	}
	return kmap{am}, true
}

// literalSlice: a slice made of constants in init, which is only read afterwards.
func (p *Prog) literalSlice(g *ssa.Global, sl *ssa.Slice) (av, bool) {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return nil, false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 256 {
		return nil, false
	}
	o := newObj(al.Type().Underlying().(*types.Pointer).Elem())
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Slice, *ssa.DebugRef:
		case *ssa.IndexAddr:
			i, ok := constInt(x.Index)
			if !ok || i < 0 || i >= at.Len() || len(*x.Referrers()) != 1 {
				return nil, false
			}
			st, ok := (*x.Referrers())[0].(*ssa.Store)
			if !ok {
				return nil, false
			}
			k, ok := st.Val.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil, false
			}
			o.kids[i].val = kconst{k.Value}
		default:
			return nil, false
		}
	}
	if !p.readOnlyGlobal(g) {
		return nil, false
	}
	return kslice{o, 0, int(at.Len())}, true
}

var globalUses map[*ssa.Global][]ssa.Instruction

// readOnlyGlobal: apart from its initialisation, the variable is only loaded, and what is loaded
// only looked into.
func (p *Prog) readOnlyGlobal(g *ssa.Global) bool {
	if globalUses == nil {
		globalUses = map[*ssa.Global][]ssa.Instruction{}
		all := append([]*ssa.Function(nil), p.funcs...)
		for _, sp := range p.spkg {
			if f := sp.Func("init"); f != nil {
				all = append(all, f)
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range all {
			if seen[f] {
				continue
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok {
							globalUses[gg] = append(globalUses[gg], i)
						}
					}
				}
			}
		}
	}
	for _, u := range globalUses[g] {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(g) || x.Val == ssa.Value(g) {
				return false
			}
		case *ssa.UnOp:
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
				case *ssa.IndexAddr:
					for _, z := range *y.Referrers() {
						if l, ok := z.(*ssa.UnOp); !ok || l.Op != token.MUL {
							return false
						}
					}
				case *ssa.Call:
					if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						continue
					}
					if f := y.Call.StaticCallee(); f != nil && relTo(f) == "slices" && in2(originName(f), "Contains", "Index") {
						continue
					}
					return false
				default:
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

type frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]av
	bind []av
	defs []func()
	// panicking: the panic under way while the deferred calls run, which run at this depth
	panicking *absPanic
	deferAt   int
}

func (in *interp) val(fr *frame, v ssa.Value) av {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return zeroAV(x.Type())
			}
		}
		return kconst{x.Value}
	case *ssa.Function:
		return kfunc{x, nil}
	case *ssa.Global:
		return kptr{in.globalObj(x)}
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.bind) {
				return fr.bind[i]
			}
		}
		return kunknown{}
	}
	if a, ok := fr.env[v]; ok {
		return a
	}
	return kunknown{}
}

// call interprets fn. Returns a value, or ktuple for multiple results.
func (in *interp) call(fn *ssa.Function, args []av, bind []av) av {
	in.depth++
	defer func() { in.depth-- }()
	if in.depth > 60 && in.depth > in.maxDepth {
		in.abort("recursion limit")
	}
	if fn.Blocks == nil {
		return kunknown{}
	}
	fr := &frame{fn: fn, env: map[ssa.Value]av{}, bind: bind}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	return in.runFrame(fr)
}

// runFrame runs the frame's function; if it panics, the deferred calls already registered run and
// may recover.
func (in *interp) runFrame(fr *frame) (res av) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		pv, ok := e.(absPanic)
		if !ok {
			panic(e)
		}
		fr.panicking = &pv
		fr.deferAt = in.depth
		in.recoverers = append(in.recoverers, fr)
		func() {
			defer func() { in.recoverers = in.recoverers[:len(in.recoverers)-1] }()
			for len(fr.defs) > 0 {
				d := fr.defs[len(fr.defs)-1]
				fr.defs = fr.defs[:len(fr.defs)-1]
				func() {
					defer func() {
						if e := recover(); e != nil {
							if p2, ok := e.(absPanic); ok {
								fr.panicking = &p2
								return
							}
							panic(e)
						}
					}()
					d()
				}()
			}
		}()
		if fr.panicking != nil {
			panic(*fr.panicking)
		}
		if fr.fn.Recover != nil {
			res = in.runBlocks(fr, fr.fn.Recover)
			return
		}
		switch r := fr.fn.Signature.Results(); r.Len() {
		case 0:
			res = kconst{nil}
		case 1:
			res = zeroAV(r.At(0).Type())
		default:
			t := ktuple{}
			for i := 0; i < r.Len(); i++ {
				t.f = append(t.f, zeroAV(r.At(i).Type()))
			}
			res = t
		}
	}()
	return in.runBlocks(fr, fr.fn.Blocks[0])
}

func (in *interp) runBlocks(fr *frame, b *ssa.BasicBlock) av {
	fn := fr.fn
	visits := map[*ssa.BasicBlock]int{}
	var prev *ssa.BasicBlock
	for {
		visits[b]++
		if visits[b] > 600 {
			in.abort("loop limit in %s", fname(fn))
		}
		// phis first
		var phis []av
		n := 0
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for j, pr := range b.Preds {
				if pr == prev {
					phis = append(phis, in.val(fr, ph.Edges[j]))
					break
				}
			}
			n++
		}
		for k := 0; k < n; k++ {
			fr.env[b.Instrs[k].(*ssa.Phi)] = phis[k]
		}
		var next *ssa.BasicBlock
		for _, i := range b.Instrs[n:] {
			in.steps++
			if in.steps > in.max {
				in.abort("step limit")
			}
			switch x := i.(type) {
			case *ssa.If:
				c := in.val(fr, x.Cond)
				var t bool
				if k, ok := c.(kconst); ok && k.v != nil && k.v.Kind() == constant.Bool {
					t = constant.BoolVal(k.v)
				} else {
					t = in.decide()
					in.vague = true
					fr.env[x.Cond] = bconst(t) // remember within this frame
				}
				if t {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return kconst{nil}
				case 1:
					return in.val(fr, x.Results[0])
				}
				t := ktuple{}
				for _, r := range x.Results {
					t.f = append(t.f, in.val(fr, r))
				}
				return t
			case *ssa.Panic:
				panic(absPanic{in.val(fr, x.X)})
			case *ssa.Store:
				if p, ok := in.val(fr, x.Addr).(kptr); ok && p.o != nil {
					in.store(p.o, in.val(fr, x.Val))
				}
			case *ssa.MapUpdate:
				if m, ok := in.val(fr, x.Map).(kmap); ok {
					if k, ok := akey(in.val(fr, x.Key)); ok {
						m.m.m[k] = in.val(fr, x.Value)
						m.m.keys[k] = in.val(fr, x.Key)
					} else {
						m.m.unk = true
					}
				}
			case *ssa.Defer:
				fr.defs = append(fr.defs, in.deferCall(fr, x))
			case *ssa.RunDefers:
				for len(fr.defs) > 0 {
					d := fr.defs[len(fr.defs)-1]
					fr.defs = fr.defs[:len(fr.defs)-1]
					d()
				}
			case *ssa.Go:
				if in.onGo != nil {
					in.onGo(in.deferCall(fr, &ssa.Defer{Call: x.Call}))
				}
			case *ssa.Send, *ssa.DebugRef:
			case ssa.Value:
				fr.env[x] = in.eval(fr, x)
			}
		}
		if next == nil {
			in.abort("no successor")
		}
		prev, b = b, next
	}
}

// deferCall evaluates the operands of a deferred call now and runs it later.
func (in *interp) deferCall(fr *frame, d *ssa.Defer) func() {
	snap := &frame{fn: fr.fn, env: map[ssa.Value]av{}, bind: fr.bind}
	var rs []*ssa.Value
	for _, r := range d.Operands(rs) {
		if r != nil && *r != nil {
			snap.env[*r] = in.val(fr, *r)
			if mc, ok := (*r).(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					snap.env[b] = in.val(fr, b)
				}
			}
		}
	}
	return func() { in.doCall(snap, d) }
}

func akey(a av) (string, bool) {
	switch x := a.(type) {
	case kconst:
		if x.v == nil {
			return "nil", true
		}
		return x.v.ExactString(), true
	case kiface:
		k, ok := akey(x.v)
		return x.t.String() + ":" + k, ok
	}
	return "", false
}

func (in *interp) eval(fr *frame, v ssa.Value) av {
	switch x := v.(type) {
	case *ssa.Alloc:
		return kptr{newObj(x.Type().(*types.Pointer).Elem())}
	case *ssa.BinOp:
		return in.binop(x.Op, in.val(fr, x.X), in.val(fr, x.Y), x.Type())
	case *ssa.UnOp:
		a := in.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			switch p := a.(type) {
			case kptr:
				if p.o != nil {
					return in.load(p.o)
				}
			case ktok:
				return in.derived(p, "*")
			}
			return kunknown{}
		case token.NOT, token.SUB, token.XOR:
			if in.onUn != nil {
				if v, ok := in.onUn(x.Op, a, x.Type()); ok {
					return v
				}
			}
			if k, ok := a.(kconst); ok && k.v != nil {
				return kconst{constant.UnaryOp(x.Op, k.v, 0)}
			}
			if in.onCall != nil && x.Op == token.SUB {
				if t, ok := a.(ktok); ok {
					return ktok{"-" + t.name}
				}
			}
		}
		return kunknown{}
	case *ssa.ChangeType:
		return in.val(fr, x.X)
	case *ssa.ChangeInterface:
		return in.val(fr, x.X)
	case *ssa.Convert:
		a := in.val(fr, x.X)
		if in.onConv != nil {
			if v, ok := in.onConv(a, x.X.Type(), x.Type()); ok {
				return v
			}
		}
		if k, ok := a.(kconst); ok && k.v != nil {
			if isString(x.Type()) && k.v.Kind() == constant.Int {
				if n, ok := constant.Int64Val(k.v); ok {
					return sconst(string(rune(n)))
				}
			}
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && k.v.Kind() == constant.Float {
				return kconst{constant.ToInt(k.v)}
			}
			return kconst{wrapInt(k.v, x.Type())}
		}
		if t, ok := a.(ktok); ok && in.narrows(x.X.Type(), x.Type()) {
			return ktok{types.TypeString(x.Type(), nil) + "(" + t.name + ")"}
		}
		return a
	case *ssa.MakeInterface:
		a := in.val(fr, x.X)
		if t, ok := a.(ktok); ok {
			return t // a token stands for itself whatever its static type
		}
		return kiface{x.X.Type(), a}
	case *ssa.TypeAssert:
		a := in.val(fr, x.X)
		var res av = kunknown{}
		known, ok := false, false
		if in.onAssert != nil {
			if w, k, o := in.onAssert(a, x.AssertedType); k {
				res, known, ok = w, k, o
			}
		}
		if !known {
			switch y := a.(type) {
			case kiface:
				if types.IsInterface(x.AssertedType) {
					known, ok = true, types.Implements(y.t, x.AssertedType.Underlying().(*types.Interface))
					res = y
				} else {
					known, ok = true, types.Identical(y.t, x.AssertedType)
					res = y.v
				}
			case kconst:
				if y.v == nil {
					known, ok = true, false
				}
			case ktok:
				res = y
			}
		}
		if known && !ok {
			res = zeroAV(x.AssertedType)
			if !x.CommaOk {
				panic(absPanic{sconst("type assertion")})
			}
		}
		if x.CommaOk {
			if known {
				return ktuple{[]av{res, bconst(ok)}}
			}
			return ktuple{[]av{res, kunknown{}}}
		}
		return res
	case *ssa.Extract:
		if t, ok := in.val(fr, x.Tuple).(ktuple); ok && x.Index < len(t.f) {
			return t.f[x.Index]
		}
		if t, ok := in.val(fr, x.Tuple).(ktok); ok {
			return ktok{fmt.Sprintf("%s#%d", t.name, x.Index)}
		}
		return kunknown{}
	case *ssa.Field:
		switch s := in.val(fr, x.X).(type) {
		case kstruct:
			return s.f[x.Field]
		case ktok:
			return in.derived(s, fieldName(x.X.Type(), x.Field))
		}
		return kunknown{}
	case *ssa.FieldAddr:
		switch p := in.val(fr, x.X).(type) {
		case kptr:
			if p.o != nil && x.Field < len(p.o.kids) {
				return kptr{p.o.kids[x.Field]}
			}
		case ktok:
			o := newObj(x.Type().(*types.Pointer).Elem())
			in.store(o, in.derived(p, fieldName(x.X.Type(), x.Field)))
			return kptr{o}
		}
		return kunknown{}
	case *ssa.IndexAddr:
		if in.onIndex != nil {
			if v, ok := in.onIndex(in.val(fr, x.X), in.val(fr, x.Index), x.Type().(*types.Pointer).Elem()); ok {
				return v
			}
		}
		i, iok := in.val(fr, x.Index).(kconst)
		if !iok || i.v == nil {
			return kunknown{}
		}
		n, _ := constant.Int64Val(i.v)
		switch p := in.val(fr, x.X).(type) {
		case kptr:
			if p.o != nil && n >= 0 && int(n) < len(p.o.kids) {
				return kptr{p.o.kids[n]}
			}
		case kslice:
			if p.arr != nil && n >= 0 && p.lo+int(n) < p.hi && p.lo+int(n) < len(p.arr.kids) {
				return kptr{p.arr.kids[p.lo+int(n)]}
			}
			panic(absPanic{sconst("index out of range")})
		}
		return kunknown{}
	case *ssa.Index:
		i, iok := in.val(fr, x.Index).(kconst)
		if iok && i.v != nil {
			n, _ := constant.Int64Val(i.v)
			switch s := in.val(fr, x.X).(type) {
			case kstruct:
				if n >= 0 && int(n) < len(s.f) {
					return s.f[n]
				}
			case kconst:
				if s.v != nil && s.v.Kind() == constant.String {
					str := constant.StringVal(s.v)
					if n >= 0 && int(n) < len(str) {
						return iconst(int64(str[n]))
					}
					panic(absPanic{sconst("index out of range")})
				}
			}
		}
		return kunknown{}
	case *ssa.Lookup:
		m := in.val(fr, x.X)
		if s, ok := m.(kconst); ok && s.v != nil && s.v.Kind() == constant.String {
			if i, ok := in.val(fr, x.Index).(kconst); ok && i.v != nil {
				n, _ := constant.Int64Val(i.v)
				str := constant.StringVal(s.v)
				if n >= 0 && int(n) < len(str) {
					return iconst(int64(str[n]))
				}
				panic(absPanic{sconst("index out of range")})
			}
			return kunknown{}
		}
		if mm, ok := m.(kmap); ok && !mm.m.unk {
			if k, ok := akey(in.val(fr, x.Index)); ok {
				a, found := mm.m.m[k]
				if !found {
					a = zeroAV(x.X.Type().Underlying().(*types.Map).Elem())
				}
				if x.CommaOk {
					return ktuple{[]av{a, bconst(found)}}
				}
				return a
			}
		}
		if t, ok := m.(ktok); ok {
			kn := "?"
			if k, ok := akey(in.val(fr, x.Index)); ok {
				kn = k
			}
			a := in.derived(ktok{t.name}, "["+kn+"]")
			if x.CommaOk {
				return ktuple{[]av{a, kunknown{}}}
			}
			return a
		}
		if x.CommaOk {
			return ktuple{[]av{kunknown{}, kunknown{}}}
		}
		return kunknown{}
	case *ssa.MakeMap:
		return kmap{&amap{m: map[string]av{}, keys: map[string]av{}}}
	case *ssa.MakeClosure:
		f := kfunc{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, in.val(fr, b))
		}
		return f
	case *ssa.MakeSlice:
		if in.onMake != nil {
			if v, ok := in.onMake(in.val(fr, x.Len), in.val(fr, x.Cap), x.Type().Underlying().(*types.Slice).Elem()); ok {
				return v
			}
		}
		n, ok := in.val(fr, x.Len).(kconst)
		if ok && n.v != nil {
			k, _ := constant.Int64Val(n.v)
			if k >= 0 && k <= 4096 {
				o := &obj{elem: types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), k)}
				for i := int64(0); i < k; i++ {
					o.kids = append(o.kids, newObj(x.Type().Underlying().(*types.Slice).Elem()))
				}
				return kslice{o, 0, int(k)}
			}
		}
		return kunknown{}
	case *ssa.Slice:
		if in.onSlice != nil {
			var l, h av
			if x.Low != nil {
				l = in.val(fr, x.Low)
			}
			if x.High != nil {
				h = in.val(fr, x.High)
			}
			if v, ok := in.onSlice(in.val(fr, x.X), l, h); ok {
				return v
			}
		}
		lo, hi := 0, -1
		get := func(e ssa.Value, def int) (int, bool) {
			if e == nil {
				return def, true
			}
			k, ok := in.val(fr, e).(kconst)
			if !ok || k.v == nil {
				return 0, false
			}
			n, _ := constant.Int64Val(k.v)
			return int(n), true
		}
		switch s := in.val(fr, x.X).(type) {
		case ktok:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && in.symStrings {
				if h, ok := get(x.High, -1); ok && h == 0 {
					return sconst("")
				}
			}
		case kptr:
			if s.o == nil {
				return kunknown{}
			}
			var ok1, ok2 bool
			lo, ok1 = get(x.Low, 0)
			hi, ok2 = get(x.High, len(s.o.kids))
			if ok1 && ok2 {
				return kslice{s.o, lo, hi}
			}
		case kslice:
			l, ok1 := get(x.Low, 0)
			h, ok2 := get(x.High, s.hi-s.lo)
			if ok1 && ok2 {
				return kslice{s.arr, s.lo + l, s.lo + h}
			}
		case kconst:
			if s.v != nil && s.v.Kind() == constant.String {
				str := constant.StringVal(s.v)
				l, ok1 := get(x.Low, 0)
				h, ok2 := get(x.High, len(str))
				if ok1 && ok2 {
					if l < 0 || h > len(str) || l > h {
						panic(absPanic{sconst("slice out of range")})
					}
					return sconst(str[l:h])
				}
			}
		}
		return kunknown{}
	case *ssa.Range:
		if m, ok := in.val(fr, x.X).(kmap); ok && !m.m.unk {
			it := &kiter{m: m.m}
			for k := range m.m.m {
				it.keys = append(it.keys, k)
			}
			sort.Strings(it.keys)
			return it
		}
		return kunknown{}
	case *ssa.Next:
		if it, ok := in.val(fr, x.Iter).(*kiter); ok {
			if it.i >= len(it.keys) {
				return ktuple{[]av{bconst(false), kunknown{}, kunknown{}}}
			}
			k := it.keys[it.i]
			it.i++
			return ktuple{[]av{bconst(true), it.m.keys[k], it.m.m[k]}}
		}
		return kunknown{}
	case *ssa.Call:
		return in.doCall(fr, x)
	}
	return kunknown{}
}

// kseq is the iterator of a slice made by the slices package.
type kseq struct {
	s    kslice
	back bool
	form string // All (index and element) or Values
}

func sliceIter(callee *ssa.Function, args []av) (av, bool) {
	o := callee
	if o.Origin() != nil {
		o = o.Origin()
	}
	if o.Pkg == nil || o.Pkg.Pkg.Path() != "slices" || len(args) != 1 {
		return nil, false
	}
	s, ok := args[0].(kslice)
	if !ok {
		return nil, false
	}
	switch o.Name() {
	case "All":
		return kseq{s, false, "All"}, true
	case "Backward":
		return kseq{s, true, "All"}, true
	case "Values":
		return kseq{s, false, "Values"}, true
	}
	return nil, false
}

func (in *interp) iterate(it kseq, y kfunc) {
	n := it.s.hi - it.s.lo
	for k := 0; k < n; k++ {
		i := k
		if it.back {
			i = n - 1 - k
		}
		args := []av{in.load(it.s.arr.kids[it.s.lo+i])}
		if it.form == "All" {
			args = append([]av{iconst(int64(i))}, args...)
		}
		b, ok := in.call(y.fn, args, y.bind).(kconst)
		if !ok || b.v == nil || b.v.Kind() != constant.Bool {
			in.abort("iteration stops on something unknown")
		}
		if !constant.BoolVal(b.v) {
			return
		}
	}
}

func (in *interp) doCall(fr *frame, c ssa.CallInstruction) av {
	cc := c.Common()
	var args []av
	if cc.IsInvoke() {
		recv := in.val(fr, cc.Value)
		args = append(args, recv)
		for _, a := range cc.Args {
			args = append(args, in.val(fr, a))
		}
		if in.onCall != nil {
			if v, ok := in.onCall(in, nil, cc.Method, args, c); ok {
				return v
			}
		}
		if ki, ok := recv.(kiface); ok {
			if m := in.p.prog.LookupMethod(ki.t, cc.Method.Pkg(), cc.Method.Name()); m != nil && m.Blocks != nil {
				args[0] = ki.v
				if in.onCall != nil {
					if v, ok := in.onCall(in, m, cc.Method, args, c); ok {
						return v
					}
				}
				return in.call(m, args, nil)
			}
		}
		return kunknown{}
	}
	for _, a := range cc.Args {
		args = append(args, in.val(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return in.builtin(b.Name(), args, c)
	}
	callee := cc.StaticCallee()
	var bind []av
	if callee == nil {
		if f, ok := in.val(fr, cc.Value).(kfunc); ok {
			callee, bind = f.fn, f.bind
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			bind = append(bind, in.val(fr, b))
		}
	}
	if callee == nil {
		fv := in.val(fr, cc.Value)
		if in.onDyn != nil {
			if v, ok := in.onDyn(in, fv, args); ok {
				return v
			}
		}
		if it, ok := fv.(kseq); ok && len(args) == 1 {
			if y, ok := args[0].(kfunc); ok {
				in.iterate(it, y)
				return ktuple{}
			}
		}
		if in.onCall != nil {
			if v, ok := in.onCall(in, nil, nil, args, c); ok {
				return v
			}
		}
		return kunknown{}
	}
	if in.onCall != nil {
		if v, ok := in.onCall(in, callee, nil, args, c); ok {
			return v
		}
	}
	if callee.Blocks == nil || !in.p.inModule(callee) {
		if v, ok := constStrings(callee, args); ok {
			return v
		}
		if v, ok := sliceIter(callee, args); ok {
			return v
		}
		if v, ok := in.sliceFuncs(callee, args); ok {
			return v
		}
		if v, ok := in.cloned(callee, args); ok {
			return v
		}
		return kunknown{}
	}
	return in.call(callee, args, bind)
}

func (in *interp) builtin(name string, args []av, c ssa.CallInstruction) av {
	if in.onBuiltin != nil {
		if v, ok := in.onBuiltin(name, args); ok {
			return v
		}
	}
	switch name {
	case "min", "max":
		best := args[0]
		for _, a := range args[1:] {
			less, ok := false, false
			x, ok1 := best.(kconst)
			y, ok2 := a.(kconst)
			if ok1 && ok2 && x.v != nil && y.v != nil {
				less, ok = constant.Compare(a.(kconst).v, token.LSS, x.v), true
			} else if in.onCmp != nil {
				less, ok = in.onCmp(token.LSS, a, best)
			}
			if !ok {
				return kunknown{}
			}
			if less == (name == "min") {
				best = a
			}
		}
		return best
	case "len":
		if in.onLen != nil {
			if v, ok := in.onLen(args[0]); ok {
				return v
			}
		}
		switch s := args[0].(type) {
		case kslice:
			return iconst(int64(s.hi - s.lo))
		case kconst:
			if s.v == nil {
				return iconst(0)
			}
			if s.v.Kind() == constant.String {
				return iconst(int64(len(constant.StringVal(s.v))))
			}
		case kmap:
			if !s.m.unk && !s.m.open {
				return iconst(int64(len(s.m.m)))
			}
		}
	case "recover":
		for i := len(in.recoverers) - 1; i >= 0; i-- {
			// recover works only when called by the deferred function itself.
			if fr := in.recoverers[i]; fr.panicking != nil && in.depth == fr.deferAt+1 {
				v := fr.panicking.v
				fr.panicking = nil
				return v
			}
			break
		}
		return kconst{nil}
	case "copy":
		d, ok1 := args[0].(kslice)
		s, ok2 := args[1].(kslice)
		if ok1 && ok2 {
			n := min(d.hi-d.lo, s.hi-s.lo)
			var vs []av
			for i := 0; i < n; i++ {
				vs = append(vs, in.load(s.arr.kids[s.lo+i]))
			}
			for i, v := range vs {
				in.store(d.arr.kids[d.lo+i], v)
			}
			return iconst(int64(n))
		}
	case "delete":
		if m, ok := args[0].(kmap); ok {
			if k, ok := akey(args[1]); ok {
				delete(m.m.m, k)
				delete(m.m.keys, k)
			} else {
				m.m.unk = true
			}
			return kconst{nil}
		}
	case "append":
		if len(args) == 2 {
			et := c.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			o := &obj{elem: types.NewArray(et, 0)}
			addAll := func(a av) bool {
				switch s := a.(type) {
				case kslice:
					for i := s.lo; i < s.hi; i++ {
						k := newObj(et)
						in.store(k, in.load(s.arr.kids[i]))
						o.kids = append(o.kids, k)
					}
					return true
				case kconst:
					return s.v == nil
				}
				return false
			}
			if addAll(args[0]) && addAll(args[1]) {
				if o.kids == nil {
					o.kids = []*obj{}
				}
				return kslice{o, 0, len(o.kids)}
			}
		}
	}
	return kunknown{}
}

func (in *interp) binop(op token.Token, a, b av, t types.Type) av {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if in.onCmp != nil {
			if r, ok := in.onCmp(op, a, b); ok {
				return bconst(r)
			}
		}
		x, y := a, b
		if ki, ok := x.(kiface); ok {
			if kj, ok := y.(kiface); ok {
				if !types.Identical(ki.t, kj.t) {
					return bconst(op == token.NEQ)
				}
				x, y = ki.v, kj.v
			} else if kn, ok := y.(kconst); ok && kn.v == nil {
				return bconst(op == token.NEQ)
			}
		} else if _, ok := y.(kiface); ok {
			if kn, ok := x.(kconst); ok && kn.v == nil {
				return bconst(op == token.NEQ)
			}
		}
		if _, ok := x.(kstruct); ok && (op == token.EQL || op == token.NEQ) {
			if eq, known := constEq(x, y); known {
				return bconst(eq == (op == token.EQL))
			}
		}
		kx, ok1 := x.(kconst)
		ky, ok2 := y.(kconst)
		if ok1 && ok2 {
			if kx.v == nil || ky.v == nil {
				eq := kx.v == nil && ky.v == nil
				return bconst(eq == (op == token.EQL))
			}
			if kx.v.Kind() == ky.v.Kind() || (kx.v.Kind() != constant.String && ky.v.Kind() != constant.String && kx.v.Kind() != constant.Bool) {
				return bconst(constant.Compare(kx.v, op, ky.v))
			}
		}
		// pointers, funcs, maps against nil
		nonNil := func(v av) bool {
			switch q := v.(type) {
			case kptr:
				return q.o != nil
			case kfunc, kmap:
				return true
			case kslice:
				return true
			}
			return false
		}
		if ok2 && ky.v == nil && nonNil(x) {
			return bconst(op == token.NEQ)
		}
		if ok1 && kx.v == nil && nonNil(y) {
			return bconst(op == token.NEQ)
		}
		return kunknown{}
	}
	if in.onBin != nil {
		if v, ok := in.onBin(op, a, b, t); ok {
			return v
		}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && in.symStrings && op == token.ADD && bt.Info()&types.IsString != 0 {
		_, ok1 := a.(kconst)
		_, ok2 := b.(kconst)
		if !ok1 || !ok2 {
			return ktok{showAV(a) + "+" + showAV(b)}
		}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && in.symInts && bt.Info()&types.IsInteger != 0 {
		_, ok1 := a.(kconst)
		_, ok2 := b.(kconst)
		if !ok1 || !ok2 {
			_, u1 := a.(kunknown)
			_, u2 := b.(kunknown)
			if !u1 && !u2 {
				return ktok{"(" + showAV(a) + op.String() + showAV(b) + ")"}
			}
		}
	}
	kx, ok1 := a.(kconst)
	ky, ok2 := b.(kconst)
	if ok1 && ok2 && kx.v != nil && ky.v != nil {
		switch op {
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(ky.v)
			if n < 512 {
				return kconst{constant.Shift(kx.v, op, uint(n))}
			}
			return kunknown{}
		case token.QUO, token.REM:
			if constant.Sign(ky.v) == 0 {
				panic(absPanic{sconst("divide by zero")})
			}
			if op == token.QUO && kx.v.Kind() == constant.Int && ky.v.Kind() == constant.Int {
				return kconst{constant.BinaryOp(kx.v, token.QUO_ASSIGN, ky.v)}
			}
		}
		if kx.v.Kind() == ky.v.Kind() {
			return kconst{constant.BinaryOp(kx.v, op, ky.v)}
		}
	}
	return kunknown{}
}

// wrapInt converts an integer constant to an integer type, modulo its size.
func wrapInt(v constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || v.Kind() != constant.Int {
		return v
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	m := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	mask := constant.BinaryOp(m, token.SUB, constant.MakeInt64(1))
	w := constant.BinaryOp(v, token.AND, mask) // two's complement
	if b.Info()&types.IsUnsigned == 0 && constant.Compare(w, token.GEQ, constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)) {
		w = constant.BinaryOp(w, token.SUB, m)
	}
	return w
}

// constStrings folds calls of package strings on constant strings.
func constStrings(f *ssa.Function, args []av) (av, bool) {
	if relTo(f) == "math/bits" && (f.Name() == "Mul" || f.Name() == "Mul64") && len(args) == 2 {
		x, ok := kint(args[0])
		y, ok2 := kint(args[1])
		if !ok || !ok2 || x < 0 || y < 0 {
			return nil, false
		}
		hi, lo := bits.Mul64(uint64(x), uint64(y))
		return ktuple{[]av{kconst{constant.MakeUint64(hi)}, kconst{constant.MakeUint64(lo)}}}, true
	}
	if relTo(f) != "strings" {
		return nil, false
	}
	var s []string
	for _, a := range args {
		k, ok := a.(kconst)
		if !ok || k.v == nil {
			return nil, false
		}
		switch k.v.Kind() {
		case constant.String:
			s = append(s, constant.StringVal(k.v))
		case constant.Int:
			n, _ := constant.Int64Val(k.v)
			s = append(s, string(rune(n)))
		default:
			return nil, false
		}
	}
	switch f.Name() + fmt.Sprint(len(s)) {
	case "Trim2":
		return sconst(strings.Trim(s[0], s[1])), true
	case "TrimLeft2":
		return sconst(strings.TrimLeft(s[0], s[1])), true
	case "TrimRight2":
		return sconst(strings.TrimRight(s[0], s[1])), true
	case "TrimSuffix2":
		return sconst(strings.TrimSuffix(s[0], s[1])), true
	case "TrimPrefix2":
		return sconst(strings.TrimPrefix(s[0], s[1])), true
	case "HasPrefix2":
		return bconst(strings.HasPrefix(s[0], s[1])), true
	case "HasSuffix2":
		return bconst(strings.HasSuffix(s[0], s[1])), true
	case "Contains2", "ContainsRune2", "ContainsAny2":
		if f.Name() == "ContainsAny" {
			return bconst(strings.ContainsAny(s[0], s[1])), true
		}
		return bconst(strings.Contains(s[0], s[1])), true
	case "Index2", "IndexByte2", "IndexRune2":
		return iconst(int64(strings.Index(s[0], s[1]))), true
	case "LastIndex2", "LastIndexByte2":
		return iconst(int64(strings.LastIndex(s[0], s[1]))), true
	}
	return nil, false
}

// constEq: whether two values made of constants are equal.
func constEq(x, y av) (eq, known bool) {
	if kx, ok := x.(kstruct); ok {
		ky, ok := y.(kstruct)
		if !ok || len(kx.f) != len(ky.f) {
			return false, false
		}
		all := true
		for i := range kx.f {
			eq, known := constEq(kx.f[i], ky.f[i])
			if !known {
				return false, false
			}
			all = all && eq
		}
		return all, true
	}
	kx, ok1 := x.(kconst)
	ky, ok2 := y.(kconst)
	if !ok1 || !ok2 || kx.v == nil || ky.v == nil || kx.v.Kind() != ky.v.Kind() {
		return false, false
	}
	return constant.Compare(kx.v, token.EQL, ky.v), true
}

// sliceFuncs: the functions of package slices that look for an element or delete some, on slices whose
// elements are known.
func (in *interp) sliceFuncs(f *ssa.Function, args []av) (av, bool) {
	if relTo(f) != "slices" || len(args) < 2 {
		return nil, false
	}
	sl, ok := args[0].(kslice)
	if k, isNil := args[0].(kconst); isNil && k.v == nil {
		sl, ok = kslice{arr: &obj{}}, true
	}
	if !ok || sl.arr == nil || len(sl.arr.kids) < sl.hi {
		return nil, false
	}
	name := originName(f)
	hit := func(i int) (bool, bool) {
		e := in.load(sl.arr.kids[i])
		if !strings.HasSuffix(name, "Func") {
			return constEq(e, args[1])
		}
		fn, ok := args[1].(kfunc)
		if !ok || fn.fn == nil || fn.fn.Blocks == nil {
			return false, false
		}
		b, ok := in.call(fn.fn, []av{e}, fn.bind).(kconst)
		if !ok || b.v == nil || b.v.Kind() != constant.Bool {
			return false, false
		}
		return constant.BoolVal(b.v), true
	}
	drop := map[int]bool{}
	switch name {
	case "Contains", "Index", "ContainsFunc", "IndexFunc":
		at := -1
		for i := sl.lo; i < sl.hi; i++ {
			h, known := hit(i)
			if !known {
				return nil, false
			}
			if h {
				at = i - sl.lo
				break
			}
		}
		if strings.HasPrefix(name, "Contains") {
			return bconst(at >= 0), true
		}
		return iconst(int64(at)), true
	case "DeleteFunc":
		for i := sl.lo; i < sl.hi; i++ {
			h, known := hit(i)
			if !known {
				return nil, false
			}
			if h {
				drop[i] = true
			}
		}
	case "Delete":
		if len(args) != 3 {
			return nil, false
		}
		i, ok1 := args[1].(kconst)
		j, ok2 := args[2].(kconst)
		if !ok1 || !ok2 || i.v == nil || j.v == nil {
			return nil, false
		}
		lo, _ := constant.Int64Val(i.v)
		hi, _ := constant.Int64Val(j.v)
		if lo < 0 || hi < lo || int(hi) > sl.hi-sl.lo {
			panic(absPanic{sconst("slice bounds out of range")})
		}
		for k := lo; k < hi; k++ {
			drop[sl.lo+int(k)] = true
		}
	default:
		return nil, false
	}
	// In place; what is left over is cleared.
	n := sl.lo
	for i := sl.lo; i < sl.hi; i++ {
		if !drop[i] {
			in.store(sl.arr.kids[n], in.load(sl.arr.kids[i]))
			n++
		}
	}
	at, ok := types.Type(nil), false
	if sl.arr.elem != nil {
		if a, isArr := sl.arr.elem.Underlying().(*types.Array); isArr {
			at, ok = a.Elem(), true
		}
	}
	for i := n; i < sl.hi && ok; i++ {
		in.store(sl.arr.kids[i], in.load(newObj(at)))
	}
	return kslice{sl.arr, sl.lo, n}, true
}

// cloned: slices.Clone of a slice whose elements are known.
func (in *interp) cloned(f *ssa.Function, args []av) (av, bool) {
	if relTo(f) != "slices" || originName(f) != "Clone" || len(args) != 1 {
		return nil, false
	}
	switch s := args[0].(type) {
	case kconst:
		return s, s.v == nil
	case kslice:
		if s.arr == nil || len(s.arr.kids) < s.hi {
			return nil, false
		}
		at, ok := s.arr.elem.Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		o := &obj{elem: s.arr.elem, kids: []*obj{}}
		for i := s.lo; i < s.hi; i++ {
			k := newObj(at.Elem())
			in.store(k, in.load(s.arr.kids[i]))
			o.kids = append(o.kids, k)
		}
		return kslice{o, 0, len(o.kids)}, true
	}
	return nil, false
}
