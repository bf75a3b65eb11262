package main

// Stack frames, symbolically: the variable stack is a sequence of unknown length and capacity, the
// operator has an unknown number of locals. The evaluation of an operator is interpreted up to the
// point where it assigns its arguments, recording which slots hold nothing by then.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// symArr is an array of unknown length; its contents are what the events say.
type symArr struct {
	name  string
	elem  types.Type
	cap   npoly
	evs   []symEv
	slots map[string]*symSlot
	order []string
	zero  bool // newly made
}

// symEv: slots [lo,hi) were set to nil (hi nil: all from lo on), or to something else.
type symEv struct {
	lo, hi npoly
	dirty  bool
}

type symSlot struct {
	idx   npoly
	o     *obj
	first av // what it held before the interpreted code
}

type ksym struct {
	a      *symArr
	lo, hi npoly
}

type frameWorld struct {
	*arithWorld
	names  []string // atoms
	fresh  int
	capOf  bool // remember the capacity of the stack
	max    int  // decisions
	atBody func(c *interp)
}

func (w *frameWorld) atom(name string, lo int64) npoly {
	w.f.ints[name] = true
	w.f.iv[name] = ival{lo: big.NewRat(lo, 1), hi: pow2(40)}
	for _, n := range w.names {
		if n == name {
			return natom(name)
		}
	}
	w.names = append(w.names, name)
	w.f.log = append(w.f.log, ncond{p: natom(name).sub(nint(lo)), op: token.GEQ})
	return natom(name)
}

func (w *frameWorld) less(p npoly, op token.Token) bool { return w.cmp(p, op) }

func (w *frameWorld) numOf(a av, def npoly) (npoly, bool) {
	if a == nil {
		return def, true
	}
	return w.num(a)
}

func (w *frameWorld) assume(p npoly, op token.Token) {
	w.f.log = append(w.f.log, ncond{p: p, op: op})
	w.f.learn(p, op)
}

// grow: the array is reallocated with room for need slots; those from used on hold nothing.
func (w *frameWorld) grow(s ksym, used, need npoly) {
	w.fresh++
	if w.fresh > 3 {
		w.in.abort("unrolled far enough")
	}
	s.a.evs = append(s.a.evs, symEv{lo: used})
	s.a.cap = w.atom(fmt.Sprintf("cap%d", w.fresh), 0)
	w.assume(s.a.cap.sub(need), token.GEQ)
}

func newFrameWorld(p *Prog) *frameWorld {
	aw := &arithWorld{p: p, m: newModel(p), f: newNFacts(), terms: map[*obj]npoly{}, canon: map[*obj]bool{}}
	w := &frameWorld{arithWorld: aw, max: 16}
	in := aw.interp()
	in.max = 20000
	cmp := in.onCmp
	in.onCmp = func(op token.Token, x, y av) (bool, bool) {
		if in.used > w.max {
			in.abort("unrolled far enough")
		}
		isNil := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
		_, s1 := x.(ksym)
		_, s2 := y.(ksym)
		if (s1 && isNil(y) || s2 && isNil(x)) && (op == token.EQL || op == token.NEQ) {
			return op == token.NEQ, true
		}
		return cmp(op, x, y)
	}
	in.onLen = func(x av) (av, bool) {
		if s, ok := x.(ksym); ok {
			return w.av(s.hi.sub(s.lo)), true
		}
		return nil, false
	}
	in.onSlice = func(x, lo, hi av) (av, bool) {
		s, ok := x.(ksym)
		if !ok {
			return nil, false
		}
		l, ok1 := w.numOf(lo, npoly{})
		h, ok2 := w.numOf(hi, s.hi.sub(s.lo))
		if !ok1 || !ok2 {
			in.vague = true
			return kunknown{}, true
		}
		return ksym{s.a, s.lo.add(l), s.lo.add(h)}, true
	}
	in.onMake = func(n, c av, elem types.Type) (av, bool) {
		k, ok1 := w.num(n)
		m, ok2 := w.num(c)
		if !ok1 || !ok2 {
			return nil, false
		}
		_, isC1 := n.(kconst)
		_, isC2 := c.(kconst)
		if isC1 && isC2 {
			return nil, false
		}
		return ksym{&symArr{name: "new", elem: elem, zero: true, cap: m, slots: map[string]*symSlot{}}, npoly{}, k}, true
	}
	in.onIndex = func(x, i av, elem types.Type) (av, bool) {
		s, ok := x.(ksym)
		if !ok {
			return nil, false
		}
		n, ok := w.num(i)
		if !ok {
			in.vague = true
			return nil, false
		}
		return kptr{w.slot(s.a, s.lo.add(n), elem).o}, true
	}
	in.onBuiltin = func(name string, args []av) (av, bool) {
		var s ksym
		ok := false
		if len(args) > 0 {
			s, ok = args[0].(ksym)
		}
		if !ok {
			return nil, false
		}
		switch name {
		case "cap":
			if s.a.cap != nil {
				return w.av(s.a.cap.sub(s.lo)), true
			}
		case "copy":
			t, ok := args[1].(ksym)
			if !ok {
				in.vague = true
				return kunknown{}, true
			}
			n := t.hi.sub(t.lo)
			if d := s.hi.sub(s.lo); w.less(d.sub(n), token.LSS) {
				n = d
			}
			if !t.a.zero || len(t.a.evs) > 0 || len(t.a.slots) > 0 {
				s.a.evs = append(s.a.evs, symEv{s.lo, s.lo.add(n), true})
			} else {
				w.clear(s.a, s.lo, s.lo.add(n))
			}
			return w.av(n), true
		case "clear":
			w.clear(s.a, s.lo, s.hi)
			return kconst{nil}, true
		case "append":
			if len(args) != 2 {
				return s, true
			}
			var n npoly
			zero := false
			switch t := args[1].(type) {
			case ksym:
				n, zero = t.hi.sub(t.lo), t.a.zero && len(t.a.evs) == 0 && len(t.a.slots) == 0
			case kslice:
				n = nint(int64(t.hi - t.lo))
			case kconst:
				n = npoly{}
			default:
				in.vague = true
				return kunknown{}, true
			}
			end := s.hi.add(n)
			if s.a.cap != nil && w.less(end.sub(s.a.cap), token.GTR) {
				w.grow(s, s.hi, end)
			}
			if zero {
				w.clear(s.a, s.hi, end)
			}
			if t, ok := args[1].(kslice); ok {
				for i := t.lo; i < t.hi; i++ {
					in.store(w.slot(s.a, s.hi.add(nint(int64(i-t.lo))), s.a.elem).o, in.load(t.arr.kids[i]))
				}
			}
			return ksym{s.a, s.lo, end}, true
		}
		return nil, false
	}
	base := in.onCall
	in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
		if callee != nil && p.noRet[callee] {
			panic(absPanic{sconst("error")})
		}
		if callee != nil {
			if o := callee.Origin(); o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "slices" && o.Name() == "Grow" && len(args) == 2 {
				if s, ok := args[0].(ksym); ok && s.a.cap != nil {
					if n, ok := w.num(args[1]); ok {
						if w.less(s.hi.add(n).sub(s.a.cap), token.GTR) {
							w.grow(s, s.hi, s.hi.add(n))
						}
						return s, true
					}
				}
			}
			if relPkg(callee) == "config" {
				res := callee.Signature.Results()
				if res.Len() == 1 {
					if _, ok := typeBits(res.At(0).Type()); ok {
						return knum{w.atom("setting "+callee.Name(), 0)}, true
					}
				}
				return kunknown{}, true
			}
		}
		if w.hook != nil {
			if v, ok := w.hook(in, callee, m, args); ok {
				return v, true
			}
		}
		_ = base
		return nil, false
	}
	return w
}

// slot is the abstract cell for one index.
func (w *frameWorld) slot(a *symArr, idx npoly, elem types.Type) *symSlot {
	k := idx.String()
	if s := a.slots[k]; s != nil {
		return s
	}
	o := newObj(elem)
	s := &symSlot{idx: idx, o: o}
	if a.zero || w.cleared(a, idx) {
		// as made
	} else if _, isPtr := elem.Underlying().(*types.Pointer); isPtr {
		if w.in.decide() {
			o.val = ktok{a.name + "[" + k + "]"}
		}
		s.first = o.val
	} else if _, isInt := typeBits(elem); isInt {
		o.val = knum{w.atom(a.name+"["+k+"]", 0)}
	} else {
		in := w.in
		in.store(o, ktok{a.name + "[" + k + "]"})
	}
	s.first = o.val
	a.slots[k] = s
	a.order = append(a.order, k)
	return s
}

func (w *frameWorld) cleared(a *symArr, idx npoly) bool {
	for i, e := range a.evs {
		if e.dirty {
			continue
		}
		later := false
		for _, d := range a.evs[i:] {
			later = later || d.dirty
		}
		if later {
			continue
		}
		lo, ok := w.f.decide(idx.sub(e.lo), token.GEQ)
		if !ok || !lo {
			continue
		}
		if e.hi == nil {
			return true
		}
		if hi, ok := w.f.decide(idx.sub(e.hi), token.LSS); ok && hi {
			return true
		}
	}
	return false
}

func (w *frameWorld) clear(a *symArr, lo, hi npoly) {
	a.evs = append(a.evs, symEv{lo, hi, false})
	for _, s := range a.slots {
		s.o.val = kconst{nil}
	}
}

// uncovered looks for lengths that satisfy the path's conditions and leave a slot of [lo,hi) that may
// hold something.
func (w *frameWorld) uncovered(a *symArr, lo, hi npoly, legal func(get func(string) int64) bool) string {
	names := append([]string(nil), w.names...)
	if len(names) == 0 || len(names) > 8 {
		return ""
	}
	var cands [][]*big.Rat
	for range names {
		var c []*big.Rat
		for i := int64(0); i <= 4; i++ {
			c = append(c, big.NewRat(i, 1))
		}
		cands = append(cands, c)
	}
	at := func(x []*big.Rat) func(string) int64 {
		return func(s string) int64 {
			for i, n := range names {
				if n == s {
					return x[i].Num().Int64()
				}
			}
			return -1
		}
	}
	ival := func(v *valuation, p npoly) (int64, bool) {
		r := v.eval(p)
		if r == nil || !r.IsInt() {
			return 0, false
		}
		return r.Num().Int64(), true
	}
	return w.f.witnessIn(len(w.f.log), names, cands, func(x []*big.Rat) bool { return legal(at(x)) }, func(v *valuation, x []*big.Rat) bool {
		l, ok1 := ival(v, lo)
		h, ok2 := ival(v, hi)
		if !ok1 || !ok2 {
			return false
		}
		for i := l; i < h; i++ {
			cov := a.zero
			for _, e := range a.evs {
				el, ok := ival(v, e.lo)
				if !ok {
					return false
				}
				eh := int64(1 << 40)
				if e.hi != nil {
					if eh, ok = ival(v, e.hi); !ok {
						return false
					}
				}
				if el <= i && i < eh {
					cov = !e.dirty
				}
			}
			for _, s := range a.slots {
				si, ok := ival(v, s.idx)
				if !ok {
					return false
				}
				if k, isC := s.o.val.(kconst); isC && k.v == nil && si == i {
					cov = true
				}
			}
			if !cov {
				return true
			}
		}
		return false
	})
}

// ctxObj makes an execution context with a symbolic stack.
func (w *frameWorld) ctxObj() (co *obj, st, fs *symArr) {
	p := w.p
	n := p.namedType("exec", "Context")
	frames, stack := p.ctxFields()
	if n == nil || frames == nil || stack == nil {
		return nil, nil, nil
	}
	co = newObj(n)
	sl := n.Underlying().(*types.Struct)
	st = &symArr{name: "stack", elem: stack.Type().Underlying().(*types.Slice).Elem(), slots: map[string]*symSlot{}}
	fs = &symArr{name: "frames", elem: frames.Type().Underlying().(*types.Slice).Elem(), slots: map[string]*symSlot{}}
	for i := 0; i < sl.NumFields(); i++ {
		switch sl.Field(i) {
		case stack:
			h := w.atom("n", 0)
			st.cap = w.atom("cap", 0)
			w.assume(st.cap.sub(h), token.GEQ)
			co.kids[i].val = ksym{st, npoly{}, h}
		case frames:
			co.kids[i].val = ksym{fs, npoly{}, w.atom("depth", 0)}
		default:
			w.in.store(co.kids[i], ktok{"c." + sl.Field(i).Name()})
		}
	}
	return
}

func fieldIndex(n *types.Named, v *types.Var) int {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == v {
			return i
		}
	}
	return -1
}

type bodyReached struct{}

// frameFacts is what interpreting the evaluation of an operator shows.
type frameFacts struct {
	body, exit string // a slot that may hold something when the body starts, and after the call
	paths      int
	undecided  string
}

// freshFrames interprets the evaluation of an operator up to the assignment of its arguments and
// reports a way in which a slot of its frame may hold something left over.
func (p *Prog) freshFrames(f *ssa.Function, popClears bool) (ff frameFacts) {
	fnT := p.namedType("exec", "Function")
	ctxT := p.namedType("exec", "Context")
	_, stack := p.ctxFields()
	if fnT == nil || ctxT == nil || stack == nil {
		ff.undecided = "exec.Function not found"
		return
	}
	si := fieldIndex(ctxT, stack)
	var w *frameWorld
	var co *obj
	var st *symArr
	reached := false
	// The frame of an empty stack is the first: the depth and the number of slots go together.
	legal := func(get func(string) int64) bool {
		return (get("n") == 0 || get("depth") > 0) && get("cap") >= get("n")
	}
	var end npoly
	var last *symArr
	for _, o := range explore(p, func() *interp {
		w = newFrameWorld(p)
		reached, end = false, nil
		w.arithWorld.hook = func(in *interp, callee *ssa.Function, m *types.Func, args []av) (av, bool) {
			if callee != nil && relPkg(callee) == "value" {
				for _, a := range args {
					if !isCtxArg(a, co) {
						continue
					}
					if !reached {
						reached = true
						s, ok := co.kids[si].val.(ksym)
						switch {
						case in.vague || !ok:
							ff.undecided = "the stack at the start of the body is not known"
						default:
							end, last = s.hi, s.a
							ff.paths++
							if x := w.uncovered(s.a, natom("n"), s.hi, legal); x != "" && ff.body == "" {
								ff.body = x
							}
						}
					}
					panic(absPanic{bodyReached{}})
				}
			}
			return nil, false
		}
		return w.in
	}, func(in *interp) av {
		co, st, _ = w.ctxObj()
		if popClears {
			st.evs = append(st.evs, symEv{lo: natom("n")})
		}
		fo := newObj(fnT)
		s := fnT.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				in.store(fo.kids[i], ktok{"fn." + s.Field(i).Name()})
				continue
			}
			lo := int64(0)
			if !isString(sl.Elem()) {
				lo = 1
			}
			name := "len(" + s.Field(i).Name() + ")"
			fo.kids[i].val = ksym{&symArr{name: s.Field(i).Name(), elem: sl.Elem(), slots: map[string]*symSlot{}}, npoly{}, w.atom(name, lo)}
		}
		args := []av{kptr{fo}, kiface{types.NewPointer(ctxT), kptr{co}}}
		for i := 2; i < len(f.Params); i++ {
			args = append(args, ktok{f.Params[i].Name()})
		}
		func() {
			defer func() {
				e := recover()
				if e == nil {
					return
				}
				if ap, ok := e.(absPanic); ok {
					if _, ok := ap.v.(bodyReached); ok {
						return
					}
				}
				panic(e)
			}()
			in.call(f, args, nil)
		}()
		if reached && end != nil && ff.exit == "" {
			ff.exit = "the stack was replaced"
			if s, ok := co.kids[si].val.(ksym); ok && s.a == last {
				ff.exit = w.uncovered(s.a, natom("n"), end, legal)
			}
		}
		return nil
	}, 300) {
		if o.aborted != "" && !strings.Contains(o.aborted, "far enough") {
			ff.undecided = o.aborted
		}
	}
	return
}

func isCtxArg(a av, co *obj) bool {
	if k, ok := a.(kiface); ok {
		a = k.v
	}
	q, ok := a.(kptr)
	return ok && q.o == co
}

// callFacts is what interpreting the evaluation of an operator shows about its frame.
type callFacts struct {
	guard, size, inFrame, balance string
	calls, exits                  int
	undecided                     string
}

// callRule interprets the evaluation of an operator in a context of unknown depth. Everything that
// evaluates on its behalf may return or fail.
func (p *Prog) callRule(f *ssa.Function) (cf callFacts) {
	fnT := p.namedType("exec", "Function")
	ctxT := p.namedType("exec", "Context")
	frames, stack := p.ctxFields()
	if fnT == nil || ctxT == nil || stack == nil || frames == nil {
		cf.undecided = "exec.Function not found"
		return
	}
	si, fi := fieldIndex(ctxT, stack), fieldIndex(ctxT, frames)
	var w *frameWorld
	var co *obj
	var st, fs *symArr
	var locals npoly
	set := func(d *string, s string, a ...any) {
		if *d == "" {
			*d = fmt.Sprintf(s, a...)
		}
	}
	n, depth := natom("n"), natom("depth")
	wit := func(bad func(v *valuation) bool) string {
		names := append([]string(nil), w.names...)
		if len(names) > 9 {
			return ""
		}
		var cands [][]*big.Rat
		for range names {
			cands = append(cands, []*big.Rat{new(big.Rat), big.NewRat(1, 1), big.NewRat(2, 1), big.NewRat(3, 1)})
		}
		return w.f.witnessIn(len(w.f.log), names, cands, func(x []*big.Rat) bool {
			var nn, dd *big.Rat
			for i, s := range names {
				switch s {
				case "n":
					nn = x[i]
				case "depth":
					dd = x[i]
				}
			}
			return nn.Sign() == 0 || dd.Sign() > 0
		}, func(v *valuation, _ []*big.Rat) bool { return bad(v) })
	}
	differ := func(a, b npoly) string {
		if w.f.equal(a, b) {
			return ""
		}
		return wit(func(v *valuation) bool {
			x, y := v.eval(a), v.eval(b)
			return x != nil && y != nil && x.Cmp(y) != 0
		})
	}
	for _, o := range explore(p, func() *interp {
		w = newFrameWorld(p)
		w.arithWorld.hook = func(in *interp, callee *ssa.Function, m *types.Func, args []av) (av, bool) {
			if callee == nil || relPkg(callee) != "value" || p.noRet[callee] {
				return nil, false
			}
			uses := false
			for _, a := range args {
				uses = uses || isCtxArg(a, co)
			}
			if !uses {
				return nil, false
			}
			s, ok1 := co.kids[si].val.(ksym)
			fr, ok2 := co.kids[fi].val.(ksym)
			if in.vague || !ok1 || !ok2 {
				cf.undecided = "the stack is not known when the operator's code runs"
				panic(absPanic{bodyReached{}})
			}
			cf.calls++
			what := fname(callee)
			if x := differ(fr.hi.sub(fr.lo), depth.add(nint(1))); x != "" {
				set(&cf.inFrame, "%s runs with %s frames, not one more than %s (%s)", what, fr.hi.sub(fr.lo), depth, x)
			} else {
				sl := w.slot(fr.a, depth, fr.a.elem)
				q, ok := w.num(sl.o.val)
				if !ok {
					cf.undecided = "the size of the frame is not known"
				} else if x := differ(s.hi.sub(q), n); x != "" {
					set(&cf.size, "the frame records %s slots, but the stack went from %s to %s (%s)", q, n, s.hi, x)
				} else if x := differ(q, locals); x != "" {
					set(&cf.size, "the frame of an operator with %s locals has %s slots (%s)", locals, q, x)
				}
				limit := natom("setting MaxStack")
				known := false
				for _, nm := range w.names {
					known = known || nm == "setting MaxStack"
				}
				if !known {
					w.atom("setting MaxStack", 0)
				}
				if x := wit(func(v *valuation) bool {
					d, l := v.eval(depth), v.eval(limit)
					return d != nil && l != nil && d.Cmp(l) >= 0
				}); x != "" {
					set(&cf.guard, "an operator's code runs although the maximum is reached: %s", x)
				}
			}
			if in.decide() {
				panic(absPanic{bodyReached{}})
			}
			if in.decide() {
				return kconst{nil}, true
			}
			return ktok{"result"}, true
		}
		return w.in
	}, func(in *interp) av {
		co, st, fs = w.ctxObj()
		fo := newObj(fnT)
		s := fnT.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				in.store(fo.kids[i], ktok{"fn." + s.Field(i).Name()})
				continue
			}
			lo := int64(0)
			if !isString(sl.Elem()) {
				lo = 1
			}
			a := w.atom("len("+s.Field(i).Name()+")", lo)
			if s.Field(i).Name() == "Locals" {
				locals = a
			}
			fo.kids[i].val = ksym{&symArr{name: s.Field(i).Name(), elem: sl.Elem(), slots: map[string]*symSlot{}}, npoly{}, a}
		}
		args := []av{kptr{fo}, kiface{types.NewPointer(ctxT), kptr{co}}}
		for i := 2; i < len(f.Params); i++ {
			args = append(args, ktok{f.Params[i].Name()})
		}
		how := "returns"
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(absPanic); !ok {
						panic(e)
					}
					how = "fails"
				}
			}()
			in.call(f, args, nil)
		}()
		if in.vague {
			cf.undecided = "a branch on something unknown"
			return nil
		}
		s1, ok1 := co.kids[si].val.(ksym)
		f1, ok2 := co.kids[fi].val.(ksym)
		if !ok1 || !ok2 {
			cf.undecided = "the stack is not known at the end"
			return nil
		}
		cf.exits++
		if x := differ(f1.hi.sub(f1.lo), depth); x != "" {
			set(&cf.balance, "when the operator %s there are %s frames, not %s (%s)", how, f1.hi.sub(f1.lo), depth, x)
		}
		if x := differ(s1.hi.sub(s1.lo), n); x != "" {
			set(&cf.balance, "when the operator %s the stack has %s slots, not %s (%s)", how, s1.hi.sub(s1.lo), n, x)
		}
		if len(s1.lo) != 0 || len(f1.lo) != 0 {
			set(&cf.balance, "when the operator %s the stack no longer starts where it did", how)
		}
		return nil
	}, 600) {
		if o.aborted != "" && !strings.Contains(o.aborted, "far enough") && o.aborted != "too many paths" {
			cf.undecided = o.aborted
		}
	}
	_, _ = st, fs
	if cf.calls == 0 || cf.exits == 0 || locals == nil {
		cf.undecided = orStr(cf.undecided, "the operator's code is not reached")
	}
	return
}

// onlyFrom: every function that changes the stack or the frame list runs only on behalf of the roots.
func (p *Prog) onlyFrom(roots []*ssa.Function, fields ...*types.Var) bool {
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	users := map[types.Object][]*ssa.Function{} // functions taken as values
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok && g.Object() != nil {
						if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().Value == g {
							continue
						}
						users[g.Object()] = append(users[g.Object()], f)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var ok func(f *ssa.Function) bool
	ok = func(f *ssa.Function) bool {
		f = outermost(f)
		if isRoot[f] || seen[f] {
			return true
		}
		seen[f] = true
		n := 0
		for _, c := range p.callers[f] {
			n++
			if !ok(c.Parent()) {
				return false
			}
		}
		if f.Object() != nil {
			if f.Object().Exported() {
				return false
			}
			for _, u := range users[f.Object()] {
				n++
				if !ok(u) {
					return false
				}
			}
		}
		return n > 0
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, isS := in.(*ssa.Store); isS {
					for _, v := range fields {
						if isFieldAddr(s.Addr, v) && !ok(f) {
							if fa := s.Addr.(*ssa.FieldAddr); fa != nil {
								if _, fresh := fa.X.(*ssa.Alloc); fresh {
									continue // of a new context
								}
							}
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// slotRule interprets the lookup of local variable i: the variable returned is the one its slot holds
// (a new one without a value if the slot held none), the slot lies in the topmost frame, and different
// variables have different slots.
func (p *Prog) slotRule(f *ssa.Function) (msg string, paths int, undecided string) {
	vt, vf, _ := p.varFields()
	ctxT := p.namedType("exec", "Context")
	if vt == nil || vf < 0 || ctxT == nil {
		return "", 0, "value.Var not found"
	}
	var w *frameWorld
	var st, fs *symArr
	say := func(s string, a ...any) {
		if msg == "" {
			msg = fmt.Sprintf(s, a...)
		}
	}
	for _, o := range explore(p, func() *interp {
		w = newFrameWorld(p)
		return w.in
	}, func(in *interp) av {
		var co *obj
		co, st, fs = w.ctxObj()
		i := w.atom("i", 1)
		k := w.atom("k", 1)
		n, depth := natom("n"), natom("depth")
		w.assume(k.sub(i), token.GEQ)
		w.assume(n.sub(k), token.GEQ)
		w.assume(depth.sub(nint(1)), token.GEQ)
		// The topmost frame has k slots.
		s := w.slot(fs, depth.sub(nint(1)), fs.elem)
		s.o.val = knum{k}
		ret := in.call(f, []av{kptr{co}, knum{i}}, nil)
		if in.vague {
			undecided = "a branch on something unknown"
			return nil
		}
		paths++
		var at *symSlot
		for _, key := range st.order {
			sl := st.slots[key]
			same := sameAV(sl.o.val, ret)
			if !sameAV(sl.o.val, sl.first) && !same {
				say("looking up a local variable changes slot %s", sl.idx)
			}
			if same {
				at = sl
			}
		}
		if at == nil {
			say("the variable returned is not kept in any slot: what is assigned to it is lost")
			return nil
		}
		if !sameAV(at.first, at.o.val) {
			if k, ok := at.first.(kconst); !ok || k.v != nil {
				say("a variable that has a value is replaced")
			}
			q, ok := at.o.val.(kptr)
			if !ok || q.o == nil || len(q.o.kids) <= vf {
				undecided = "the new variable is not known"
				return nil
			}
			if c, ok := q.o.kids[vf].val.(kconst); !ok || c.v != nil {
				say("a local variable not yet assigned is given the value %s", showAV(q.o.kids[vf].val))
			}
		}
		// where
		c, found := at.idx["i"]
		if !found || c.Cmp(big.NewRat(1, 1)) != 0 && c.Cmp(big.NewRat(-1, 1)) != 0 {
			say("local variable i is looked up in slot %s", at.idx)
			return nil
		}
		names := append([]string(nil), w.names...)
		var cands [][]*big.Rat
		for range names {
			cands = append(cands, []*big.Rat{new(big.Rat), big.NewRat(1, 1), big.NewRat(2, 1), big.NewRat(3, 1)})
		}
		if len(names) > 8 {
			return nil
		}
		x := w.f.witnessIn(len(w.f.log), names, cands, func([]*big.Rat) bool { return true }, func(v *valuation, _ []*big.Rat) bool {
			q, nn, kk := v.eval(at.idx), v.eval(n), v.eval(k)
			return q != nil && (q.Cmp(nn) >= 0 || q.Cmp(new(big.Rat).Sub(nn, kk)) < 0)
		})
		if x != "" {
			say("local variable i is looked up in slot %s, outside the topmost frame with %s", at.idx, x)
		}
		return nil
	}, 100) {
		switch {
		case o.aborted != "":
			undecided = o.aborted
		case o.panicked:
			say("looking up a local variable stops with an error")
		}
	}
	return
}

// slotNumbers interprets the assignment of slots to the variables of an operator, with an unknown
// number of slots already given away.
func (p *Prog) slotNumbers() (f *ssa.Function, msg string, undecided string) {
	fnT := p.namedType("exec", "Function")
	ve := p.namedType("value", "VarExpr")
	be := p.namedType("value", "BinaryExpr")
	vx := p.namedType("value", "VectorExpr")
	if fnT == nil || ve == nil || be == nil || vx == nil {
		return nil, "", "exec.Function or value.VarExpr not found"
	}
	vs := ve.Underlying().(*types.Struct)
	nf, lf := -1, -1
	for i := 0; i < vs.NumFields(); i++ {
		if isString(vs.Field(i).Type()) {
			nf = i
		} else if b, ok := vs.Field(i).Type().(*types.Basic); ok && b.Kind() == types.Int {
			lf = i
		}
	}
	// The function that stores slot numbers and extends the list of locals.
	locals := -1
	fs := fnT.Underlying().(*types.Struct)
	for i := 0; i < fs.NumFields(); i++ {
		if fs.Field(i).Name() == "Locals" {
			locals = i
		}
	}
	if nf < 0 || lf < 0 || locals < 0 {
		return nil, "", "fields not found"
	}
	for _, g := range p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if ok && fa.Field == lf && sameNamed(fa.X.Type(), ve) {
					if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
						continue
					}
					h := outermost(g)
					ps := h.Signature.Params()
					if ps.Len() == 1 && sameNamed(ps.At(0).Type(), fnT) && h.Signature.Recv() == nil {
						f = h
					}
				}
			}
		}
	}
	if f == nil {
		return nil, "", "no function of one operator gives slots to its variables"
	}
	say := func(s string, a ...any) {
		if msg == "" {
			msg = fmt.Sprintf(s, a...)
		}
	}
	var w *frameWorld
	for _, o := range explore(p, func() *interp {
		w = newFrameWorld(p)
		return w.in
	}, func(in *interp) av {
		var exprs []*obj
		mk := func(name string) av {
			o := newObj(ve)
			o.kids[nf].val = sconst(name)
			exprs = append(exprs, o)
			return kiface{types.NewPointer(ve), kptr{o}}
		}
		slice := func(et types.Type, xs ...av) kslice {
			a := &obj{elem: types.NewArray(et, int64(len(xs)))}
			for _, x := range xs {
				k := newObj(et)
				in.store(k, x)
				a.kids = append(a.kids, k)
			}
			return kslice{a, 0, len(xs)}
		}
		et := vx.Underlying().(*types.Slice).Elem()
		assign := func(l, r av) av {
			o := newObj(be)
			s := be.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				switch s.Field(i).Name() {
				case "Op":
					o.kids[i].val = sconst("=")
				case "Left":
					o.kids[i].val = l
				case "Right":
					o.kids[i].val = r
				}
			}
			return kiface{types.NewPointer(be), kptr{o}}
		}
		fo := newObj(fnT)
		n := w.atom("n", 0)
		for i := 0; i < fs.NumFields(); i++ {
			switch fs.Field(i).Name() {
			case "Left":
				fo.kids[i].val = mk("a")
			case "Right":
				fo.kids[i].val = kiface{vx, slice(et, mk("b"), mk("c"))}
			case "Body":
				fo.kids[i].val = slice(et, assign(mk("d"), mk("a")), assign(mk("d"), mk("d")), assign(mk("g"), mk("g")), assign(mk("b"), mk("c")))
			case "Locals":
				fo.kids[i].val = ksym{&symArr{name: "locals", elem: types.Typ[types.String], slots: map[string]*symSlot{}}, npoly{}, n}
			}
		}
		in.call(f, []av{kptr{fo}}, nil)
		if in.vague {
			undecided = "a branch on something unknown"
			return nil
		}
		s, ok := fo.kids[locals].val.(ksym)
		if !ok {
			undecided = "the list of locals is not known"
			return nil
		}
		num := map[string]npoly{}
		for _, e := range exprs {
			name := strings.Trim(showAV(e.kids[nf].val), "\"")
			q, ok := w.num(e.kids[lf].val)
			if !ok {
				undecided = "the slot of a variable is not known"
				return nil
			}
			if old, seen := num[name]; seen && !w.f.equal(old, q) {
				say("one variable has two slots, %s and %s", old, q)
			}
			num[name] = q
		}
		check := func(q npoly, op token.Token, what string, a ...any) {
			if r, ok := w.f.decide(q, op); ok && r {
				say(what, a...)
			}
		}
		for _, v := range []string{"a", "b", "c", "d"} {
			check(num[v], token.LEQ, "a local variable has slot number %s", num[v])
			check(num[v].sub(s.hi), token.GTR, "a local variable has slot number %s of %s", num[v], s.hi)
			check(num[v].sub(n), token.LEQ, "a new local variable has slot number %s when %s were in use", num[v], n)
			for _, u := range []string{"a", "b", "c", "d"} {
				if u < v {
					check(num[v].sub(num[u]), token.EQL, "two local variables share slot %s", num[v])
				}
			}
		}
		check(num["g"], token.NEQ, "a variable read before it is assigned is local")
		return nil
	}, 200) {
		switch {
		case o.aborted != "":
			undecided = o.aborted
		case o.panicked:
			undecided = "stops with an error"
		}
	}
	return
}

// undefinedLocal interprets reading a local variable that holds no value.
func (p *Prog) undefinedLocal(ev *ssa.Function) (msg, undecided string) {
	vt, vf, ef := p.varFields()
	ve := p.namedType("value", "VarExpr")
	if vt == nil || ve == nil || vf < 0 || ef < 0 {
		return "", "value.VarExpr not found"
	}
	vs := ve.Underlying().(*types.Struct)
	var vague bool
	for _, o := range explore(p, func() *interp {
		in := &interp{p: p}
		in.onCmp = tokNotNil
		in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			if callee != nil && p.noRet[callee] {
				panic(absPanic{sconst("error")})
			}
			if m != nil && callee == nil {
				res := m.Type().(*types.Signature).Results()
				if m.Name() == "Local" && res.Len() == 1 {
					o := newObj(vt)
					o.kids[vf].val, o.kids[ef].val = kconst{nil}, kconst{nil}
					return kptr{o}, true
				}
				if m.Name() == "Global" && res.Len() == 1 {
					o := newObj(vt)
					o.kids[vf].val, o.kids[ef].val = ktok{"the global variable's value"}, kconst{nil}
					return kptr{o}, true
				}
			}
			return nil, false
		}
		return in
	}, func(in *interp) av {
		o := newObj(ve)
		for i := 0; i < vs.NumFields(); i++ {
			if isString(vs.Field(i).Type()) {
				o.kids[i].val = sconst("nm")
			} else {
				o.kids[i].val = iconst(1)
			}
		}
		ret := in.call(ev, []av{kptr{o}, ktok{"ctx"}}, nil)
		vague = in.vague
		return ret
	}, 64) {
		switch {
		case o.aborted != "":
			undecided = o.aborted
		case o.panicked:
		case vague:
			undecided = "a branch on something unknown"
		default:
			msg = "reading a local variable that has no value yields " + showAV(o.ret)
		}
	}
	return
}
