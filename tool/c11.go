package main

// C11: floating-point results are computed at the configured precision. An abstract
// interpretation of math/big's rules for the precision of a destination: each big.Float a
// function handles has a set of possible precisions (the session's, none yet, an operand's,
// a constant table's, a fixed number of bits), which the operations change as math/big
// documents, and a mark when an operation rounded its value to something narrower than the
// session's. A marked number must not become a value of the language.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

const (
	pConf    = 1 << iota // the session's precision, or more
	pUnset               // none yet: the first operation decides
	pOperand             // whatever an operand has
	pTable               // a constant with all its digits
	pFixed               // a fixed number of bits
)

type pstate struct {
	cls int
	k   int    // smallest fixed precision
	bad string // how the value lost precision
	at  token.Pos
}

func (a pstate) join(b pstate) pstate {
	r := a
	if b.cls&pFixed != 0 && (a.cls&pFixed == 0 || b.k < a.k) {
		r.k = b.k
	}
	r.cls |= b.cls
	if r.bad == "" {
		r.bad, r.at = b.bad, b.at
	}
	return r
}

// pref: an object a value may refer to.
type pref = ssa.Value

type penv map[pref]pstate

type psummary struct {
	results []presult // per result
	exit    []pstate  // state of each parameter's number on return
	touched []bool
}

type presult struct {
	params map[int]bool // aliases of parameters
	state  pstate
	fresh  bool
}

type precision struct {
	p       *Prog
	r       *Report
	memo    map[string]*psummary
	busy    map[string]bool
	ctxs    map[*ssa.Function]int
	mem     map[any]pstate
	changed bool
	wraps   map[string]*pwrap
	inits   *isolation
	minBits int
	ops     map[token.Pos]bool
	ran     map[string]int
	round   int
	diffs   map[*types.Var]bool
}

type pwrap struct {
	fn   *ssa.Function
	what string
	pos  token.Pos
	bad  string
	at   token.Pos
}

func bigName(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" {
			switch n.Obj().Name() {
			case "Float", "Int", "Rat":
				return n.Obj().Name()
			}
		}
	}
	return ""
}

// carrier: the type holds one big number, or may (an interface value).
func (z *precision) carrier(t types.Type) bool {
	if bigName(t) != "" {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/value" {
		switch n.Obj().Name() {
		case "BigFloat", "BigInt", "BigRat", "Value":
			return true
		}
	}
	return false
}

// wrapType: a struct of package value that embeds one big number.
func wrapType(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/value" {
		switch n.Obj().Name() {
		case "BigFloat", "BigInt", "BigRat":
			return n.Obj().Name()
		}
	}
	return ""
}

func bigMethod(f *ssa.Function) (typ, name string) {
	if f == nil {
		return "", ""
	}
	o, ok := f.Object().(*types.Func)
	if !ok || o.Pkg() == nil || o.Pkg().Path() != "math/big" {
		return "", ""
	}
	s := o.Type().(*types.Signature)
	if s.Recv() == nil {
		return "func", o.Name()
	}
	return bigName(s.Recv().Type()), o.Name()
}

// frame: one function under analysis in one context.
type pframe struct {
	z   *precision
	f   *ssa.Function
	cur penv
	// objects made by calls: aliases found while running
	alias map[ssa.Value]map[pref]bool
	res   []presult
	exit  []pstate
	depth int
}

// objs: the objects v may denote.
func (fr *pframe) objs(v ssa.Value) map[pref]bool {
	out := map[pref]bool{}
	fr.collect(v, out, map[ssa.Value]bool{})
	return out
}

func (fr *pframe) collect(v ssa.Value, out map[pref]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if g := fr.z.p.cfg(fr.f); g != nil && !g.edgeLive(x.Block().Preds[i], x.Block()) {
				continue
			}
			fr.collect(e, out, seen)
		}
	case *ssa.MakeInterface:
		if fr.z.carrier(x.X.Type()) { // no other kind holds one number that is big
			fr.collect(x.X, out, seen)
		}
	case *ssa.ChangeInterface:
		fr.collect(x.X, out, seen)
	case *ssa.ChangeType:
		fr.collect(x.X, out, seen)
	case *ssa.TypeAssert:
		fr.collect(x.X, out, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if a := fr.alias[x]; a != nil {
				for o := range a {
					out[o] = true
				}
				return
			}
			_ = c
			out[x] = true
			return
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			fr.collect(ta.X, out, seen)
			return
		}
		out[x] = true
	case *ssa.Call:
		if a := fr.alias[x]; a != nil {
			for o := range a {
				out[o] = true
			}
			return
		}
		out[x] = true
	case *ssa.Field:
		if wrapType(x.X.Type()) != "" {
			fr.collect(x.X, out, seen)
			return
		}
		out[x] = true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			out[x] = true
			return
		}
		a := x.X
		// The number inside a struct held in a local variable.
		if fa, ok := a.(*ssa.FieldAddr); ok && wrapType(fa.X.Type()) != "" {
			a = fa.X
		}
		if al, ok := a.(*ssa.Alloc); ok && !addrEscapes(al) {
			n := 0
			for _, st := range storesInto(al) {
				fr.collect(st.Val, out, seen)
				n++
			}
			if n > 0 {
				return
			}
		}
		out[x] = true
	default:
		out[v] = true
	}
}

// storesInto: stores to a local variable, or to the number inside it.
func storesInto(al *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == ssa.Value(al) {
				out = append(out, u)
			}
		case *ssa.FieldAddr:
			for _, w := range *u.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(u) {
					out = append(out, st)
				}
			}
		}
	}
	return out
}

// escapes: the variable's address goes anywhere but loads and stores.
func addrEscapes(al *ssa.Alloc) bool {
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if u.Val == v {
					return true
				}
			case *ssa.FieldAddr:
				if walk(u) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return walk(al)
}

// memKey: what a load reads, for the flow-insensitive memory.
func (fr *pframe) memKey(a ssa.Value, d int) any {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		if wrapType(x.X.Type()) != "" {
			return nil // a number inside a value: an operand
		}
		if v := fieldVar(x.X.Type(), x.Field); v != nil {
			return v
		}
	case *ssa.IndexAddr:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if bigName(t) == "" {
			return nil
		}
		top := fr.f
		for top.Parent() != nil {
			top = top.Parent()
		}
		return "elem of " + fname(top)
	case *ssa.Global:
		return x
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		if d > 4 {
			return nil
		}
		f := x.Parent()
		idx := -1
		for i, v := range f.FreeVars {
			if v == x {
				idx = i
			}
		}
		if f.Parent() == nil || idx < 0 {
			return nil
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					return fr.memKey(mc.Bindings[idx], d+1)
				}
			}
		}
	}
	return nil
}

func (fr *pframe) get(o pref) pstate {
	if s, ok := fr.cur[o]; ok {
		return s
	}
	s := fr.initial(o)
	fr.cur[o] = s
	return s
}

// initial: the state of an object the function did not make.
func (fr *pframe) initial(o pref) pstate {
	switch x := o.(type) {
	case *ssa.Alloc:
		if bigName(x.Type()) == "Float" {
			if inList(x) {
				return pstate{cls: pConf} // reached through a list as well: not followed
			}
			return pstate{cls: pUnset}
		}
		return pstate{cls: pOperand}
	case *ssa.UnOp:
		if k := fr.memKey(x.X, 0); k != nil && bigName(x.Type()) != "" {
			return fr.z.mem[k]
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		// A big.Float held by value in a struct or array.
		if bigName(o.Type()) == "Float" {
			if k := fr.memKey(o.(ssa.Value), 0); k != nil {
				s := fr.z.mem[k]
				if s.cls == 0 {
					s.cls = pUnset
				}
				return s
			}
		}
	case *ssa.Call:
		return pstate{} // not made yet
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Call); ok {
			return pstate{}
		}
	case *ssa.Global:
		s := fr.z.mem[x]
		if s.cls == 0 {
			s.cls = pUnset
		}
		return s
	}
	return noFloat(o, pstate{cls: pOperand})
}

// inList: the variable's address is put in a slice or an array.
func inList(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Val == ssa.Value(a) {
			if _, ok := st.Addr.(*ssa.IndexAddr); ok {
				return true
			}
		}
	}
	return false
}

// noFloat: integers and rationals have no precision.
func noFloat(v ssa.Value, s pstate) pstate {
	switch {
	case bigName(v.Type()) == "Int", bigName(v.Type()) == "Rat", wrapType(v.Type()) == "BigInt", wrapType(v.Type()) == "BigRat":
		s.cls, s.k = 0, 0
	}
	return s
}

func (fr *pframe) state(v ssa.Value) pstate {
	var s pstate
	for o := range fr.objs(v) {
		s = s.join(fr.get(o))
	}
	return s
}

func (fr *pframe) set(v ssa.Value, s pstate) {
	os := fr.objs(v)
	for o := range os {
		n := s
		if len(os) > 1 {
			n = fr.get(o).join(s)
		}
		fr.cur[o] = n
		// The number is in memory: what it became is what a later load finds.
		var k any
		switch x := o.(type) {
		case *ssa.UnOp:
			k = fr.memKey(x.X, 0)
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			k = fr.memKey(o, 0)
		}
		if k != nil {
			fr.z.store(k, n)
		}
	}
}

func (z *precision) store(k any, s pstate) {
	old := z.mem[k]
	n := old.join(s)
	if n != old {
		z.mem[k] = n
		z.changed = true
	}
}

// precArg: the precision an argument of SetPrec stands for.
func (fr *pframe) precArg(v ssa.Value, d int) pstate {
	p := fr.z.p
	if d > 12 {
		return pstate{cls: pOperand}
	}
	switch x := v.(type) {
	case *ssa.Const:
		k := int(x.Int64())
		if k == 0 {
			return pstate{cls: pUnset}
		}
		if k >= fr.z.minBits {
			return pstate{cls: pTable}
		}
		return pstate{cls: pFixed, k: k}
	case *ssa.Convert:
		return fr.precArg(x.X, d+1)
	case *ssa.ChangeType:
		return fr.precArg(x.X, d+1)
	case *ssa.Phi:
		var s pstate
		for i, e := range x.Edges {
			if e == ssa.Value(x) || !p.cfg(fr.f).edgeLive(x.Block().Preds[i], x.Block()) {
				continue
			}
			s = s.join(fr.precArg(e, d+4))
		}
		return s
	case *ssa.BinOp:
		a, b := fr.precArg(x.X, d+1), fr.precArg(x.Y, d+1)
		up := func(s pstate, o ssa.Value, min int64) bool {
			c, ok := o.(*ssa.Const)
			return s.cls&^(pConf|pTable) == 0 && ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() >= min
		}
		switch x.Op {
		case token.ADD:
			if up(a, x.Y, 0) {
				return a
			}
			if up(b, x.X, 0) {
				return b
			}
			if a.cls&^(pConf|pTable) == 0 && b.cls&^(pConf|pTable) == 0 {
				return a.join(b)
			}
		case token.MUL:
			if up(a, x.Y, 1) {
				return a
			}
			if up(b, x.X, 1) {
				return b
			}
		}
		return pstate{cls: pFixed, k: 1}
	case *ssa.Parameter:
		var s pstate
		ok := p.eachArg(x, func(a ssa.Value) {
			sub := &pframe{z: fr.z, f: valueParent(a, fr.f), cur: penv{}, alias: map[ssa.Value]map[pref]bool{}}
			s = s.join(sub.precArg(a, d+3))
		})
		if ok {
			return s
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil {
					if fv == fr.z.precField() {
						return pstate{cls: pConf}
					}
					var s pstate
					vals := p.fieldStores(fv)
					for _, a := range vals {
						sub := &pframe{z: fr.z, f: valueParent(a, fr.f), cur: penv{}, alias: map[ssa.Value]map[pref]bool{}}
						s = s.join(sub.precArg(a, d+3))
					}
					if len(vals) > 0 {
						return s
					}
				}
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				var s pstate
				n := 0
				for _, st := range storesInto(al) {
					s = s.join(fr.precArg(st.Val, d+3))
					n++
				}
				if n > 0 {
					return s
				}
			}
		}
	case *ssa.Call:
		callee := x.Call.StaticCallee()
		if t, n := bigMethod(callee); t == "Float" && n == "Prec" {
			s := fr.state(x.Call.Args[0])
			return pstate{cls: s.cls, k: s.k}
		}
		if fr.z.isPrec(callee) {
			if o := otherConfig(x.Call.Args[0]); o {
				return pstate{cls: pFixed, k: 1}
			}
			return pstate{cls: pConf}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "max" {
			var any bool
			var s pstate
			for _, a := range x.Call.Args {
				t := fr.precArg(a, d+1)
				s = s.join(t)
				if t.cls&^(pConf|pTable) == 0 {
					any = true
				}
			}
			if any {
				return pstate{cls: pConf}
			}
			return s
		}
		if callee != nil && p.inModule(callee) && callee.Blocks != nil {
			var s pstate
			for _, rt := range p.returns(callee) {
				sub := &pframe{z: fr.z, f: callee, cur: penv{}, alias: map[ssa.Value]map[pref]bool{}}
				s = s.join(sub.precArg(rt.Results[0], d+3))
			}
			return s
		}
	}
	return pstate{cls: pOperand}
}

func valueParent(v ssa.Value, f *ssa.Function) *ssa.Function {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Parent()
	}
	if q, ok := v.(*ssa.Parameter); ok {
		return q.Parent()
	}
	return f
}

// otherConfig: the configuration is not the session's but one of the package's own.
func otherConfig(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Global, *ssa.Alloc:
			return true
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
	return false
}

func (z *precision) precField() *types.Var {
	f := z.p.method("config", "Config", "FloatPrec")
	if f == nil {
		return nil
	}
	for _, rt := range z.p.returns(f) {
		if u, ok := rt.Results[0].(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fieldVar(fa.X.Type(), fa.Field)
			}
		}
	}
	return nil
}

func (z *precision) isPrec(f *ssa.Function) bool {
	return f != nil && f == z.p.method("config", "Config", "FloatPrec")
}

// narrow: a float64 that holds only an approximation of the number it was made from.
func (fr *pframe) narrow(v ssa.Value, d int) string {
	if d > 12 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		f, _ := constant.Float64Val(x.Value)
		if m := math.Float64bits(f) & (1<<52 - 1); m&(1<<12-1) != 0 {
			return fmt.Sprintf("the float64 constant %v, which only approximates the number written", f)
		}
	case *ssa.Convert:
		t := x.X.Type().Underlying().(*types.Basic)
		to := x.Type().Underlying().(*types.Basic)
		if to.Kind() == types.Float32 {
			return "a float32"
		}
		if t.Info()&types.IsFloat != 0 {
			return fr.narrow(x.X, d+1)
		}
		// An Int has 32 bits or fewer, and fits.
		src := x.X
		for i := 0; i < 4; i++ {
			if c, ok := src.(*ssa.Convert); ok {
				src = c.X
				continue
			}
			if c, ok := src.(*ssa.ChangeType); ok {
				src = c.X
				continue
			}
			break
		}
		if n, ok := src.Type().(*types.Named); ok && n.Obj().Name() == "Int" {
			return ""
		}
		if b, ok := src.Type().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
				return ""
			}
		}
		if fr.measured(src, 0) {
			return ""
		}
		if _, ok := src.(*ssa.Const); ok {
			return ""
		}
		if c, ok := src.(*ssa.Call); ok {
			if t, _ := bigMethod(c.Call.StaticCallee()); t != "" && t != "func" {
				return "a number of more bits than a float64 holds"
			}
		}
	case *ssa.ChangeType:
		return fr.narrow(x.X, d+1)
	case *ssa.BinOp:
		if fr.measured(x, 0) {
			return ""
		}
		return "float64 arithmetic"
	case *ssa.Call:
		if fr.measured(x, 0) {
			return ""
		}
		callee := x.Call.StaticCallee()
		if t, n := bigMethod(callee); t == "Float" || t == "Rat" || t == "Int" {
			return "the float64 that " + t + "." + n + " returns"
		}
		if callee != nil && callee.Object() != nil && callee.Object().Pkg() != nil && callee.Object().Pkg().Path() == "math" {
			return "the float64 function math." + callee.Name()
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if t, n := bigMethod(c.Call.StaticCallee()); (t == "Float" || t == "Rat" || t == "Int") && x.Index == 0 {
				return "the float64 that " + t + "." + n + " returns"
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := fr.narrow(e, d+3); s != "" {
				return s
			}
		}
	case *ssa.Parameter:
		s := ""
		fr.z.p.eachArg(x, func(a ssa.Value) {
			sub := &pframe{z: fr.z, f: valueParent(a, fr.f)}
			if t := sub.narrow(a, d+3); t != "" {
				s = t
			}
		})
		return s
	}
	return ""
}

// measured: the number comes from a clock, not from a value of the language.
func (fr *pframe) measured(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		return fr.measured(x.X, d+1) && fr.measured(x.Y, d+1)
	case *ssa.Convert:
		return fr.measured(x.X, d+1)
	case *ssa.ChangeType:
		return fr.measured(x.X, d+1)
	case *ssa.Extract:
		return fr.measured(x.Tuple, d+1)
	case *ssa.Call:
		if callee := x.Call.StaticCallee(); callee != nil && callee.Object() != nil && callee.Object().Pkg() != nil {
			return callee.Object().Pkg().Path() == "time"
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fr.measured(e, d+3) {
				return false
			}
		}
		return true
	}
	if n, ok := v.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return true
	}
	return false
}

// big applies a math/big call to the state; args includes the receiver.
func (fr *pframe) big(c ssa.Value, typ, name string, args []ssa.Value, pos token.Pos, lit bool) {
	z := fr.z
	isNum := func(v ssa.Value) bool { return bigName(v.Type()) != "" }
	mark := func(s pstate, format string, a ...any) pstate {
		if s.bad == "" {
			s.bad, s.at = fmt.Sprintf(format, a...), pos
		}
		return s
	}
	if typ == "func" {
		switch name {
		case "NewFloat":
			s := pstate{cls: pFixed, k: 53}
			if n := fr.narrow(args[0], 0); n != "" {
				s = mark(s, "NewFloat is given %s", n)
			}
			fr.cur[c] = s
		default:
			if c != nil && isNum(c) {
				fr.cur[c] = noFloat(c, pstate{cls: pOperand})
			}
		}
		return
	}
	result := func() {
		if c != nil && isNum(c) && len(args) > 0 && types.Identical(c.Type(), args[0].Type()) {
			fr.alias[c] = fr.objs(args[0])
		}
	}
	if typ != "Float" {
		// Integers and rationals are exact; a mark goes from the operands to the receiver.
		if c == nil {
			return
		}
		switch name {
		case "Cmp", "Sign", "IsInt64", "BitLen", "CmpAbs", "IsInt", "Int64", "Uint64", "String", "Text", "Num", "Denom", "Float64", "Float32":
			if isNum(c) {
				fr.cur[c] = fr.state(args[0])
			}
			return
		}
		var s pstate
		for _, a := range args[1:] {
			if isNum(a) {
				t := fr.state(a)
				if s.bad == "" {
					s.bad, s.at = t.bad, t.at
				}
			}
		}
		if len(args) > 0 && isNum(args[0]) {
			fr.set(args[0], s)
		}
		result()
		return
	}
	recv := fr.state(args[0])
	dest := func(exactUnset bool, what string) {
		if z.ops != nil {
			z.ops[pos] = true
		}
		var s pstate
		sure := false // an operand surely has the session's precision
		same := len(args) > 1
		var opCls pstate
		floats := false
		for _, a := range args[1:] {
			if !isNum(a) {
				continue
			}
			t := fr.state(a)
			if s.bad == "" {
				s.bad, s.at = t.bad, t.at
			}
			if bigName(a.Type()) == "Float" {
				if t.cls != 0 && t.cls&^(pConf|pTable) == 0 {
					sure = true
				}
				opCls = opCls.join(pstate{cls: t.cls, k: t.k})
				floats = true
				if !sameObjs(fr.objs(a), fr.objs(args[0])) {
					same = false
				}
			} else {
				same = false
			}
		}
		copyOp := name == "Set" || name == "Neg" || name == "Abs"
		s.cls |= recv.cls & (pConf | pTable)
		if recv.cls&pUnset != 0 {
			switch {
			case copyOp:
				s = s.join(opCls)
			case exactUnset:
				s = s.join(pstate{cls: pFixed, k: 64})
			case sure:
				s.cls |= opCls.cls & (pConf | pTable)
			case floats && opCls.cls == 0: // not known yet
			case floats:
				s = s.join(opCls)
				s = mark(s, "%s rounds to the precision of its operands, not to the configured one: its result has no precision set", what)
			default:
				s = s.join(pstate{cls: pFixed, k: 64})
				s = mark(s, "%s rounds to 64 bits or so, not to the configured precision: its result has no precision set", what)
			}
		}
		if recv.cls&pOperand != 0 {
			s.cls |= pOperand
			if !(copyOp && same) {
				s = mark(s, "%s rounds to the precision that an operand happens to have", what)
			}
		}
		if recv.cls&pFixed != 0 {
			s = s.join(pstate{cls: pFixed, k: recv.k})
			ok := copyOp && same
			switch name {
			case "SetInt64", "SetUint64", "SetFloat64":
				ok = recv.k >= 64 || lit && recv.k >= 32
				if name == "SetFloat64" && recv.k >= 53 {
					ok = true
				}
			}
			if !ok {
				if recv.k == 1 {
					s = mark(s, "%s rounds to a precision that is not the configured one", what)
				} else {
					s = mark(s, "%s rounds to %d bits whatever precision is configured", what, recv.k)
				}
			}
		}
		if name == "SetFloat64" {
			if n := fr.narrow(args[1], 0); n != "" {
				s = mark(s, "SetFloat64 is given %s", n)
			}
		}
		fr.set(args[0], s)
		result()
	}
	switch name {
	case "SetPrec":
		s := fr.precArg(args[1], 0)
		s.bad, s.at = recv.bad, recv.at
		fr.set(args[0], s)
		result()
	case "SetMode":
		result()
	case "SetInf":
		result()
	case "Copy", "SetMantExp":
		fr.set(args[0], fr.state(args[1]))
		result()
	case "MantExp":
		if k, ok := args[1].(*ssa.Const); !ok || !k.IsNil() {
			fr.set(args[1], recv)
		}
	case "Int", "Rat":
		if k, ok := args[1].(*ssa.Const); !ok || !k.IsNil() {
			fr.set(args[1], pstate{bad: recv.bad, at: recv.at})
		}
		if c != nil && c.Referrers() != nil {
			for _, u := range *c.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
					if k, ok := args[1].(*ssa.Const); ok && k.IsNil() {
						fr.cur[e] = pstate{bad: recv.bad, at: recv.at}
					} else {
						fr.alias[e] = fr.objs(args[1])
					}
				}
			}
		}
	case "SetInt64", "SetUint64", "SetFloat64", "SetInt":
		dest(true, "Float."+name)
	case "Set", "Neg", "Abs", "Add", "Sub", "Mul", "Quo", "Sqrt", "SetRat":
		dest(false, "Float."+name)
	case "SetString", "Parse", "Scan", "UnmarshalText", "GobDecode":
		dest(false, "Float."+name)
		if c != nil && c.Referrers() != nil {
			for _, u := range *c.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index == 0 && bigName(e.Type()) == "Float" {
					fr.alias[e] = fr.objs(args[0])
				}
			}
		}
	}
}

func sameObjs(a, b map[pref]bool) bool {
	if len(a) != 1 || len(b) != 1 {
		return false
	}
	for o := range a {
		return b[o]
	}
	return false
}

// call applies a call of the module's own functions.
func (fr *pframe) call(c ssa.CallInstruction) {
	z, p := fr.z, fr.z.p
	cc := c.Common()
	cv, _ := c.(*ssa.Call)
	var val ssa.Value
	if cv != nil {
		val = cv
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	cs := p.callees(c)
	if fns, a := p.constOp(c); fns != nil {
		cs, args = fns, a
	}
	if cc.IsInvoke() {
		// Only the methods of the kinds the receiver can have.
		ts := map[string]bool{}
		if z.kinds(cc.Value, ts, map[ssa.Value]bool{}, 0) && len(ts) > 0 {
			var keep []*ssa.Function
			for _, f := range cs {
				if rv := f.Signature.Recv(); rv == nil || ts[rv.Type().String()] {
					keep = append(keep, f)
				}
			}
			if len(keep) > 0 {
				cs = keep
			}
		}
	}
	type rr struct {
		sum  *psummary
		args []ssa.Value
	}
	var sums []rr
	known := len(cs) > 0
	for _, callee := range cs {
		if typ, name := bigMethod(callee); typ != "" {
			lit := len(args) == 2
			if lit {
				_, lit = args[1].(*ssa.Const)
			}
			if len(cs) == 1 {
				fr.big(val, typ, name, args, c.Pos(), lit)
				return
			}
			// One of several: apply, and join with what the others do.
			if typ == "Float" && val != nil && len(args) > 0 {
				save := fr.state(args[0])
				fr.big(val, typ, name, args, c.Pos(), lit)
				after := fr.state(args[0])
				fr.set(args[0], save.join(after))
				if callee != cs[len(cs)-1] {
					// The next alternative starts from the state before the call.
					if save.cls&pUnset == 0 || after.cls&pUnset != 0 {
						fr.set(args[0], save.join(pstate{bad: after.bad, at: after.at}))
					}
				}
			}
			continue
		}
		if callee.Blocks == nil || len(callee.Params) != len(args) && len(callee.Params) > len(args) {
			known = false
			continue
		}
		var st []pstate
		for i := range callee.Params {
			if z.carrier(callee.Params[i].Type()) {
				st = append(st, noFloat(callee.Params[i], fr.state(args[i])))
			} else {
				st = append(st, pstate{})
			}
		}
		if s := z.run(callee, st, fr.depth+1); s != nil {
			sums = append(sums, rr{s, args})
		} else {
			known = false
		}
	}
	// Effects on the arguments.
	for i, a := range args {
		if bigName(a.Type()) != "Float" {
			continue
		}
		var s pstate
		hit := false
		for _, r := range sums {
			if i < len(r.sum.touched) && r.sum.touched[i] {
				s = s.join(r.sum.exit[i])
				hit = true
			} else {
				s = s.join(fr.state(a))
			}
		}
		if hit {
			fr.set(a, s)
		}
	}
	if val == nil {
		return
	}
	bind := func(v ssa.Value, idx int) {
		if !z.carrier(v.Type()) {
			return
		}
		al := fr.alias[v]
		if al == nil {
			al = map[pref]bool{}
		}
		var s pstate
		fresh := !known || len(sums) == 0
		if fresh {
			s = noFloat(v, pstate{cls: pOperand})
		}
		if typ := len(sums) == 0 && known; typ {
			return // handled as math/big calls
		}
		for _, r := range sums {
			if idx >= len(r.sum.results) {
				continue
			}
			q := r.sum.results[idx]
			for i := range q.params {
				for o := range fr.objs(args[i]) {
					al[o] = true
				}
			}
			if q.fresh {
				s = s.join(q.state)
				fresh = true
			}
		}
		if fresh {
			al[v] = true
			fr.cur[v] = s
		}
		fr.alias[v] = al
	}
	if t, ok := val.Type().(*types.Tuple); ok {
		_ = t
		for _, u := range *val.Referrers() {
			if e, ok := u.(*ssa.Extract); ok {
				bind(e, e.Index)
			}
		}
		return
	}
	bind(val, 0)
}

// kinds: the concrete types an interface value can have. False if they are not all known.
func (z *precision) kinds(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if d > 30 {
		return false
	}
	p := z.p
	switch x := v.(type) {
	case *ssa.MakeInterface:
		out[x.X.Type().String()] = true
		return true
	case *ssa.ChangeInterface:
		return z.kinds(x.X, out, seen, d+1)
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !z.kinds(e, out, seen, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		if !ok || x.Op != token.MUL {
			return false
		}
		sts := p.storesToGlobal(g)
		for _, st := range sts {
			if !z.kinds(st.Val, out, seen, d+1) {
				return false
			}
		}
		return len(sts) > 0
	case *ssa.Call:
		cs := p.callees(x)
		if fns, _ := p.constOp(x); fns != nil {
			cs = fns
		} else if x.Call.StaticCallee() == nil {
			return false
		}
		for _, f := range cs {
			if f.Blocks == nil || f.Signature.Results().Len() != 1 {
				return false
			}
			for _, rt := range p.returns(f) {
				if !z.kinds(rt.Results[0], out, seen, d+1) {
					return false
				}
			}
		}
		return len(cs) > 0
	}
	return false
}

func (fr *pframe) wrap(what string, pos token.Pos, s pstate) {
	k := fmt.Sprintf("%s|%d", fname(fr.f), pos)
	w := fr.z.wraps[k]
	if w == nil {
		w = &pwrap{fn: fr.f, what: what, pos: pos}
		fr.z.wraps[k] = w
	}
	if w.bad == "" && s.bad != "" {
		w.bad, w.at = s.bad, s.at
	}
}

func (fr *pframe) instr(in ssa.Instruction) {
	z := fr.z
	switch x := in.(type) {
	case *ssa.Alloc:
		if bigName(x.Type()) == "Float" {
			fr.cur[x] = fr.initial(x)
		}
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && wrapType(fa.X.Type()) != "" {
			fr.wrap(wrapType(fa.X.Type()), x.Pos(), fr.state(x.Val))
			for o := range fr.objs(x.Val) { // reported here, and not again wherever the value goes
				s := fr.get(o)
				s.bad, s.at = "", token.NoPos
				fr.cur[o] = s
			}
			return
		}
		if z.carrier(x.Val.Type()) && bigName(x.Val.Type()) != "" {
			if al, ok := x.Addr.(*ssa.Alloc); ok && !addrEscapes(al) {
				return // its loads are resolved to what was stored
			}
			if k := fr.memKey(x.Addr, 0); k != nil {
				s := fr.state(x.Val)
				if _, ok := x.Addr.(*ssa.Global); ok && z.inits.initOnly(fr.f) && s.cls == pUnset {
					return
				}
				z.store(k, s)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && z.carrier(x.Type()) {
			if o := fr.objs(x); len(o) == 1 && o[x] {
				fr.cur[x] = fr.initial(x)
			}
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Defer); ok {
			return
		}
		fr.call(x)
	case *ssa.Return:
		for i, v := range x.Results {
			if i >= len(fr.res) || !z.carrier(v.Type()) {
				continue
			}
			for o := range fr.objs(v) {
				if q, ok := o.(*ssa.Parameter); ok {
					for j, prm := range fr.f.Params {
						if prm == q {
							fr.res[i].params[j] = true
						}
					}
					continue
				}
				if k, ok := o.(*ssa.Const); ok && k.IsNil() {
					continue
				}
				fr.res[i].fresh = true
				fr.res[i].state = fr.res[i].state.join(fr.get(o))
			}
		}
		for j, q := range fr.f.Params {
			if bigName(q.Type()) == "Float" {
				fr.exit[j] = fr.exit[j].join(fr.get(q))
			}
		}
	}
}

func (z *precision) run(f *ssa.Function, args []pstate, depth int) *psummary {
	if depth > 300 {
		return nil
	}
	key := f.String()
	for i, a := range args {
		if z.carrier(f.Params[i].Type()) {
			key += fmt.Sprintf("|%d:%d,%d,%v", i, a.cls, a.k, a.bad)
		}
	}
	if z.busy[key] {
		if s := z.memo[key]; s != nil {
			return s
		}
		return &psummary{results: make([]presult, f.Signature.Results().Len())}
	}
	if s := z.memo[key]; s != nil && z.ran[key] == z.round {
		return s
	}
	if z.memo[key] == nil {
		z.ctxs[f]++
		if z.ctxs[f] > 60 {
			return nil
		}
	}
	z.busy[key] = true
	defer delete(z.busy, key)
	fr := &pframe{z: z, f: f, depth: depth, alias: map[ssa.Value]map[pref]bool{}}
	fr.exit = make([]pstate, len(f.Params))
	for i := 0; i < f.Signature.Results().Len(); i++ {
		fr.res = append(fr.res, presult{params: map[int]bool{}})
	}
	entry := penv{}
	for i, q := range f.Params {
		if z.carrier(q.Type()) {
			entry[q] = args[i]
		}
	}
	g := z.p.cfg(f)
	ins := make([]penv, len(f.Blocks))
	ins[0] = entry
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for n := 0; len(work) > 0 && n < 2000; n++ {
		b := work[0]
		work = work[1:]
		fr.cur = penv{}
		for o, s := range ins[b.Index] {
			fr.cur[o] = s
		}
		na := aliasCount(fr.alias)
		for i, in := range b.Instrs {
			if i >= g.cut[b.Index] {
				break
			}
			fr.instr(in)
		}
		grew := aliasCount(fr.alias) != na
		if g.cut[b.Index] < len(b.Instrs) {
			continue
		}
		for _, s := range g.succs[b.Index] {
			old := ins[s.Index]
			ch := old == nil
			nw := penv{}
			for o, t := range old {
				nw[o] = t
			}
			for o, t := range fr.cur {
				u, ok := nw[o]
				j := t
				if ok {
					j = u.join(t)
				}
				if !ok || j != u {
					nw[o] = j
					ch = true
				}
			}
			if ch || grew {
				ins[s.Index] = nw
				work = append(work, s)
			}
		}
	}
	sum := &psummary{results: fr.res, exit: fr.exit}
	for j := range f.Params {
		sum.touched = append(sum.touched, fr.exit[j].cls != 0 && fr.exit[j] != args[j])
	}
	if old := z.memo[key]; old == nil || !sameSummary(old, sum) {
		z.changed = true
	}
	z.memo[key] = sum
	z.ran[key] = z.round
	return sum
}

func aliasCount(m map[ssa.Value]map[pref]bool) int {
	n := 0
	for _, a := range m {
		n += len(a)
	}
	return n
}

func sameSummary(a, b *psummary) bool {
	return fmt.Sprint(a.results, a.exit) == fmt.Sprint(b.results, b.exit)
}

func checkC11(p *Prog, r *Report) {
	r.rule("result-precision", "every number made into a BigFloat, BigInt or BigRat value is free of a rounding, anywhere in its computation, to a precision other than the configured one or to a float64", 15)
	r.rule("constant-precision", "every package-level floating-point constant has at least as many bits as the longest string of digits it may be made from", 5)
	r.rule("stopping", "the test that ends the series stops only when the last step changed nothing, or no more than the last bits that the configured precision has", 0)
	r.rule("own-configuration", "a function that is given a session's configuration computes numbers with no other", 1)
	r.rule("constants-refreshed", "whatever sets the precision also sets e and pi before anything else is evaluated, even when the command goes on to fail", 2)
	r.rule("roundings", "the operations that round are in functions the analysis reaches", 40)
	z := &precision{p: p, r: r, memo: map[string]*psummary{}, busy: map[string]bool{}, ctxs: map[*ssa.Function]int{}, mem: map[any]pstate{},
		wraps: map[string]*pwrap{}, inits: &isolation{p: p, initMemo: map[*ssa.Function]int{}}, ran: map[string]int{}, ops: map[token.Pos]bool{}}
	if p.method("config", "Config", "FloatPrec") == nil || z.precField() == nil {
		r.missing("result-precision", "Config.FloatPrec, returning the field that holds the setting")
		return
	}
	z.stopping()
	z.ownConfig()
	z.refreshed()
	z.minBits = z.constDigits()
	for z.round = 1; z.round <= 8; z.round++ {
		z.changed = false
		for _, f := range p.funcs {
			if relPkg(f) != "value" && relPkg(f) != "parse" && relPkg(f) != "exec" && relPkg(f) != "run" && relPkg(f) != "scan" {
				continue
			}
			needs := false
			for _, q := range f.Params {
				if bigName(q.Type()) != "" {
					needs = true
				}
			}
			if needs && len(p.callSites(f)) > 0 {
				continue
			}
			var st []pstate
			for _, q := range f.Params {
				st = append(st, noFloat(q, pstate{cls: pOperand}))
			}
			z.run(f, st, 0)
		}
		if !z.changed {
			break
		}
	}
	var ks []string
	for k := range z.wraps {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return z.wraps[ks[i]].pos < z.wraps[ks[j]].pos })
	for _, k := range ks {
		w := z.wraps[k]
		name := fname(w.fn) + " makes a " + w.what
		if w.bad != "" {
			r.bad("result-precision", name, w.pos, "%s (%s)", w.bad, p.pos(w.at))
			continue
		}
		r.ok("result-precision", name, w.pos, "no rounding but to the configured precision on the way to it")
	}
	// Constants.
	for _, m := range p.spkg["value"].Members {
		g, ok := m.(*ssa.Global)
		if !ok || bigName(g.Type().(*types.Pointer).Elem()) != "Float" {
			continue
		}
		s := z.mem[g]
		name := "the constant " + g.Name()
		switch {
		case s.cls == 0:
			r.ok("constant-precision", name, g.Pos(), "never set from a number")
		case s.bad != "" || s.cls&^pTable != 0:
			why := s.bad
			if why == "" {
				why = fmt.Sprintf("it is given %d bits, and the digits are worth %d", s.k, z.minBits)
			}
			r.bad("constant-precision", name, g.Pos(), "%s", why)
		default:
			r.ok("constant-precision", name, g.Pos(), "it has at least %d bits", z.minBits)
		}
	}
	// Operations the analysis did not meet.
	for _, f := range p.funcs {
		if relPkg(f) != "value" {
			continue
		}
		g := p.cfg(f)
		n, miss := 0, 0
		var at token.Pos
		for i, b := range f.Blocks {
			if !g.reach[i] {
				continue
			}
			for j, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || j >= g.cut[i] {
					continue
				}
				if t, nm := bigMethod(c.Call.StaticCallee()); t == "Float" {
					switch nm {
					case "Set", "Neg", "Abs", "Add", "Sub", "Mul", "Quo", "Sqrt", "SetRat", "SetInt", "SetInt64", "SetUint64", "SetFloat64", "SetString", "Parse":
						n++
						if !z.ops[c.Pos()] {
							miss++
							at = c.Pos()
						}
					}
				}
			}
		}
		if n > 0 {
			if miss > 0 {
				r.ok("roundings", fname(f), at, "%d of %d operations are not reached from the rest of the program", miss, n)
			} else {
				r.ok("roundings", fname(f), f.Pos(), "%d operations, all analysed", n)
			}
		}
	}
}

// constDigits: the bits that the longest string of digits given to a number is worth.
func (z *precision) constDigits() int {
	best := 0
	for _, f := range z.p.funcs {
		if relPkg(f) != "value" || !z.inits.initOnly(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						s := constant.StringVal(k.Value)
						if len(strings.Trim(s, "0123456789.")) == 0 && len(s) > best {
							best = len(s)
						}
					}
				}
			}
		}
	}
	return int(float64(best-2) * math.Log2(10))
}

// ---------------------------------------------------------------- when a series stops

// stopping: a function that tells the loops of three or more functions to stop says so only
// when the last step changed nothing, or less than the precision can show.
func (z *precision) stopping() {
	p, r := z.p, z.r
	loops := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if relPkg(f) != "value" {
			continue
		}
		g := p.cfg(f)
		for i, b := range f.Blocks {
			if !g.reach[i] {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cond := iff.Cond
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond = u.X
			}
			c, ok := cond.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || relPkg(c.Call.StaticCallee()) != "value" || !reaches(g, b, b) {
				continue
			}
			callee := c.Call.StaticCallee()
			has := false
			for _, q := range callee.Params {
				if bigName(q.Type()) == "Float" {
					has = true
				}
			}
			if has {
				if loops[callee] == nil {
					loops[callee] = map[*ssa.Function]bool{}
				}
				loops[callee][f] = true
			}
		}
	}
	for _, f := range p.funcs {
		if len(loops[f]) < 3 {
			continue
		}
		n, msg, at := z.stops(f, true, 0)
		if msg != "" {
			r.bad("stopping", fname(f), at, "%s", msg)
		} else {
			r.ok("stopping", fname(f), f.Pos(), "on each of the %d ways to stop, for the loops of %d functions, the change is nothing or below the precision", n, len(loops[f]))
		}
	}
}

// reaches: b can follow a.
func reaches(g *cfg, a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range g.succs[x.Index] {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

// stops: on each path that returns want, the step was small.
func (z *precision) stops(f *ssa.Function, want bool, d int) (n int, msg string, at token.Pos) {
	g := z.p.cfg(f)
	if d > 4 {
		return 0, "too deep", f.Pos()
	}
	type edge struct{ from, to *ssa.BasicBlock }
	var walk func(b *ssa.BasicBlock, path []edge, facts []fact)
	steps := 0
	walk = func(b *ssa.BasicBlock, path []edge, facts []fact) {
		steps++
		if steps > 20000 || msg != "" || g.cut[b.Index] < len(b.Instrs) {
			return
		}
		resolve := func(v ssa.Value) ssa.Value {
			for i := 0; i < 20; i++ {
				ph, ok := v.(*ssa.Phi)
				if !ok {
					return v
				}
				hit := false
				for k := len(path) - 1; k >= 0; k-- {
					if path[k].to == ph.Block() {
						for j, pr := range ph.Block().Preds {
							if pr == path[k].from {
								v = ph.Edges[j]
								hit = true
							}
						}
						break
					}
				}
				if !hit {
					return v
				}
			}
			return v
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			v := resolve(x.Results[0])
			if k, ok := v.(*ssa.Const); ok {
				if constant.BoolVal(k.Value) != want {
					return
				}
			} else {
				facts = append(facts[:len(facts):len(facts)], fact{cond: v, val: want})
			}
			n++
			why := "nothing about the last change is known where it stops"
			for _, fc := range facts {
				ok, w := z.small(fc.cond, fc.val, d)
				if ok {
					return
				}
				if w != "" {
					why = w
				}
			}
			msg, at = why, x.Pos()
			if at == token.NoPos {
				at = f.Pos()
			}
		case *ssa.If:
			cond := resolve(x.Cond)
			for i, s := range b.Succs {
				live := false
				for _, t := range g.succs[b.Index] {
					live = live || t == s
				}
				if !live {
					continue
				}
				if k, ok := cond.(*ssa.Const); ok && constant.BoolVal(k.Value) != (i == 0) {
					continue
				}
				again := false
				for _, e := range path {
					again = again || e.from == b && e.to == s
				}
				if again {
					continue
				}
				walk(s, append(path[:len(path):len(path)], edge{b, s}), append(facts[:len(facts):len(facts)], fact{cond: cond, val: i == 0}))
			}
		default:
			for _, s := range g.succs[b.Index] {
				again := false
				for _, e := range path {
					again = again || e.from == b && e.to == s
				}
				if !again {
					walk(s, append(path[:len(path):len(path)], edge{b, s}), facts)
				}
			}
		}
	}
	walk(f.Blocks[0], nil, nil)
	return
}

// small: the condition says that a number is zero or below what the precision can show.
func (z *precision) small(v ssa.Value, val bool, d int) (bool, string) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return z.small(x.X, !val, d)
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && relPkg(f) == "value" && f.Blocks != nil && z.p.inModule(f) {
			_, msg, _ := z.stops(f, val, d+1)
			return msg == "", msg
		}
	case *ssa.BinOp:
		op := x.Op
		a, b := x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !val {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		k, ok := b.(*ssa.Const)
		c, ok2 := a.(*ssa.Call)
		if !ok || !ok2 || k.Value == nil || k.Value.Kind() != constant.Int {
			return false, ""
		}
		n := k.Int64()
		can := map[int64]bool{} // the results of the comparison that satisfy the condition
		for _, i := range []int64{-1, 0, 1} {
			switch op {
			case token.LSS:
				can[i] = i < n
			case token.LEQ:
				can[i] = i <= n
			case token.GTR:
				can[i] = i > n
			case token.GEQ:
				can[i] = i >= n
			case token.EQL:
				can[i] = i == n
			case token.NEQ:
				can[i] = i != n
			}
		}
		t, name := bigMethod(c.Call.StaticCallee())
		if t != "Float" {
			return false, ""
		}
		switch name {
		case "Sign":
			return can[0] && !can[1] && !can[-1], ""
		case "Cmp":
			if can[0] && !can[1] && !can[-1] {
				return true, ""
			}
			if !can[1] {
				return z.tiny(c.Call.Args[1])
			}
			if !can[-1] {
				return z.tiny(c.Call.Args[0])
			}
		}
	}
	return false, ""
}

// tiny: the number is a unit in the last place at the configured precision.
func (z *precision) tiny(v ssa.Value) (bool, string) {
	seen := map[ssa.Value]bool{}
	bad := ""
	prec := false
	var visit func(v ssa.Value, d int, top bool)
	visit = func(v ssa.Value, d int, top bool) {
		if seen[v] || d > 25 {
			return
		}
		seen[v] = true
		if a, ok := v.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				if c, ok := u.(*ssa.Call); ok && len(c.Call.Args) > 0 && c.Call.Args[0] == ssa.Value(a) {
					if t, _ := bigMethod(c.Call.StaticCallee()); t == "Float" {
						visit(c, d+1, top)
					}
				}
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil {
					if top && z.differences()[fv] {
						bad = "nothing about the last change is known where it stops"
					}
					for _, w := range z.p.fieldStores(fv) {
						visit(w, d+2, top)
					}
				}
			}
			if a, ok := u.X.(*ssa.Alloc); ok {
				for _, st := range storesInto(a) {
					visit(st.Val, d+1, top)
				}
			}
		}
		if c, ok := v.(*ssa.Call); ok {
			f := c.Call.StaticCallee()
			t, name := bigMethod(f)
			if t == "Float" && name == "Prec" || z.isPrec(f) {
				prec = true
				return
			}
			if t == "Float" && name == "Sub" && top {
				bad = "nothing about the last change is known where it stops"
			}
			if t == "Float" && name == "SetMantExp" {
				if m, pr, k, ok := z.exponent(c.Call.Args[2], 0); ok {
					prec = prec || pr != 0
					switch {
					case m < 1 || pr == 0:
						bad = "the change is compared with a number that does not depend on the configured precision"
					case pr > -2 || k > 16:
						bad = "the change is compared with more than the last bits of the result"
					}
					visit(c.Call.Args[1], d+1, false)
					return
				}
			}
			if t == "" && f != nil && z.p.inModule(f) && f.Blocks != nil {
				for _, rt := range z.p.returns(f) {
					visit(rt.Results[0], d+2, top)
				}
			}
		}
		if q, ok := v.(*ssa.Parameter); ok {
			z.p.eachArg(q, func(a ssa.Value) { visit(a, d+3, top) })
		}
		if in, ok := v.(ssa.Instruction); ok {
			recv := false
			if c, ok := in.(*ssa.Call); ok {
				t, _ := bigMethod(c.Call.StaticCallee())
				recv = t == "Float"
			}
			if _, ok := in.(*ssa.Phi); ok {
				recv = true
			}
			for i, op := range in.Operands(nil) {
				if _, ok := in.(*ssa.Call); ok {
					i-- // the function comes first
				}
				if *op != nil {
					visit(*op, d+1, top && i == 0 && recv)
				}
			}
		}
	}
	visit(v, 0, true)
	if bad == "" && !prec {
		bad = "the change is compared with a number that does not depend on the configured precision"
	}
	return bad == "", bad
}

// differences: the fields that hold the result of a subtraction.
func (z *precision) differences() map[*types.Var]bool {
	if z.diffs != nil {
		return z.diffs
	}
	z.diffs = map[*types.Var]bool{}
	for _, f := range z.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if t, n := bigMethod(c.Call.StaticCallee()); t != "Float" || n != "Sub" {
					continue
				}
				if u, ok := c.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						if v := fieldVar(fa.X.Type(), fa.Field); v != nil {
							z.diffs[v] = true
						}
					}
				}
			}
		}
	}
	return z.diffs
}

// exponent: v is m times the exponent of a number, plus pr halves of a precision, plus k.
func (z *precision) exponent(v ssa.Value, d int) (m, pr int, k int64, ok bool) {
	if d > 10 {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return 0, 0, x.Int64(), true
		}
	case *ssa.Convert:
		return z.exponent(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.SUB {
			m, pr, k, ok = z.exponent(x.X, d+1)
			return -m, -pr, -k, ok
		}
		if x.Op == token.MUL {
			if (&pframe{z: z, f: x.Parent(), cur: penv{}, alias: map[ssa.Value]map[pref]bool{}}).precArg(x, 0).cls == pConf {
				return 0, 2, 0, true
			}
		}
	case *ssa.BinOp:
		m1, p1, k1, ok1 := z.exponent(x.X, d+1)
		m2, p2, k2, ok2 := z.exponent(x.Y, d+1)
		if !ok1 || !ok2 {
			return
		}
		switch x.Op {
		case token.ADD:
			return m1 + m2, p1 + p2, k1 + k2, true
		case token.SUB:
			return m1 - m2, p1 - p2, k1 - k2, true
		case token.QUO:
			if m2 == 0 && p2 == 0 && k2 >= 2 {
				// A part of the precision.
				return 0, p1 / 2, 0, m1 == 0
			}
		case token.MUL:
			if m2 == 0 && p2 == 0 {
				return m1 * int(k2), p1 * int(k2), k1 * k2, true
			}
		case token.SHR:
			if m2 == 0 && p2 == 0 && k2 >= 1 {
				return 0, p1 / 2, 0, m1 == 0
			}
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		t, name := bigMethod(f)
		switch {
		case t == "Float" && name == "MantExp":
			return 1, 0, 0, true
		case t == "Float" && name == "Prec", z.isPrec(f):
			return 0, 2, 0, true
		}
	}
	return
}

// ownConfig: what is given a session's configuration uses no other.
func (z *precision) ownConfig() {
	p, r := z.p, z.r
	n := 0
	for _, f := range p.funcs {
		if relPkg(f) != "value" {
			continue
		}
		given := false
		for g := f; g != nil; g = g.Parent() {
			for _, q := range g.Params {
				if n, ok := q.Type().(*types.Named); ok && n.Obj().Name() == "Context" {
					given = true
				}
				if isConfigPtr(q.Type()) {
					given = true
				}
			}
		}
		if !given {
			continue
		}
		n++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				res := c.Common().Signature().Results()
				num := z.isPrec(c.Common().StaticCallee())
				for i := 0; i < res.Len(); i++ {
					num = num || z.carrier(res.At(i).Type())
				}
				for _, a := range c.Common().Args {
					if num && isConfigPtr(a.Type()) && otherConfig(a) {
						r.bad("own-configuration", fname(f), in.Pos(), "it is given a session's configuration, and computes a number with another")
					}
				}
			}
		}
	}
	r.ok("own-configuration", "package value", token.NoPos, "%d functions that are given a configuration compute with no other", n)
}

func isConfigPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Config" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/config"
}

// ---------------------------------------------------------------- e and pi

// refreshed: whatever changes the precision sets e and pi again before anything is evaluated.
func (z *precision) refreshed() {
	p, r := z.p, z.r
	set := p.method("config", "Config", "SetFloatPrec")
	consts := p.method("exec", "Context", "SetConstants")
	if set == nil || consts == nil {
		r.missing("constants-refreshed", "Config.SetFloatPrec and Context.SetConstants")
		return
	}
	raises := map[*ssa.Function]int{}
	var raise func(f *ssa.Function, d int) bool
	raise = func(f *ssa.Function, d int) bool {
		if f == nil || f.Blocks == nil || !p.inModule(f) {
			return false
		}
		if v := raises[f]; v != 0 {
			return v == 2
		}
		raises[f] = 1
		for i, b := range f.Blocks {
			if !p.cfg(f).reach[i] {
				continue
			}
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Panic); ok {
					raises[f] = 2
					return true
				}
				if c, ok := in.(*ssa.Call); ok {
					for _, g := range p.callees(c) {
						if relPkg(g) == "config" {
							continue // complaints about arguments the commands have checked
						}
						if raise(g, d+1) {
							raises[f] = 2
							return true
						}
					}
				}
			}
		}
		return false
	}
	isConsts := func(c *ssa.CallCommon) bool {
		if c.IsInvoke() {
			return c.Method.Name() == consts.Name()
		}
		f := c.StaticCallee()
		if f == consts {
			return true
		}
		if f == nil || !p.inModule(f) || f.Blocks == nil {
			return false
		}
		// A literal or helper that does nothing but call it on every way through.
		for _, b := range f.Blocks {
			if everyPath(p, f, b) {
				for _, in := range b.Instrs {
					if d, ok := in.(*ssa.Call); ok && (d.Call.IsInvoke() && d.Call.Method.Name() == consts.Name() || d.Call.StaticCallee() == consts) {
						return true
					}
				}
			}
		}
		return false
	}
	var check func(site ssa.CallInstruction, d int) string
	check = func(site ssa.CallInstruction, d int) string {
		f := site.Parent()
		g := p.cfg(f)
		if deferredIn(p, site, isConsts) == "" {
			return ""
		}
		// Forward from the site.
		type at struct {
			b *ssa.BasicBlock
			i int
		}
		start := at{site.Block(), 0}
		for i, in := range site.Block().Instrs {
			if in == ssa.Instruction(site) {
				start.i = i + 1
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		open, raised := false, false
		var walk func(a at)
		walk = func(a at) {
			for i := a.i; i < len(a.b.Instrs); i++ {
				in := a.b.Instrs[i]
				if c, ok := in.(*ssa.Call); ok {
					if isConsts(&c.Call) {
						return
					}
					for _, h := range p.callees(c) {
						if raise(h, 0) {
							raised = true
						}
					}
				}
				if i >= g.cut[a.b.Index] {
					raised = true
					return
				}
				switch in.(type) {
				case *ssa.Return:
					open = true
				case *ssa.Panic:
					raised = true
				}
			}
			for _, s := range g.succs[a.b.Index] {
				if !seen[s] {
					seen[s] = true
					walk(at{s, 0})
				}
			}
		}
		walk(start)
		if !open && !raised {
			return ""
		}
		if d > 5 {
			return "no caller sets them"
		}
		var sites []ssa.CallInstruction
		for _, c := range p.callSites(f) {
			if p.inModule(c.Parent()) {
				sites = append(sites, c)
			}
		}
		if len(sites) == 0 {
			return fname(f) + " returns with e and pi at the old precision"
		}
		for _, c := range sites {
			if raised {
				if msg := deferredIn(p, c, isConsts); msg != "" {
					return msg
				}
			} else if msg := check(c, d+1); msg != "" {
				return msg
			}
		}
		return ""
	}
	n := 0
	for _, c := range p.callers[set] {
		if relPkg(c.Parent()) == "config" {
			continue
		}
		n++
		msg := check(c, 0)
		r.add("constants-refreshed", fname(c.Parent()), c.Pos(), msg == "", "%s", orElse(msg, "after the precision is set, e and pi are, whether or not the rest of the command fails"))
	}
	if n == 0 {
		r.missing("constants-refreshed", "the command that sets the precision")
	}
	// What it sets.
	names := map[string]bool{}
	for _, b := range consts.Blocks {
		if !everyPath(p, consts, b) {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				for _, a := range c.Call.Args {
					if s, ok := constStr(a); ok {
						names[s] = true
					}
				}
			}
		}
	}
	r.add("constants-refreshed", fname(consts), consts.Pos(), names["e"] && names["pi"], "it must set e and pi on every way through")
}

func orElse(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// deferredIn: the caller has put off setting the constants to after the call, whatever happens in it.
func deferredIn(p *Prog, c ssa.CallInstruction, is func(*ssa.CallCommon) bool) string {
	f := c.Parent()
	g := p.cfg(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if df, ok := in.(*ssa.Defer); ok && is(&df.Call) {
				if b == c.Block() {
					for _, w := range b.Instrs {
						if w == in {
							return ""
						}
						if w == ssa.Instruction(c) {
							break
						}
					}
				} else if g.dominates(b, c.Block()) {
					return ""
				}
			}
		}
	}
	return fname(f) + " does not set e and pi if the command fails after setting the precision"
}
