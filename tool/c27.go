package main

// C27: sessions in one process are independent. What they share is package-level state
// (variables, and variables captured by functions made during initialisation) and the state
// of the process. The former must be fixed once the program is initialised, or be a cache
// whose contents come from nothing a session supplies.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C27"] = checkC27 }

type isolation struct {
	p        *Prog
	initMemo map[*ssa.Function]int
	writes   map[string]bool // param writes memo
	caches   map[*ssa.Global]bool
}

// libPkg: the packages that make up a session; mobile offers one session by design, and main is one.
func libPkg(s string) bool {
	switch strings.Split(s, "/")[0] {
	case "value", "exec", "parse", "run", "scan", "config", "demo":
		return true
	}
	return false
}

// initOnly: f runs only while packages are initialised.
func (z *isolation) initOnly(f *ssa.Function) bool {
	switch z.initMemo[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	z.initMemo[f] = 3 // busy
	ok := false
	switch {
	case f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")):
		ok = true
	case f.Parent() == nil && (f.Object() == nil || f.Object().Exported()):
	case z.p.addressTaken(f) && !z.calledOnlyHere(f):
	default:
		cs := z.p.callers[f]
		ok = len(cs) > 0
		for _, c := range cs {
			if !z.initOnly(c.Parent()) {
				ok = false
			}
			if _, isGo := c.(*ssa.Go); isGo {
				ok = false
			}
		}
	}
	z.initMemo[f] = 2
	if ok {
		z.initMemo[f] = 1
	}
	return ok
}

// calledOnlyHere: a function literal whose every use is a call.
func (z *isolation) calledOnlyHere(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(f) {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						for _, u := range *mc.Referrers() {
							if c, ok := u.(ssa.CallInstruction); !ok || c.Common().Value != ssa.Value(mc) {
								return false
							}
						}
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(f) {
						continue
					}
					return false
				}
			}
		}
	}
	return true
}

// noSession: an exported function the program never calls and that is given nothing of a session.
func (z *isolation) noSession(f *ssa.Function) bool {
	if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || len(z.p.callers[f]) > 0 || z.p.addressTaken(f) {
		return false
	}
	for _, q := range f.Params {
		if z.sessionType(q.Type()) != "" {
			return false
		}
	}
	return f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0
}

type sharedVar struct {
	name string
	typ  types.Type // type of the variable
	key  any
}

// lib: the variable belongs to the packages a session is made of.
func (s *sharedVar) lib() bool {
	if g, ok := s.key.(*ssa.Global); ok {
		return libPkg(strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath), "/"))
	}
	return true
}

// root: the shared variable that an address or value read from it belongs to; direct means the
// address of the variable itself (or of part of a struct or array variable).
func (z *isolation) root(a ssa.Value, d int) (sv *sharedVar, direct bool) {
	direct = true
	for i := 0; i < 40; i++ {
		switch x := a.(type) {
		case *ssa.Global:
			if x.Pkg == nil || !strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) {
				return nil, false
			}
			return &sharedVar{x.Pkg.Pkg.Name() + "." + x.Name(), x.Type().(*types.Pointer).Elem(), x}, direct
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				direct = false
			}
			a = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, false
			}
			direct = false
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.ChangeType:
			a = x.X
		case *ssa.Lookup:
			direct = false
			a = x.X
		case *ssa.Extract:
			direct = false
			a = x.Tuple
		case *ssa.TypeAssert:
			direct = false
			a = x.X
		case *ssa.FreeVar:
			// bound in initialisation?
			f := x.Parent()
			for i, fv := range f.FreeVars {
				if fv != x || f.Parent() == nil {
					continue
				}
				for _, b := range f.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
							bd := mc.Bindings[i]
							if al, ok := bd.(*ssa.Alloc); ok && z.initOnly(al.Parent()) && !z.initOnly(f) {
								return &sharedVar{"variable " + al.Comment + " of initialisation", al.Type().(*types.Pointer).Elem(), al}, direct
							}
							if _, ok := bd.(*ssa.FreeVar); ok && d < 4 {
								return z.root(bd, d+1)
							}
						}
					}
				}
			}
			return nil, false
		default:
			return nil, false
		}
	}
	return nil, false
}

func (z *isolation) sessionType(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return ""
	}
	switch n.Obj().Name() {
	case "Context", "Config", "Value", "Expr", "Parser", "Scanner", "Var", "Function", "Vector", "Matrix", "Token":
		return n.Obj().Name()
	}
	return ""
}

// deps: what of a session the contents of v come from, or "".
func (z *isolation) deps(v ssa.Value, self any, seen map[ssa.Value]bool, d int) string {
	if v == nil || seen[v] {
		return ""
	}
	seen[v] = true
	if d > 60 {
		return "something not followed"
	}
	rec := func(vs ...ssa.Value) string {
		for _, w := range vs {
			if s := z.deps(w, self, seen, d+1); s != "" {
				return s
			}
		}
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return ""
	case *ssa.Global:
		return ""
	case *ssa.Parameter:
		if s := z.sessionType(x.Type()); s != "" {
			return "the " + s + " " + x.Name()
		}
		f := x.Parent()
		if z.p.addressTaken(f) || len(z.p.callers[f]) == 0 {
			return "parameter " + x.Name() + " of " + fname(f)
		}
		for i, q := range f.Params {
			if q != x {
				continue
			}
			for _, c := range z.p.callers[f] {
				args := c.Common().Args
				if c.Common().StaticCallee() != f || i >= len(args) {
					return "parameter " + x.Name() + " of " + fname(f)
				}
				if s := rec(args[i]); s != "" {
					return s
				}
			}
		}
		return ""
	case *ssa.FreeVar:
		return "captured variable " + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if sv, _ := z.root(x.X, 0); sv != nil {
				return "" // checked where it is written
			}
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if s := z.sessionType(a.X.Type()); s != "" {
					return "field " + fieldName(a.X.Type(), a.Field) + " of the " + s
				}
				return rec(a.X)
			case *ssa.IndexAddr:
				return rec(a.X)
			}
		}
		return rec(x.X)
	case *ssa.Alloc:
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Addr == ssa.Value(x) {
					if s := rec(y.Val); s != "" {
						return s
					}
				}
			case *ssa.IndexAddr, *ssa.FieldAddr:
				for _, w := range *y.(ssa.Value).Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == y.(ssa.Value) {
						if s := rec(st.Val); s != "" {
							return s
						}
					}
				}
			case ssa.CallInstruction:
				if s := rec(y.Common().Args...); s != "" {
					return s
				}
			}
		}
		return ""
	case *ssa.MakeSlice, *ssa.MakeMap:
		for _, u := range *v.(ssa.Value).Referrers() {
			switch y := u.(type) {
			case *ssa.IndexAddr:
				for _, w := range *y.Referrers() {
					if st, ok := w.(*ssa.Store); ok {
						if s := rec(st.Val); s != "" {
							return s
						}
					}
				}
			case *ssa.MapUpdate:
				if s := rec(y.Key, y.Value); s != "" {
					return s
				}
			}
		}
		return ""
	case *ssa.Phi:
		return rec(x.Edges...)
	case *ssa.BinOp:
		return rec(x.X, x.Y)
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.Slice:
		// The extent is not contents. Element stores through the slice are.
		if s := rec(x.X); s != "" {
			return s
		}
		return ""
	case *ssa.Extract:
		return rec(x.Tuple)
	case *ssa.Next:
		return rec(x.Iter)
	case *ssa.Range:
		return rec(x.X)
	case *ssa.Field:
		return rec(x.X)
	case *ssa.Index:
		return rec(x.X)
	case *ssa.Lookup:
		return rec(x.X)
	case *ssa.MakeClosure:
		return rec(x.Bindings...)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return ""
			}
			return rec(x.Call.Args...)
		}
		f := x.Call.StaticCallee()
		if f == nil {
			return "the result of a call through a variable"
		}
		if f.Pkg != nil && (f.Pkg.Pkg.Path() == "strings" || f.Pkg.Pkg.Path() == "bytes") && f.Name() == "Repeat" {
			return rec(x.Call.Args[0])
		}
		if o := f.Origin(); o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "slices" && in2(o.Name(), "Grow", "Clip", "Clone") {
			return rec(x.Call.Args[0])
		}
		if s := rec(x.Call.Args...); s != "" {
			return s
		}
		if z.p.inModule(f) {
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if s := rec(rt.Results...); s != "" {
						return s
					}
				}
			}
			return ""
		}
		if f.Pkg != nil && in2(f.Pkg.Pkg.Path(), "os", "time", "io") {
			return "the result of " + f.String()
		}
		return ""
	}
	return fmt.Sprintf("a %T", v)
}

// uniqueID: the counter is used only to give things an identity, compared for equality.
func (z *isolation) uniqueID(c *ssa.Call) string {
	var follow func(v ssa.Value, d int) string
	seen := map[ssa.Value]bool{}
	follow = func(v ssa.Value, d int) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch y := u.(type) {
			case *ssa.BinOp:
				if y.Op != token.EQL && y.Op != token.NEQ {
					return "computes with it"
				}
			case *ssa.Store:
				fa, ok := y.Addr.(*ssa.FieldAddr)
				if !ok {
					if al, isAl := y.Addr.(*ssa.Alloc); isAl {
						for _, w := range *al.Referrers() {
							if ld, ok := w.(*ssa.UnOp); ok {
								if s := follow(ld, d+1); s != "" {
									return s
								}
							}
						}
						continue
					}
					return "stores it"
				}
				// every load of that field
				for _, f := range z.p.funcs {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							ld, ok := in.(*ssa.UnOp)
							if !ok || ld.Op != token.MUL {
								continue
							}
							fb, ok := ld.X.(*ssa.FieldAddr)
							if !ok || fb.Field != fa.Field || namedOf(fb.X.Type()) == nil || namedOf(fa.X.Type()) == nil || namedOf(fb.X.Type()).Origin() != namedOf(fa.X.Type()).Origin() {
								continue
							}
							if s := follow(ld, d+1); s != "" {
								return s
							}
						}
					}
				}
			case *ssa.Return:
				for _, cs := range z.p.callers[y.Parent()] {
					if cv, ok := cs.(*ssa.Call); ok {
						if s := follow(cv, d+1); s != "" {
							return s
						}
					}
				}
			case *ssa.Call:
				f := y.Call.StaticCallee()
				if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" && len(y.Call.Args) > 0 {
					// kept in an atomic field: every load of that
					fa, ok := y.Call.Args[0].(*ssa.FieldAddr)
					if !ok {
						return "stores it"
					}
					for _, h := range z.p.funcs {
						for _, b := range h.Blocks {
							for _, in := range b.Instrs {
								ld, ok := in.(*ssa.Call)
								if !ok || ld.Call.StaticCallee() == nil || ld.Call.StaticCallee().Name() != "Load" || len(ld.Call.Args) != 1 {
									continue
								}
								fb, ok := ld.Call.Args[0].(*ssa.FieldAddr)
								if !ok || fb.Field != fa.Field || namedOf(fb.X.Type()) == nil || namedOf(fa.X.Type()) == nil || namedOf(fb.X.Type()).Origin() != namedOf(fa.X.Type()).Origin() {
									continue
								}
								if s := follow(ld, d+1); s != "" {
									return s
								}
							}
						}
					}
					continue
				}
				if f == nil || f.Blocks == nil {
					return "passes it on"
				}
				for i, a := range y.Call.Args {
					if a == v && i < len(f.Params) {
						if s := follow(f.Params[i], d+1); s != "" {
							return s
						}
					}
				}
			case *ssa.Phi:
				if s := follow(y, d+1); s != "" {
					return s
				}
			case *ssa.DebugRef:
			default:
				return fmt.Sprintf("uses it (%T)", u)
			}
		}
		return ""
	}
	return follow(c, 0)
}

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// writesParam: f stores through its i'th parameter (other than filling in an empty configuration).
func (z *isolation) writesParam(f *ssa.Function, i int, d int) bool {
	if d > 6 || f.Blocks == nil || i >= len(f.Params) {
		return false
	}
	key := fmt.Sprintf("%p/%d", f, i)
	if v, ok := z.writes[key]; ok {
		return v
	}
	z.writes[key] = false
	prm := f.Params[i]
	rooted := func(a ssa.Value) bool {
		for n := 0; n < 20; n++ {
			switch x := a.(type) {
			case *ssa.Parameter:
				return x == prm
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.Slice:
				a = x.X
			case *ssa.UnOp:
				a = x.X
			default:
				return false
			}
		}
		return false
	}
	res := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if rooted(x.Addr) && x.Addr != ssa.Value(prm) || x.Addr == ssa.Value(prm) {
					if !z.p.lazyInit(f, in) {
						res = true
					}
				}
			case *ssa.MapUpdate:
				if rooted(x.Map) {
					res = true
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && z.p.inModule(g) {
					for k, a := range x.Common().Args {
						if a == ssa.Value(prm) && z.writesParam(g, k, d+1) {
							res = true
						}
					}
				}
			}
		}
	}
	z.writes[key] = res
	return res
}

func checkC27(p *Prog, r *Report) {
	r.rule("package-state", "a package-level variable, or a variable captured by functions made during initialisation, is not changed once the program is initialised, unless it is a cache whose contents come from nothing of a session, or a counter of identities", 3)
	r.rule("fresh-session", "the tables and settings of a session are not storage that package-level variables or other sessions also refer to, if anything changes them", 4)
	r.rule("process-state", "no session changes the working directory, environment, local time zone, default random generator or other state of the process", 1)
	r.rule("cache-lock", "a cache shared by sessions is changed and read holding a lock, as sessions may run at the same time", 0)
	z := &isolation{p: p, initMemo: map[*ssa.Function]int{}, writes: map[string]bool{}, caches: map[*ssa.Global]bool{}}
	nfun := 0
	for _, f := range p.funcs {
		if !libPkg(relPkg(f)) || f.Blocks == nil {
			continue
		}
		if z.initOnly(f) {
			r.ok("package-state", fname(f)+" runs during initialisation", f.Pos(), "its writes are made before any session exists")
			continue
		}
		if z.noSession(f) {
			r.ok("package-state", fname(f)+" is not called by sessions", f.Pos(), "nothing in the program calls it and it is given nothing of a session")
			continue
		}
		nfun++
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !g.live(in) {
					continue
				}
				z.instr(r, f, in)
			}
		}
	}
	r.ok("package-state", "functions examined", token.NoPos, "%d functions that run in sessions", nfun)
	r.ok("process-state", "functions examined", token.NoPos, "%d functions that run in sessions", nfun)
	z.freshSession(r)
	// Caches are read holding a lock, too.
	for _, f := range p.funcs {
		if !libPkg(relPkg(f)) || z.initOnly(f) {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || !g.live(in) {
					continue
				}
				if gl := rootGlobal(ld.X); gl != nil && z.caches[gl] {
					held := len(p.locks(in, true, 3)) > 0
					r.add("cache-lock", fname(f)+" reads "+gl.Name(), in.Pos(), held, "a cache shared by all sessions is read holding a lock: %v", held)
				}
			}
		}
	}
}

func (z *isolation) instr(r *Report, f *ssa.Function, in ssa.Instruction) {
	p := z.p
	write := func(target ssa.Value, vals ...ssa.Value) {
		sv, direct := z.root(target, 0)
		if sv == nil {
			return
		}
		if isSyncType(sv.typ) {
			return
		}
		key := fname(f) + " changes " + sv.name
		cache := false
		switch u := sv.typ.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Array:
			cache = true
			_ = u
		case *types.Basic:
			cache = u.Info()&types.IsString != 0
		}
		if !cache {
			what := "a package-level variable is changed by a session and seen by all others"
			if !direct {
				what = "what a package-level variable refers to is changed by a session and seen by all others"
			}
			r.bad("package-state", key, in.Pos(), "%s", what)
			return
		}
		for _, v := range vals {
			if s := z.deps(v, sv.key, map[ssa.Value]bool{}, 0); s != "" {
				r.bad("package-state", key, in.Pos(), "what is stored comes from %s and is seen by all other sessions", s)
				return
			}
		}
		r.ok("package-state", key, in.Pos(), "a cache: what is stored comes from nothing of a session")
		r.add("cache-lock", key, in.Pos(), p.locked(in), "a cache shared by all sessions is changed holding a lock: %v", p.locked(in))
		if gl, ok := sv.key.(*ssa.Global); ok && p.locked(in) {
			z.caches[gl] = true
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		write(x.Addr, x.Val)
	case *ssa.MapUpdate:
		write(x.Map, x.Key, x.Value)
	case ssa.CallInstruction:
		cc := x.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "copy":
				write(cc.Args[0], cc.Args[1])
			case "clear", "delete":
				write(cc.Args[0])
			}
			return
		}
		g := cc.StaticCallee()
		if g == nil {
			return
		}
		for i, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Pointer); !ok {
				if _, ok := a.Type().Underlying().(*types.Map); !ok {
					continue
				}
			}
			sv, _ := z.root(a, 0)
			if sv == nil {
				continue
			}
			if isSyncType(a.Type()) {
				if n := namedOf(a.Type()); n != nil && n.Obj().Pkg().Path() == "sync/atomic" {
					c, isCall := in.(*ssa.Call)
					key := fname(f) + " changes " + sv.name
					switch g.Name() {
					case "Load":
					case "Add":
						s := "discards it"
						if isCall {
							s = z.uniqueID(c)
						}
						r.add("package-state", key, in.Pos(), s == "", "%s", orStr(s, "a counter whose values are only compared for equality"))
					default:
						r.bad("package-state", key, in.Pos(), "a package-level variable is changed by a session and seen by all others")
					}
				} else if n != nil && in2(n.Obj().Name(), "Map") && in2(g.Name(), "Store", "LoadOrStore", "Swap") {
					for _, v := range cc.Args[1:] {
						if s := z.deps(v, sv.key, map[ssa.Value]bool{}, 0); s != "" {
							r.bad("package-state", fname(f)+" changes "+sv.name, in.Pos(), "what is stored comes from %s and is seen by all other sessions", s)
							break
						}
					}
				}
				continue
			}
			if p.inModule(g) && z.writesParam(g, i, 0) {
				r.bad("package-state", fname(f)+" changes "+sv.name+" through "+fname(g), in.Pos(), "a package-level variable is changed by a session and seen by all others")
			}
		}
		if g.Pkg != nil {
			bad := ""
			switch g.Pkg.Pkg.Path() {
			case "os":
				if in2(g.Name(), "Chdir", "Setenv", "Unsetenv", "Clearenv") {
					bad = g.Name()
				}
			case "syscall":
				if in2(g.Name(), "Chdir", "Setenv", "Unsetenv", "Clearenv", "Setrlimit", "Umask") {
					bad = g.Name()
				}
			case "math/rand":
				if g.Signature.Recv() == nil && g.Name() == "Seed" {
					bad = g.Name()
				}
			case "runtime":
				if in2(g.Name(), "GOMAXPROCS", "LockOSThread") {
					if k, ok := cc.Args[0].(*ssa.Const); len(cc.Args) == 1 && ok && k.Int64() <= 0 {
						break
					}
					bad = g.Name()
				}
			case "runtime/debug":
				if strings.HasPrefix(g.Name(), "Set") {
					bad = g.Name()
				}
			case "log":
				if g.Signature.Recv() == nil && strings.HasPrefix(g.Name(), "Set") {
					bad = g.Name()
				}
			}
			if bad != "" {
				r.bad("process-state", fname(f)+" calls "+g.String(), in.Pos(), "the state of the process is changed for all sessions")
			}
		}
	}
	// variables of other packages: time.Local, os.Stdout, ...
	if st, ok := in.(*ssa.Store); ok {
		a := st.Addr
		for {
			if fa, ok := a.(*ssa.FieldAddr); ok {
				a = fa.X
				continue
			}
			if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
				a = u.X
				continue
			}
			break
		}
		if gl, ok := a.(*ssa.Global); ok && gl.Pkg != nil && !strings.HasPrefix(gl.Pkg.Pkg.Path(), modPath) {
			r.bad("process-state", fname(f)+" sets "+gl.String(), in.Pos(), "the state of the process is changed for all sessions")
		}
	}
}

// freshSession: reference-typed fields of the session's own structures are not package-level storage.
func (z *isolation) freshSession(r *Report) {
	p := z.p
	owners := []*types.Named{p.namedType("exec", "Context"), p.namedType("config", "Config"), p.namedType("parse", "Parser"), p.namedType("scan", "Scanner")}
	n := 0
	for _, f := range p.funcs {
		if !libPkg(relPkg(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				var owner *types.Named
				for _, o := range owners {
					if o != nil && sameNamed(fa.X.Type(), o) {
						owner = o
					}
				}
				if owner == nil {
					continue
				}
				switch st.Val.Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
				default:
					continue
				}
				n++
				name := owner.Obj().Name() + "." + fieldName(fa.X.Type(), fa.Field)
				sv := z.origin(st.Val, map[ssa.Value]bool{}, 0)
				key := fname(f) + " sets " + name
				if sv == nil || !sv.lib() {
					r.ok("fresh-session", key, in.Pos(), "not package-level storage")
					continue
				}
				w := z.fieldWritten(owner, fa.Field)
				if t := z.sessionType(st.Val.Type()); t == "Config" || t == "Context" {
					w = "which is one " + t + " for all sessions"
				}
				if n := namedOf(st.Val.Type()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "math/rand") {
					w = "a generator that every draw changes"
				}
				r.add("fresh-session", key, in.Pos(), w == "", "the field refers to %s%s", sv.name, orStr(prefixed("; ", w), ", which nothing changes"))
			}
		}
	}
	_ = n
}

func prefixed(a, b string) string {
	if b == "" {
		return ""
	}
	return a + b
}

// origin: the shared variable v may have been read from.
func (z *isolation) origin(v ssa.Value, seen map[ssa.Value]bool, d int) *sharedVar {
	if seen[v] || d > 20 {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := z.origin(e, seen, d+1); s != nil {
				return s
			}
		}
		return nil
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !z.p.inModule(f) {
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return z.origin(x.Call.Args[0], seen, d+1)
			}
			return nil
		}
		for _, b := range f.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, w := range rt.Results {
					if types.Identical(w.Type(), x.Type()) {
						if s := z.origin(w, seen, d+1); s != nil {
							return s
						}
					}
				}
			}
		}
		return nil
	case *ssa.Parameter:
		f := x.Parent()
		for i, q := range f.Params {
			if q != x {
				continue
			}
			for _, c := range z.p.callers[f] {
				if args := c.Common().Args; c.Common().StaticCallee() == f && i < len(args) {
					if s := z.origin(args[i], seen, d+1); s != nil {
						return s
					}
				}
			}
		}
		return nil
	}
	sv, _ := z.root(v, 0)
	return sv
}

// fieldWritten: what changes the storage the field refers to.
func (z *isolation) fieldWritten(owner *types.Named, field int) string {
	isField := func(a ssa.Value) bool {
		for i := 0; i < 10; i++ {
			switch x := a.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.Field == field && sameNamed(fa.X.Type(), owner) {
					return true
				}
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.Slice:
				a = x.X
			default:
				return false
			}
		}
		return false
	}
	for _, f := range z.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isField(x.Map) {
						return fname(f) + " changes it"
					}
				case *ssa.Store:
					if _, direct := x.Addr.(*ssa.FieldAddr); !direct && isField(x.Addr) {
						return fname(f) + " changes it"
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if in2(bi.Name(), "delete", "clear", "copy", "append") && isField(cc.Args[0]) {
							return fname(f) + " changes it"
						}
						continue
					}
					if g := cc.StaticCallee(); g != nil {
						for i, a := range cc.Args {
							if !isField(a) {
								continue
							}
							if z.p.inModule(g) && z.writesParam(g, i, 0) {
								return fname(g) + " changes it"
							}
							if !z.p.inModule(g) && i == 0 && g.Signature.Recv() != nil {
								return g.String() + " may change it"
							}
						}
					}
				}
			}
		}
	}
	return ""
}
