package main

// C20: everything printed goes to the configured writers.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

var libPkgs = map[string]bool{"value": true, "exec": true, "parse": true, "scan": true, "run": true, "config": true, "demo": true, "mobile": true, "value/persist": true}

// configWriters locates the output and error output fields of config.Config by what the
// accessors Output and ErrOutput return.
func (p *Prog) configWriter(method string) *types.Var {
	f := p.method("config", "Config", method)
	if f == nil {
		return nil
	}
	for _, rt := range p.returns(f) {
		if len(rt.Results) != 1 {
			return nil
		}
		if u, ok := rt.Results[0].(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fieldVar(fa.X.Type(), fa.Field)
			}
		}
	}
	return nil
}

type writeSite struct {
	in     ssa.CallInstruction
	writer ssa.Value
	args   []ssa.Value
}

func isIOWriter(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Write" {
			return true
		}
	}
	return false
}

func externalName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

// writeSites lists the calls that put text on a writer.
func (p *Prog) writeSites() []writeSite {
	var out []writeSite
	for _, f := range p.funcs {
		if !libPkgs[relPkg(f)] {
			continue
		}
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !g.live(in) {
					continue
				}
				cc := c.Common()
				if cc.IsInvoke() {
					switch cc.Method.Name() {
					case "Write", "WriteString", "ReadFrom":
						out = append(out, writeSite{c, cc.Value, cc.Args})
					}
					continue
				}
				callee := cc.StaticCallee()
				if callee == nil || p.inModule(callee) {
					continue
				}
				// Any foreign function that is handed a writer.
				for i, a := range cc.Args {
					if i < callee.Signature.Params().Len() && callee.Signature.Recv() == nil && isIOWriter(callee.Signature.Params().At(i).Type()) {
						out = append(out, writeSite{c, a, append(append([]ssa.Value{}, cc.Args[:i]...), cc.Args[i+1:]...)})
					}
				}
			}
		}
	}
	return out
}

// writerClass says where text put on w ends up.
func (p *Prog) writerClass(w ssa.Value, outF, errF *types.Var) []string {
	set := map[string]bool{}
	t := newProv(p)
	t.visit = func(v ssa.Value, ctx *ictx) bool {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if isFieldAddr(u.X, outF) {
				set["output"] = true
				return true
			}
			if isFieldAddr(u.X, errF) {
				set["error"] = true
				return true
			}
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" {
				set["os."+g.Name()] = true
				return true
			}
		}
		switch v.(type) {
		case *ssa.Alloc, *ssa.FieldAddr:
			if n := namedOf(v.Type()); n != nil {
				switch n.String() {
				case "bytes.Buffer", "strings.Builder", "text/tabwriter.Writer":
					set["buffer"] = true
					return true
				}
			}
		}
		if n := namedOf(v.Type()); n != nil && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "bytes.Buffer", "strings.Builder":
				set["buffer"] = true
				return true
			}
			// A writer type of ivy's own (the pipe to the demo interpreter).
			if p.inModulePkgTypes(n.Obj().Pkg()) && !types.IsInterface(n) && p.hasWrite(n) {
				set["own"] = true
				return true
			}
		}
		if c, ok := v.(*ssa.Call); ok {
			switch externalName(c.Call.StaticCallee()) {
			case "bufio.NewWriter", "bufio.NewWriterSize":
				t.trace(c.Call.Args[0], ctx)
				return true
			case "io.MultiWriter":
				return false
			}
		}
		if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
			if c, ok := e.Tuple.(*ssa.Call); ok {
				switch externalName(c.Call.StaticCallee()) {
				case "os.Create", "os.OpenFile", "os.CreateTemp":
					set["file"] = true
					return true
				}
			}
		}
		return false
	}
	t.leaf = func(v ssa.Value, ctx *ictx, why string) {
		if prm, ok := v.(*ssa.Parameter); ok && prm.Parent().Object() != nil && prm.Parent().Object().Exported() {
			set["caller"] = true // handed in by the embedding program
			return
		}
		if prm, ok := v.(*ssa.Parameter); ok && len(p.callSites(prm.Parent())) == 0 {
			return // never called
		}
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			return
		}
		set["unknown: "+why+" "+v.String()] = true
	}
	t.trace(w, nil)
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (p *Prog) hasWrite(n *types.Named) bool {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "Write" {
			return true
		}
	}
	return false
}

// printedFrom reports whether any argument (or element of a variadic argument) can carry a
// value accepted by want.
func (p *Prog) printedFrom(args []ssa.Value, want func(v ssa.Value) bool) bool {
	found := false
	for _, a := range args {
		vals := []ssa.Value{a}
		if s, ok := a.(*ssa.Slice); ok {
			if al, ok := s.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, u := range *al.Referrers() {
					if ia, ok := u.(*ssa.IndexAddr); ok {
						for _, w := range *ia.Referrers() {
							if st, ok := w.(*ssa.Store); ok {
								vals = append(vals, st.Val)
							}
						}
					}
				}
			}
		}
		for _, v := range vals {
			t := newProv(p)
			t.visit = func(v ssa.Value, ctx *ictx) bool {
				if want(v) {
					found = true
				}
				if found {
					return true
				}
				if c, ok := v.(*ssa.Call); ok {
					switch externalName(c.Call.StaticCallee()) {
					case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
						if p.printedFrom(c.Call.Args, want) {
							found = true
						}
						return true
					}
				}
				return false
			}
			// Only moves inside the function: callers print what they print.
			t.through = func(*ssa.Call, *ssa.Function) bool { return false }
			t.leaf = func(ssa.Value, *ictx, string) {}
			t.trace(v, nil)
		}
	}
	return found
}

func isRecoverCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "recover"
}

func checkC20(p *Prog, r *Report) {
	r.rule("no-direct-output", "no library function refers to the process's standard streams, the fmt.Print and log families or the print builtins, except where the configuration takes its defaults", 150)
	r.rule("writer-provenance", "every writer text is put on is the configured output, the configured error output, a private buffer, a file, or a writer handed in by the embedding program", 60)
	r.rule("channel", "recovered errors, traces and warnings go to the configured error output only; printed values and prompts never do", 8)
	r.rule("accessor", "a writer that is set is the writer used from then on, and setting one leaves the other alone", 4)
	outF, errF := p.configWriter("Output"), p.configWriter("ErrOutput")
	if outF == nil || errF == nil || outF == errF {
		r.missing("accessor", "config.Config with separate Output and ErrOutput writers")
		return
	}
	// Rule 1.
	for _, f := range p.funcs {
		if !libPkgs[relPkg(f)] {
			continue
		}
		bad := ""
		var at token.Pos
		g := p.cfg(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !g.live(in) {
					continue
				}
				for _, op := range in.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok && gl.Pkg.Pkg.Path() == "os" && (gl.Name() == "Stdout" || gl.Name() == "Stderr") {
						if p.defaultWriter(in, outF, errF) {
							continue
						}
						bad, at = "uses os."+gl.Name(), in.Pos()
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
					bad, at = "uses the builtin "+bi.Name(), in.Pos()
				}
				if callee := c.Common().StaticCallee(); callee != nil && !p.inModule(callee) {
					n := externalName(callee)
					if n == "fmt.Print" || n == "fmt.Printf" || n == "fmt.Println" || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.Logger)") || n == "os.NewFile" || n == "syscall.Write" || n == "runtime/debug.PrintStack" {
						bad, at = "calls "+n, in.Pos()
					}
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok && !p.inModule(fn) {
						switch externalName(fn) {
						case "fmt.Print", "fmt.Printf", "fmt.Println":
							bad, at = "uses "+externalName(fn), in.Pos()
						}
					}
				}
			}
		}
		if bad != "" {
			r.bad("no-direct-output", fname(f), at, "%s: this text bypasses the configured writers", bad)
		} else {
			r.ok("no-direct-output", fname(f), f.Pos(), "no process-wide output")
		}
	}
	// Rules 2 and 3.
	cnt := map[string]int{}
	for _, w := range p.writeSites() {
		f := w.in.Parent()
		cnt[fname(f)]++
		key := fmt.Sprintf("%s write %d", fname(f), cnt[fname(f)])
		cl := p.writerClass(w.writer, outF, errF)
		bad := ""
		for _, c := range cl {
			switch c {
			case "output", "error", "buffer", "file", "own", "caller":
			default:
				bad = c
			}
		}
		if bad != "" {
			r.bad("writer-provenance", key, w.in.Pos(), "writes to %s", bad)
		} else {
			r.ok("writer-provenance", key, w.in.Pos(), "writes to %s", strings.Join(cl, ", "))
		}
		has := func(c string) bool {
			for _, x := range cl {
				if x == c {
					return true
				}
			}
			return false
		}
		isErr := p.printedFrom(w.args, isRecoverCall)
		isTrace := p.printedFrom(w.args, func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "TraceIndent"
		})
		isWarn := p.printedFrom(w.args, func(v ssa.Value) bool {
			s, ok := constStr(v)
			return ok && strings.HasPrefix(s, "warning")
		})
		isGoErr := p.printedFrom(w.args, func(v ssa.Value) bool {
			e, ok := v.(*ssa.Extract)
			if !ok || !isErrorType(e.Type()) {
				return false
			}
			_, ok = e.Tuple.(*ssa.Call)
			return ok
		})
		isVal := p.printedFrom(w.args, func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			name := ""
			if c.Call.IsInvoke() {
				name = c.Call.Method.Name()
			} else if s := c.Call.StaticCallee(); s != nil {
				name = s.Name()
			}
			return name == "Sprint" || name == "Prompt"
		})
		switch {
		case isErr, isTrace, isWarn, isGoErr:
			what := "an error message"
			if isTrace {
				what = "a trace line"
			}
			if has("output") || !has("error") && !has("buffer") && !has("caller") {
				r.bad("channel", key, w.in.Pos(), "%s goes to %s instead of the configured error output", what, strings.Join(cl, ", "))
			} else {
				r.ok("channel", key, w.in.Pos(), "%s goes to %s", what, strings.Join(cl, ", "))
			}
		case isVal:
			if has("error") {
				r.bad("channel", key, w.in.Pos(), "program output goes to the error output")
			} else {
				r.ok("channel", key, w.in.Pos(), "program output goes to %s", strings.Join(cl, ", "))
			}
		}
	}
	// Rule: a configured writer is looked up when needed, never remembered.
	for _, f := range p.funcs {
		if !libPkgs[relPkg(f)] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isIOWriter(st.Val.Type()) || isFieldAddr(st.Addr, outF) || isFieldAddr(st.Addr, errF) {
					continue
				}
				switch st.Addr.(type) {
				case *ssa.FieldAddr, *ssa.Global:
				default:
					continue
				}
				for _, c := range p.writerClass(st.Val, outF, errF) {
					if c == "output" || c == "error" {
						r.bad("channel", fname(f)+" remembers a writer", st.Pos(), "the configured %s writer is stored away, so a later change of the configuration does not reach it", c)
					}
				}
			}
		}
	}
	p.checkAccessors(r, outF, errF)
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// defaultWriter: the standard stream is only loaded to become the matching writer of a configuration.
func (p *Prog) defaultWriter(in ssa.Instruction, outF, errF *types.Var) bool {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Referrers() == nil {
		return false
	}
	want := outF
	if u.X.(*ssa.Global).Name() == "Stderr" {
		want = errF
	}
	if relPkg(in.Parent()) != "config" {
		return false
	}
	var ok2 func(v ssa.Value, d int) bool
	ok2 = func(v ssa.Value, d int) bool {
		if d > 4 || v.Referrers() == nil {
			return false
		}
		for _, x := range *v.Referrers() {
			switch x := x.(type) {
			case *ssa.MakeInterface:
				if !ok2(x, d+1) {
					return false
				}
			case *ssa.ChangeInterface:
				if !ok2(x, d+1) {
					return false
				}
			case *ssa.Phi:
				if !ok2(x, d+1) {
					return false
				}
			case *ssa.Store:
				if x.Val != v || !isFieldAddr(x.Addr, want) {
					return false
				}
			case *ssa.Call:
				// A setter of the configuration.
				callee := x.Call.StaticCallee()
				if callee == nil || relPkg(callee) != "config" {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return ok2(u, 0)
}

// checkAccessors interprets the setters and getters over a configuration with two distinct writers.
func (p *Prog) checkAccessors(r *Report, outF, errF *types.Var) {
	ct := p.namedType("config", "Config")
	so, se := p.method("config", "Config", "SetOutput"), p.method("config", "Config", "SetErrOutput")
	go1, ge := p.method("config", "Config", "Output"), p.method("config", "Config", "ErrOutput")
	if ct == nil || so == nil || se == nil || go1 == nil || ge == nil {
		r.missing("accessor", "Config.SetOutput, SetErrOutput, Output, ErrOutput")
		return
	}
	st := ct.Underlying().(*types.Struct)
	fi := func(f *types.Var) int {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f {
				return i
			}
		}
		return -1
	}
	oi, ei := fi(outF), fi(errF)
	mk := func() *interp {
		in := &interp{p: p}
		in.onCmp = func(op token.Token, x, y av) (bool, bool) {
			_, tx := x.(ktok)
			_, ty := y.(ktok)
			kx, nx := x.(kconst)
			ky, ny := y.(kconst)
			if tx && ny && ky.v == nil || ty && nx && kx.v == nil {
				return op == token.NEQ, op == token.EQL || op == token.NEQ
			}
			return false, false
		}
		return in
	}
	newConf := func() *obj {
		o := newObj(ct)
		o.kids[oi].val = ktok{"OUT"}
		o.kids[ei].val = ktok{"ERR"}
		return o
	}
	try := func(what string, f func(in *interp, o *obj) av, want string, pos token.Pos) {
		res := map[string]bool{}
		for _, oc := range explore(p, mk, func(in *interp) av { return f(in, newConf()) }, 64) {
			if oc.aborted != "" {
				res["undecided: "+oc.aborted] = true
				continue
			}
			if oc.panicked {
				res["error"] = true
				continue
			}
			if t, ok := tokOf(oc.ret); ok {
				res[t] = true
			} else {
				res[showAV(oc.ret)] = true
			}
		}
		if len(res) == 1 && res[want] {
			r.ok("accessor", what, pos, "yields %s", want)
		} else {
			r.bad("accessor", what, pos, "yields %v, want %s", keysOf(res), want)
		}
	}
	call := func(in *interp, f *ssa.Function, o *obj, args ...av) av {
		return in.call(f, append([]av{kptr{o}}, args...), nil)
	}
	try("Output after SetOutput(W)", func(in *interp, o *obj) av { call(in, so, o, ktok{"W"}); return call(in, go1, o) }, "W", so.Pos())
	try("ErrOutput after SetOutput(W)", func(in *interp, o *obj) av { call(in, so, o, ktok{"W"}); return call(in, ge, o) }, "ERR", so.Pos())
	try("ErrOutput after SetErrOutput(W)", func(in *interp, o *obj) av { call(in, se, o, ktok{"W"}); return call(in, ge, o) }, "W", se.Pos())
	try("Output after SetErrOutput(W)", func(in *interp, o *obj) av { call(in, se, o, ktok{"W"}); return call(in, go1, o) }, "OUT", se.Pos())
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
