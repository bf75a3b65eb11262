package main

// C03: an error is reported once, ends only its own statement, and leaves nothing behind.
//
// The loops that read lines, evaluate them and print the results (Run, the file and demo runners,
// and the evaluation behind the ivy operator) are interpreted over scripts of lines in which any
// step may fail with any kind of panic. What a line is, what evaluating an expression yields and
// what is written are tokens; every undetermined branch is taken both ways.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkC03 }

// A line of a script: get runs a file; otherwise vals lists what its expressions yield:
// v a value, q a quiet value, n nothing; - for no expressions at all.
type lineSpec struct {
	get  string
	vals string
	fail string // "", "line", "eval0", "eval1", "sprint0", ...
	kind string // Error, ErrNaN, other
}

type runWorld struct {
	p        *Prog
	m        *model
	in       *interp
	scripts  map[string][]lineSpec
	pos      map[*obj]int
	names    map[*obj]string
	tag      map[string]lineSpec // by expression or value token
	nlines   int
	nopen    int
	openErr  bool
	debug    bool // )debug panic is on
	flags    bool // all other debugging flags are on
	events   []string
	conf     *obj
	toks     map[*obj]bool
	next     []tokSpec // tokens the scanner yields
	reads    int
	scanning bool
}

func (w *runWorld) ev(f string, a ...any) { w.events = append(w.events, fmt.Sprintf(f, a...)) }

var otherMemo = map[string]types.Type{}

func (p *Prog) otherType(pkg, name string) types.Type {
	if t, ok := otherMemo[pkg+"."+name]; ok {
		return t
	}
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if o, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				otherMemo[pkg+"."+name] = o.Type()
				return o.Type()
			}
		}
	}
	return nil
}

// raise panics with a value of the given kind.
func (w *runWorld) raise(kind, what string) {
	w.ev("fail %s %s", kind, what)
	panic(absPanic{w.panicVal(kind, "P:"+what)})
}

func (w *runWorld) panicVal(kind, tok string) av {
	var t types.Type
	switch kind {
	case "Error":
		t = w.p.namedType("value", "Error")
	case "ErrNaN":
		t = w.p.otherType("math/big", "ErrNaN")
	case "other": // satisfies error, like the run-time errors
		t = types.NewPointer(w.p.otherType("io/fs", "PathError"))
	case "string":
		t = types.Typ[types.String]
	}
	if t == nil {
		panic(absAbort{"type of " + kind + " not found"})
	}
	return kiface{t, ktok{tok + ":" + kind}}
}

func (w *runWorld) terms(args []av) string {
	var out []string
	for _, a := range args {
		if es, ok := w.m.elems(a); ok {
			out = append(out, w.terms(es))
			continue
		}
		out = append(out, w.m.term(a))
	}
	return strings.Join(out, " ")
}

func (w *runWorld) writer(a av) string {
	switch t := w.m.term(a); t {
	case "OUT", "ERR":
		return t
	default:
		return "other writer " + t
	}
}

func recvName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return n.Obj().Name()
		}
	}
	return ""
}

func (w *runWorld) interp() *interp {
	p := w.p
	in := &interp{p: p, maxDepth: 400, symStrings: true, max: 400000}
	w.in = in
	in.onCmp = func(op token.Token, x, y av) (bool, bool) {
		isNil := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
		tx, ok1 := x.(ktok)
		ty, ok2 := y.(ktok)
		if (ok1 && isNil(y) || ok2 && isNil(x)) && (op == token.EQL || op == token.NEQ) {
			return op == token.NEQ, true
		}
		if ok1 && ok2 && (op == token.EQL || op == token.NEQ) {
			return (tx.name == ty.name) == (op == token.EQL), true
		}
		// The names of files are ordinary ones.
		if _, ok := constString(x); ok && ok2 && strings.HasPrefix(ty.name, "FILE") && (op == token.EQL || op == token.NEQ) {
			return op == token.NEQ, true
		}
		if _, ok := constString(y); ok && ok1 && strings.HasPrefix(tx.name, "FILE") && (op == token.EQL || op == token.NEQ) {
			return op == token.NEQ, true
		}
		return false, false
	}
	in.onAssert = func(x av, t types.Type) (av, bool, bool) {
		if tk, ok := x.(ktok); ok {
			for _, k := range []string{"Error", "ErrNaN", "other", "string"} {
				if strings.HasPrefix(tk.name, "P:") && strings.HasSuffix(tk.name, ":"+k) {
					ki := w.panicVal(k, "").(kiface)
					if types.IsInterface(t) {
						return kiface{ki.t, tk}, true, types.Implements(ki.t, t.Underlying().(*types.Interface))
					}
					return tk, true, types.Identical(ki.t, t)
				}
			}
		}
		return nil, false, false
	}
	in.onGo = func(run func()) {
		defer func() {
			if e := recover(); e != nil {
				if pv, ok := e.(absPanic); ok {
					w.ev("crash %s", w.m.term(pv.v))
					panic(e)
				}
				panic(e)
			}
		}()
		run()
	}
	in.onLen = func(x av) (av, bool) {
		if t, ok := x.(ktok); ok && strings.HasPrefix(t.name, "text(") {
			return iconst(5), true
		}
		return nil, false
	}
	in.onCall = w.hook
	p.setCounters(in)
	p.setDebugFlagsGlobal(in)
	return in
}

// setCounters gives the numeric variables of the module's packages that are not constant the
// values they start with.
func (p *Prog) setCounters(in *interp) {
	if in.globals == nil {
		in.globals = map[*ssa.Global]*obj{}
	}
	for _, rel := range []string{"parse", "run", "exec", "scan"} {
		sp := p.spkg[rel]
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				continue
			}
			o := newObj(t)
			o.val = zeroAV(t)
			for _, st := range p.storesToGlobal(g) {
				if st.Parent() == sp.Func("init") {
					if c, ok := st.Val.(*ssa.Const); ok {
						o.val = kconst{c.Value}
					} else {
						o.val = kunknown{}
					}
				}
			}
			in.globals[g] = o
		}
	}
}

func constString(a av) (string, bool) {
	if k, ok := a.(kconst); ok && k.v != nil && k.v.Kind().String() == "String" {
		return strings.Trim(k.v.ExactString(), `"`), true
	}
	return "", false
}

// isCounter: the field is counted both up and down.
func (p *Prog) isCounter(n *types.Named, field int) bool {
	up, down := false, false
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field || !sameNamed(fa.X.Type(), n) {
					continue
				}
				bo, ok := st.Val.(*ssa.BinOp)
				if !ok {
					continue
				}
				ld, ok := bo.X.(*ssa.UnOp)
				if !ok {
					continue
				}
				if fb, ok := ld.X.(*ssa.FieldAddr); !ok || fb.Field != field {
					continue
				}
				if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "1" {
					up = up || bo.Op == token.ADD
					down = down || bo.Op == token.SUB
				}
			}
		}
	}
	return up && down
}

func (w *runWorld) context(conf av) av {
	p := w.p
	ctxN, cfgN := p.namedType("exec", "Context"), p.namedType("config", "Config")
	ctx := newObj(ctxN)
	setField(ctx, ctxN, func(f *types.Var) bool {
		pt, ok := f.Type().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), cfgN)
	}, conf)
	for i, k := range ctx.kids {
		if _, ok := ctxN.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Map); ok {
			k.val = kmap{&amap{m: map[string]av{}, keys: map[string]av{}, unk: true}}
		}
	}
	return kptr{ctx}
}

// setTokens gives the parser the tokens of a line.
func (w *runWorld) setTokens(ps *obj, toks []tokSpec) {
	p := w.p
	tokN, parserN := p.namedType("scan", "Token"), p.namedType("parse", "Parser")
	arr := &obj{elem: types.NewArray(tokN, int64(len(toks))), kids: []*obj{}}
	for _, t := range toks {
		arr.kids = append(arr.kids, w.token(t))
	}
	setField(ps, parserN, func(f *types.Var) bool {
		sl, ok := f.Type().(*types.Slice)
		return ok && types.Identical(sl.Elem(), tokN)
	}, kslice{arr: arr, lo: 0, hi: len(arr.kids)})
}

func (w *runWorld) token(t tokSpec) *obj {
	tokN := w.p.namedType("scan", "Token")
	to := newObj(tokN)
	st := tokN.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Type":
			to.kids[i].val = iconst(w.p.scanType(t.typ))
		case "Text":
			to.kids[i].val = sconst(t.text)
		}
	}
	return to
}

// newParser makes a parser for the named input.
func (w *runWorld) newParser(name av, ctx av) av {
	np := w.p.fn("parse", "NewParser")
	return w.in.call(np, []av{name, ktok{"SCANNER"}, kiface{types.NewPointer(w.p.namedType("exec", "Context")), ctx}}, nil)
}

// line plays the next line of the parser's script.
func (w *runWorld) line(in *interp, ps *obj) av {
	name := w.names[ps]
	sc := w.scripts[name]
	n := w.pos[ps]
	w.pos[ps]++
	w.ev("line %s", name)
	if n >= len(sc) {
		if n > len(sc)+3 {
			in.abort("the input of %q is read on and on after its end", name)
		}
		w.ev("end %s", name)
		return ktuple{[]av{kconst{nil}, bconst(false)}}
	}
	l := sc[n]
	w.nlines++
	tag := fmt.Sprintf("%d", w.nlines)
	if l.fail == "line" {
		w.raise(l.kind, tag)
	}
	if l.get != "" {
		w.setTokens(ps, []tokSpec{{"RightParen", ")"}, {"Identifier", "get"}, {"String", l.get}})
		in.call(w.p.method("parse", "Parser", "special"), []av{kptr{ps}}, nil)
		w.ev("after get")
		return ktuple{[]av{kconst{nil}, bconst(true)}}
	}
	if l.vals == "-" {
		return ktuple{[]av{kconst{nil}, bconst(true)}}
	}
	et := w.p.namedType("value", "Expr")
	arr := &obj{elem: types.NewArray(et, int64(len(l.vals))), kids: []*obj{}}
	for i := range l.vals {
		k := newObj(et)
		t := fmt.Sprintf("E%s.%d", tag, i)
		w.tag[t] = l
		k.val = ktok{t}
		arr.kids = append(arr.kids, k)
	}
	return ktuple{[]av{kslice{arr, 0, len(arr.kids)}, bconst(true)}}
}

func (w *runWorld) hook(in *interp, callee *ssa.Function, mt *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
	p := w.p
	name := ""
	if callee != nil {
		name = callee.Name()
	} else if mt != nil {
		name = mt.Name()
	}
	// Expressions and values.
	if len(args) > 0 && mt != nil || callee != nil && callee.Signature.Recv() != nil {
		t := w.m.term(args[0])
		switch name {
		case "Eval":
			l, ok := w.tag[t]
			if !ok {
				break
			}
			i := t[strings.IndexByte(t, '.')+1:]
			tag := t[1:strings.IndexByte(t, '.')]
			w.ev("eval %s", t)
			if l.fail == "eval"+i {
				w.raise(l.kind, tag)
			}
			v := "V" + t[1:]
			w.tag[v] = l
			k := int(i[0] - '0')
			var val av = kiface{p.namedType("value", "Int"), ktok{v}}
			switch l.vals[k] {
			case 'n':
				return kconst{nil}, true
			case 'q':
				return kiface{p.namedType("value", "QuietValue"), kstruct{[]av{val}}}, true
			}
			return val, true
		case "Sprint":
			v := strings.Trim(t, "{}")
			l, ok := w.tag[v]
			if !ok {
				break
			}
			w.ev("sprint %s", v)
			if l.fail == "sprint"+v[strings.IndexByte(v, '.')+1:] {
				w.raise(l.kind, v[1:strings.IndexByte(v, '.')])
			}
			return ktok{"text(" + v + ")"}, true
		case "ReadByte":
			if w.scanning {
				// The next line, one character long.
				w.ev("read")
				w.reads++
				if w.reads > 1 {
					return ktuple{[]av{iconst('\n'), kconst{nil}}}, true
				}
				return ktuple{[]av{iconst('x'), kconst{nil}}}, true
			}
		case "Write", "WriteString":
			if wr := w.writer(args[0]); wr == "OUT" || wr == "ERR" {
				w.ev("%s %s", wr, w.terms(args[1:]))
				return ktuple{[]av{kunknown{}, kconst{nil}}}, true
			}
		case "Inner":
			if ki, ok := args[0].(kiface); ok {
				if st, ok := ki.v.(kstruct); ok {
					return st.f[0], true
				}
				return ki, true
			}
		case "Error", "String":
			if strings.HasPrefix(t, "P:") || strings.HasPrefix(t, "fmt") {
				return ktok{t}, true
			}
		}
	}
	if callee == nil {
		if mt != nil && name == "AssignGlobal" {
			return kunknown{}, false
		}
		return nil, false
	}
	recv := recvName(callee)
	switch relPkg(callee) {
	case "value":
		switch {
		case recv == "" && name == "Errorf":
			w.ev("fail Error raised")
			panic(absPanic{w.panicVal("Error", "P:raised("+w.terms(args)+")")})
		case recv == "" && name == "ParseString":
			if s, ok := constString(args[len(args)-1]); ok {
				return ktok{s}, true
			}
			return ktok{"S"}, true
		case recv == "" && name == "NewIntVector":
			return ktok{"emptyVector"}, true
		}
	case "config":
		switch name {
		case "Output":
			return ktok{"OUT"}, true
		case "ErrOutput":
			return ktok{"ERR"}, true
		case "Debug":
			if s, ok := constString(args[1]); ok && s == "panic" {
				if w.debug {
					return iconst(1), true
				}
				return iconst(0), true
			}
			if w.flags {
				return iconst(1), true
			}
			return iconst(0), true
		case "Prompt":
			return ktok{"prompt"}, true
		case "CPUTime":
			return ktuple{[]av{iconst(1), iconst(1), iconst(1)}}, true
		case "PrintCPUTime":
			return ktok{"cpu"}, true
		case "SetCPUTime", "SetOutput", "SetErrOutput", "SetRandomSeed":
			return kconst{nil}, true
		}
	case "exec":
		switch {
		case recv == "Context" && name == "AssignGlobal":
			w.ev("set %s %s", strings.Trim(w.m.term(args[1]), `"`), strings.Trim(w.m.term(args[2]), "{}"))
			return kconst{nil}, true
		case recv == "Context" && name == "SetConstants":
			return kconst{nil}, true
		case recv == "" && name == "NewContext":
			return kiface{types.NewPointer(p.namedType("exec", "Context")), w.context(args[0])}, true
		}
	case "scan":
		switch {
		case recv == "" && name == "New":
			return ktok{"SCANNER"}, true
		case recv == "Scanner" && name == "Next" && !w.scanning:
			if len(w.next) == 0 {
				in.abort("the scanner is read too far")
			}
			t := w.next[0]
			w.next = w.next[1:]
			return in.load(w.token(t)), true
		}
	case "parse":
		switch {
		case recv == "" && name == "NewParser":
			v := in.call(callee, args, nil)
			if pt, ok := v.(kptr); ok {
				n := strings.Trim(w.m.term(args[0]), `"`)
				w.names[pt.o] = n
			}
			return v, true
		case recv == "Parser" && name == "Line":
			if pt, ok := args[0].(kptr); ok && pt.o != nil {
				return w.line(in, pt.o), true
			}
		}
	}
	switch relTo(callee) {
	case "fmt":
		switch {
		case strings.HasPrefix(name, "Fprint"):
			w.ev("%s %s", w.writer(args[0]), w.terms(args[1:]))
			return ktuple{[]av{kunknown{}, kconst{nil}}}, true
		case strings.HasPrefix(name, "Print"):
			w.ev("other writer stdout %s", w.terms(args))
			return ktuple{[]av{kunknown{}, kconst{nil}}}, true
		case strings.HasPrefix(name, "Sprint"):
			return ktok{"fmt(" + w.terms(args) + ")"}, true
		case name == "Errorf":
			return kiface{types.NewPointer(w.p.otherType("io/fs", "PathError")), ktok{"fmt(" + w.terms(args) + ")"}}, true
		}
	case "io":
		if name == "WriteString" {
			w.ev("%s %s", w.writer(args[0]), w.terms(args[1:]))
			return ktuple{[]av{kunknown{}, kconst{nil}}}, true
		}
	case "os":
		switch {
		case recv == "" && (name == "Open" || name == "OpenFile"):
			if w.openErr {
				w.ev("open fails")
				return ktuple{[]av{kconst{nil}, kiface{types.NewPointer(w.p.otherType("io/fs", "PathError")), ktok{"OPENERR"}}}}, true
			}
			w.nopen++
			w.ev("open FD%d", w.nopen)
			if w.nopen > 60 {
				in.abort("files get one another without end")
			}
			return ktuple{[]av{ktok{fmt.Sprintf("FD%d", w.nopen)}, kconst{nil}}}, true
		case recv == "File" && name == "Close":
			w.ev("close %s", w.m.term(args[0]))
			return kconst{nil}, true
		case recv == "" && in2(name, "Exit"):
			w.ev("exit")
			panic(absPanic{w.panicVal("string", "P:exit")})
		}
	}
	if v, ok := w.m.call(in, callee, mt, args); ok {
		return v, true
	}
	return nil, false
}

type runTrace struct {
	loc     string // where errors are reported to be
	events  []string
	ret     string
	pval    string
	aborted string
}

// play runs f in a fresh world under all decisions and returns the traces.
func (p *Prog) play(setup func(w *runWorld), f func(w *runWorld) av) []runTrace {
	var w *runWorld
	var out []runTrace
	res := explore(p, func() *interp {
		if w != nil {
			out = append(out, runTrace{events: w.events})
		}
		w = &runWorld{p: p, m: newModel(p), scripts: map[string][]lineSpec{}, pos: map[*obj]int{}, names: map[*obj]string{}, tag: map[string]lineSpec{}}
		setup(w)
		in := w.interp()
		return in
	}, func(in *interp) av {
		cw := &confWorld{p: p, m: w.m, flagVal: -1}
		w.conf = cw.newConf(false)
		// A count of what is in progress starts at zero.
		cn := p.namedType("config", "Config")
		for i := range w.conf.kids {
			if p.isCounter(cn, i) {
				w.conf.kids[i].val = iconst(0)
			}
		}
		return f(w)
	}, 300)
	out = append(out, runTrace{events: w.events})
	for i, o := range res {
		if i >= len(out) {
			out = append(out, runTrace{})
		}
		t := &out[i]
		t.aborted = o.aborted
		if o.panicked {
			t.pval = w.m.term(o.pval)
			if ki, ok := o.pval.(kiface); ok {
				t.pval = w.m.term(ki.v)
			}
		} else if o.ret != nil {
			t.ret = w.m.term(o.ret)
		}
	}
	return out
}

func find(ev []string, pred func(string) bool) (at []int) {
	for i, e := range ev {
		if pred(e) {
			at = append(at, i)
		}
	}
	return at
}

func has(ev []string, s string) bool {
	return len(find(ev, func(e string) bool { return e == s })) > 0
}

// checkLines checks a trace against a script of the given input: the lines are evaluated in order
// up to the first failure, everything printable is printed once and in order, _ is set as it should
// be, and the failure is handled as said. It returns the first problem, or "".
func checkLines(sc []lineSpec, first int, t runTrace, debug bool) string {
	var wantEval, wantText []string
	failTag := ""
	kind := ""
	lastV := ""
	for i, l := range sc {
		tag := fmt.Sprint(first + i)
		if l.fail == "line" {
			failTag, kind = tag, l.kind
			break
		}
		if l.vals == "-" {
			continue
		}
		done := false
		var vs []string
		for k, c := range l.vals {
			wantEval = append(wantEval, fmt.Sprintf("E%s.%d", tag, k))
			if l.fail == fmt.Sprintf("eval%d", k) {
				failTag, kind, done = tag, l.kind, true
				break
			}
			if c == 'v' {
				if l.fail == fmt.Sprintf("sprint%d", k) {
					failTag, kind, done = tag, l.kind, true
					// Others of the line may or may not have been evaluated.
					break
				}
				vs = append(vs, fmt.Sprintf("V%s.%d", tag, k))
			}
		}
		if done {
			break
		}
		wantText = append(wantText, vs...)
		if len(vs) > 0 {
			lastV = vs[len(vs)-1]
		}
	}
	failAt := len(t.events)
	if failTag != "" {
		at := find(t.events, func(e string) bool { return strings.HasPrefix(e, "fail "+kind+" "+failTag) })
		if len(at) != 1 {
			return "the failing step is not reached exactly once"
		}
		failAt = at[0]
	}
	var evals, texts []string
	sets := ""
	for i, e := range t.events {
		if strings.HasPrefix(e, "eval ") {
			if i > failAt {
				return "an expression is evaluated after the error"
			}
			evals = append(evals, e[5:])
		}
		if strings.HasPrefix(e, "line ") && i > failAt {
			return "the next line is read before the error is dealt with"
		}
		if strings.HasPrefix(e, "set ") {
			f := strings.Fields(e)
			if f[1] != "_" {
				return "variable " + f[1] + " is set"
			}
			if i > failAt {
				return "_ is set after the error"
			}
			sets = f[2]
		}
		for j := 0; ; {
			k := strings.Index(e[j:], "text(")
			if k < 0 {
				break
			}
			if !strings.HasPrefix(e, "OUT ") {
				return "a result is written to something other than the output: " + e
			}
			if i > failAt {
				return "a result is printed after the error"
			}
			s := e[j+k+5:]
			texts = append(texts, s[:strings.IndexByte(s, ')')])
			j += k + 5
		}
	}
	// All evaluations up to the failure, in order (a failing print may come before or after the
	// evaluation of the line's later expressions).
	for i, e := range wantEval {
		if i >= len(evals) || evals[i] != e {
			return fmt.Sprintf("expressions evaluated are %v, not %v", evals, wantEval)
		}
	}
	if len(evals) > len(wantEval) {
		for _, e := range evals[len(wantEval):] {
			if failTag == "" || !strings.HasPrefix(e, "E"+failTag+".") {
				return fmt.Sprintf("expressions evaluated are %v, not %v", evals, wantEval)
			}
		}
	}
	if len(texts) < len(wantText) {
		return fmt.Sprintf("results printed are %v, not %v", texts, wantText)
	}
	for i, x := range texts {
		if i < len(wantText) {
			if x != wantText[i] {
				return fmt.Sprintf("results printed are %v, not %v", texts, wantText)
			}
			continue
		}
		// Results of the failing line printed before the failure.
		if failTag == "" || !strings.HasPrefix(x, "V"+failTag+".") {
			return fmt.Sprintf("results printed are %v, not %v", texts, wantText)
		}
	}
	if failTag == "" && sets != lastV {
		return fmt.Sprintf("_ is %q afterwards, not %q", sets, lastV)
	}
	if failTag != "" && sets != lastV && !strings.HasPrefix(sets, "V"+failTag+".") {
		return fmt.Sprintf("_ is %q at the error, not %q", sets, lastV)
	}
	return checkReport(t, failTag, kind, debug)
}

// checkReport: the error is reported once with its location, on the error output.
func checkReport(t runTrace, failTag, kind string, debug bool) string {
	at := find(t.events, func(e string) bool {
		return (strings.HasPrefix(e, "OUT ") || strings.HasPrefix(e, "ERR ") || strings.HasPrefix(e, "other")) && strings.Contains(e, "P:")
	})
	errs := find(t.events, func(e string) bool { return strings.HasPrefix(e, "ERR ") || strings.HasPrefix(e, "other") })
	if failTag == "" {
		if len(errs) > 0 {
			return "something is reported though nothing failed: " + t.events[errs[0]]
		}
		if t.pval != "" {
			return "it panics though nothing failed: " + t.pval
		}
		return ""
	}
	if kind == "Error" || kind == "ErrNaN" {
		if debug {
			if !strings.Contains(t.pval, "P:"+failTag+":") {
				return "with )debug panic the panic does not come through"
			}
			return ""
		}
		if t.pval != "" {
			return "the error is raised again: " + t.pval
		}
		if len(at) != 1 {
			return fmt.Sprintf("the error is reported %d times", len(at))
		}
		if !strings.HasPrefix(t.events[at[0]], "ERR ") || !strings.Contains(t.events[at[0]], "P:"+failTag+":") {
			return "the report is not of the error, or not on the error output: " + t.events[at[0]]
		}
		loc := false
		for _, e := range t.events[:at[0]+1] {
			if strings.HasPrefix(e, "ERR ") && strings.Contains(e, "FILE") && strings.Contains(e, t.loc) {
				loc = true
			}
		}
		if !loc {
			return "the report does not say where the error is: " + t.events[at[0]]
		}
		return ""
	}
	if !strings.Contains(t.pval, "P:"+failTag+":") {
		return "a panic that is not an error of ivy's does not come through"
	}
	return ""
}

func describe(sc []lineSpec) string {
	var s []string
	for _, l := range sc {
		x := l.vals
		if l.get != "" {
			x = ")get " + l.get
		}
		if l.fail != "" {
			x += "!" + l.fail + ":" + l.kind
		}
		s = append(s, x)
	}
	return strings.Join(s, " / ")
}

// Scripts with at most one failure.
func failScripts() [][]lineSpec {
	out := [][]lineSpec{
		{}, {{vals: "v"}}, {{vals: "vv"}}, {{vals: "q"}}, {{vals: "vq"}}, {{vals: "qv"}}, {{vals: "nv"}},
		{{vals: "-"}, {vals: "v"}}, {{vals: "v"}, {vals: "-"}}, {{vals: "v"}, {vals: "q"}}, {{vals: "v"}, {vals: "vqv"}, {vals: "q"}}, {{vals: "vvqvv"}, {vals: "v"}},
	}
	for _, k := range []string{"Error", "ErrNaN", "other", "string"} {
		out = append(out,
			[]lineSpec{{fail: "line", kind: k}, {vals: "v"}},
			[]lineSpec{{vals: "v"}, {fail: "line", kind: k}, {vals: "v"}},
			[]lineSpec{{vals: "v", fail: "eval0", kind: k}, {vals: "v"}},
			[]lineSpec{{vals: "v"}, {vals: "vvv", fail: "eval1", kind: k}, {vals: "v"}},
			[]lineSpec{{vals: "q"}, {vals: "vv", fail: "sprint0", kind: k}, {vals: "v"}},
			[]lineSpec{{vals: "v"}, {vals: "vqv", fail: "sprint2", kind: k}, {vals: "v"}},
		)
	}
	return out
}

func failing(sc []lineSpec) (i int, kind string) {
	for i, l := range sc {
		if l.fail != "" {
			return i, l.kind
		}
	}
	return -1, ""
}

func checkC03(p *Prog, r *Report) {
	r.rule("lines", "run.Run, over scripts of lines in which reading, evaluating or printing fails in any way, evaluates lines in order, prints each printable result once in order, sets _ to the last one printed, and on an error reports it once with its location on the error output and stops there with false; other panics come through unchanged", 100)
	r.rule("next", "calling Run again after an error goes on with the following line, and true is returned only at the end of the input", 10)
	r.rule("get", "an error in a file read by )get is reported once and ends only that file: the files are closed, the session goes on with its next line; other panics come through", 30)
	r.rule("nest", "files that get one another without end stop with one error, and neither that nor any number of failing files affects later )get commands", 5)
	r.rule("demo", "in the demo an error is reported once and the next line is run", 10)
	r.rule("ivy", "an error inside the text evaluated by ivy is not swallowed or reported there but ends the statement that evaluates it; all values but the last are printed in order and the last is returned", 10)
	r.rule("callers", "every caller of Run either returns its result or calls it again, with the same parser, until it succeeds", 3)
	r.rule("fresh line", "the parser starts every line with no tokens left from the line before, and the scanner drops the rest of a line it cannot scan", 4)

	run := p.fn("run", "Run")
	special := p.method("parse", "Parser", "special")
	ivyEval := p.fn("run", "IvyEval")
	if run == nil || special == nil || ivyEval == nil || p.fn("parse", "NewParser") == nil || p.method("parse", "Parser", "Line") == nil {
		r.missing("lines", "run.Run, run.IvyEval, parse.NewParser, Parser.Line or Parser.special")
		return
	}
	ctxT := types.NewPointer(p.namedType("exec", "Context"))
	start := func(w *runWorld) (av, av) {
		ctx := w.context(kptr{w.conf})
		ps := w.newParser(ktok{"FILE"}, ctx)
		w.names[ps.(kptr).o] = "FILE"
		return ps, kiface{ctxT, ctx}
	}
	report := func(rule, what string, pos token.Pos, ts []runTrace, judge func(t runTrace) string) {
		for _, t := range ts {
			bad := ""
			if t.aborted != "" {
				bad = "not decided: " + t.aborted
			} else {
				bad = judge(t)
			}
			if bad != "" {
				r.bad(rule, what, pos, "%s (trace: %s)", bad, strings.Join(t.events, "; "))
				return
			}
		}
		r.ok(rule, what, pos, "%d paths", len(ts))
	}
	// Run.
	for _, sc := range failScripts() {
		sc := sc
		fi, kind := failing(sc)
		for _, inter := range []bool{false, true} {
			for _, debug := range []bool{false, true} {
				if debug && fi < 0 {
					continue
				}
				inter, debug := inter, debug
				what := fmt.Sprintf("run.Run on %s", describe(sc))
				if inter {
					what += " interactively"
				}
				if debug {
					what += " with )debug panic"
				}
				ts := p.play(func(w *runWorld) { w.scripts["FILE"] = sc; w.debug = debug; w.flags = inter && !debug }, func(w *runWorld) av {
					ps, ctx := start(w)
					return w.in.call(run, []av{ps, ctx, bconst(inter)}, nil)
				})
				report("lines", what, run.Pos(), ts, func(t runTrace) string {
					if s := checkLines(sc, 1, t, debug); s != "" {
						return s
					}
					want := "true"
					if fi >= 0 {
						want = "false"
					}
					if t.pval == "" && t.ret != want {
						return "it returns " + t.ret + ", not " + want
					}
					if n := len(find(t.events, func(e string) bool { return strings.HasPrefix(e, "line ") })); fi >= 0 && n != fi+1 || fi < 0 && n != len(sc)+1 {
						return fmt.Sprintf("%d lines are read", n)
					}
					return ""
				})
			}
		}
		if fi >= 0 && (kind == "Error" || kind == "ErrNaN") {
			ts := p.play(func(w *runWorld) { w.scripts["FILE"] = sc }, func(w *runWorld) av {
				ps, ctx := start(w)
				a := w.in.call(run, []av{ps, ctx, bconst(false)}, nil)
				w.ev("again")
				b := w.in.call(run, []av{ps, ctx, bconst(false)}, nil)
				return ktuple{[]av{a, b}}
			})
			report("next", fmt.Sprintf("run.Run twice on %s", describe(sc)), run.Pos(), ts, func(t runTrace) string {
				at := find(t.events, func(e string) bool { return e == "again" })
				if len(at) != 1 {
					return "the first call does not return"
				}
				if t.ret != "(false,true)" && t.ret != "{false,true}" && !strings.Contains(t.ret, "false") {
					return "results are " + t.ret
				}
				rest := runTrace{events: t.events[at[0]:]}
				return checkLines(sc[fi+1:], fi+2, rest, false)
			})
		}
	}
	// )get from a session.
	for _, sc := range failScripts() {
		sc := sc
		fi, kind := failing(sc)
		ts := p.play(func(w *runWorld) {
			w.scripts["FILE"] = []lineSpec{{get: "FILE2"}, {vals: "v"}}
			w.scripts["FILE2"] = sc
		}, func(w *runWorld) av {
			ps, ctx := start(w)
			return w.in.call(run, []av{ps, ctx, bconst(false)}, nil)
		})
		report("get", fmt.Sprintf(")get of %s", describe(sc)), special.Pos(), ts, func(t runTrace) string {
			if s := balanced(t.events); s != "" {
				return s
			}
			if len(find(t.events, func(e string) bool { return strings.HasPrefix(e, "open ") })) != 1 {
				return "the file is not opened once"
			}
			at := find(t.events, func(e string) bool { return e == "after get" })
			sub := t
			if len(at) > 0 {
				sub.events = t.events[:at[0]]
			}
			// The )get line is line 1.
			var ev []string
			for _, e := range sub.events {
				if e != "line FILE" {
					ev = append(ev, e)
				}
			}
			sub.events, sub.loc = ev, "FILE2"
			if s := checkLines(sc, 2, sub, false); s != "" {
				return s
			}
			if fi >= 0 && kind != "Error" && kind != "ErrNaN" {
				return ""
			}
			if len(at) != 1 {
				return "the session does not go on"
			}
			if t.ret != "true" {
				return "Run returns " + t.ret
			}
			n := len(sc) + 2
			if fi >= 0 {
				n = fi + 3
			}
			return checkLines([]lineSpec{{vals: "v"}}, n, runTrace{events: t.events[at[0]:]}, false)
		})
	}
	// A file that cannot be opened.
	ts := p.play(func(w *runWorld) {
		w.scripts["FILE"] = []lineSpec{{get: "FILE2"}, {vals: "v"}}
		w.openErr = true
	}, func(w *runWorld) av {
		ps, ctx := start(w)
		a := w.in.call(run, []av{ps, ctx, bconst(false)}, nil)
		w.ev("again")
		w.in.call(run, []av{ps, ctx, bconst(false)}, nil)
		return a
	})
	report("get", ")get of a file that cannot be opened", special.Pos(), ts, func(t runTrace) string {
		at := find(t.events, func(e string) bool { return strings.HasPrefix(e, "ERR ") && strings.Contains(e, "OPENERR") })
		if len(at) != 1 {
			return fmt.Sprintf("reported %d times", len(at))
		}
		if len(find(t.events, func(e string) bool { return strings.HasPrefix(e, "line FILE2") })) > 0 {
			return "it is read"
		}
		again := find(t.events, func(e string) bool { return e == "again" })
		if len(again) != 1 || t.ret != "false" {
			return "Run does not return false"
		}
		return checkLines([]lineSpec{{vals: "v"}}, 2, runTrace{events: t.events[again[0]:]}, false)
	})
	// Files without end.
	nested := func(sc map[string][]lineSpec) []runTrace {
		return p.play(func(w *runWorld) {
			for k, v := range sc {
				w.scripts[k] = v
			}
		}, func(w *runWorld) av {
			ps, ctx := start(w)
			for i := 0; i < 20; i++ {
				if v := w.in.call(run, []av{ps, ctx, bconst(false)}, nil); w.m.term(v) != "false" {
					return v
				}
			}
			return kconst{nil}
		})
	}
	loop := map[string][]lineSpec{
		"FILE":  {{get: "FILE2"}, {get: "FILE2"}, {get: "FILE2"}, {get: "FILE3"}, {vals: "v"}},
		"FILE2": {{get: "FILE2"}},
		"FILE3": {{get: "FILE4"}, {vals: "v"}},
		"FILE4": {{vals: "v"}},
	}
	report("nest", "a file that gets itself, three times, then one that gets another", special.Pos(), nested(loop), func(t runTrace) string {
		if s := balanced(t.events); s != "" {
			return s
		}
		at := find(t.events, func(e string) bool { return strings.HasPrefix(e, "ERR ") && strings.Contains(e, "P:raised") })
		if len(at) != 3 {
			return fmt.Sprintf("%d errors for three loops", len(at))
		}
		opens := 0
		var per []int
		for _, e := range t.events {
			switch {
			case strings.HasPrefix(e, "open "):
				opens++
			case e == "line FILE":
				per = append(per, opens)
				opens = 0
			}
		}
		if len(per) < 4 || per[1] != per[2] || per[2] != per[3] {
			return fmt.Sprintf("the depth allowed changes: %v", per)
		}
		n := len(find(t.events, func(e string) bool { return strings.HasPrefix(e, "OUT ") && strings.Contains(e, "text(") }))
		if n != 3 {
			return fmt.Sprintf("%d of the 3 results after the loops are printed", n)
		}
		return ""
	})
	for _, k := range []string{"Error", "ErrNaN"} {
		for _, f := range []string{"line", "eval0", "sprint0"} {
			sc := map[string][]lineSpec{
				"FILE2": {{vals: "v", fail: f, kind: k}},
				"FILE3": {{get: "FILE4"}},
				"FILE4": {{vals: "v"}},
			}
			for i := 0; i < 12; i++ {
				sc["FILE"] = append(sc["FILE"], lineSpec{get: "FILE2"})
			}
			sc["FILE"] = append(sc["FILE"], lineSpec{get: "FILE3"})
			report("nest", fmt.Sprintf("twelve files failing with %s:%s, then one that gets another", f, k), special.Pos(), nested(sc), func(t runTrace) string {
				if s := balanced(t.events); s != "" {
					return s
				}
				n := len(find(t.events, func(e string) bool { return strings.HasPrefix(e, "OUT ") && strings.Contains(e, "text(") }))
				if n != 1 {
					return "the last file's result is not printed"
				}
				at := find(t.events, func(e string) bool { return strings.HasPrefix(e, "ERR ") && strings.Contains(e, "P:") })
				if len(at) != 12 {
					return fmt.Sprintf("%d reports for 12 errors", len(at))
				}
				return ""
			})
		}
	}
	// The demo.
	if demo := p.fn("parse", "DemoRunner"); demo != nil {
		for _, sc := range failScripts() {
			sc := sc
			fi, kind := failing(sc)
			ts := p.play(func(w *runWorld) { w.scripts["demo"] = sc }, func(w *runWorld) av {
				return w.in.call(demo, []av{ktok{"IN"}, ktok{"OUT"}}, nil)
			})
			report("demo", fmt.Sprintf("parse.DemoRunner on %s", describe(sc)), demo.Pos(), ts, func(t runTrace) string {
				for i, e := range t.events {
					t.events[i] = strings.ReplaceAll(e, "demo", "FILE")
				}
				if fi < 0 {
					return checkLines(sc, 1, t, false)
				}
				at := find(t.events, func(e string) bool { return e == "line FILE" })
				if kind != "Error" && kind != "ErrNaN" {
					return checkLines(sc, 1, t, false)
				}
				if len(at) < fi+2 {
					return "the next line is not run"
				}
				if s := checkLines(sc, 1, runTrace{events: t.events[:at[fi+1]]}, false); s != "" {
					return s
				}
				return checkLines(sc[fi+1:], fi+2, runTrace{events: t.events[at[fi+1]:], pval: t.pval}, false)
			})
		}
	} else {
		r.missing("demo", "parse.DemoRunner")
	}
	// ivy "text".
	for _, sc := range failScripts() {
		sc := sc
		blank := false
		for _, l := range sc {
			if strings.ContainsAny(l.vals, "-n") {
				blank = true
			}
		}
		fi, kind := failing(sc)
		if blank || strings.HasPrefix(describeFail(sc), "sprint") {
			continue
		}
		ts := p.play(func(w *runWorld) { w.scripts["<ivy>"] = sc }, func(w *runWorld) av {
			_, ctx := start(w)
			return w.in.call(ivyEval, []av{ctx, ktok{"TEXT"}}, nil)
		})
		report("ivy", fmt.Sprintf("run.IvyEval on %s", describe(sc)), ivyEval.Pos(), ts, func(t runTrace) string {
			for _, e := range t.events {
				if strings.HasPrefix(e, "ERR ") || strings.HasPrefix(e, "other") {
					return "something is reported: " + e
				}
				if strings.HasPrefix(e, "set ") {
					return "a variable is set: " + e
				}
			}
			if fi >= 0 {
				if !strings.Contains(t.pval, fmt.Sprintf("P:%d:%s", fi+1, kind)) {
					return "the panic does not come through: " + t.pval
				}
				return ""
			}
			if t.pval != "" {
				return "it panics: " + t.pval
			}
			var want []string
			last := ""
			for i, l := range sc {
				for k, c := range l.vals {
					v := fmt.Sprintf("V%d.%d", i+1, k)
					if i == len(sc)-1 && k == len(l.vals)-1 {
						last = v
					} else if c == 'v' {
						want = append(want, v)
					}
				}
			}
			if last == "" {
				last = "emptyVector"
			}
			if strings.Trim(t.ret, "{}") != last {
				return "it returns " + t.ret + ", not " + last
			}
			var got []string
			for _, e := range t.events {
				for strings.HasPrefix(e, "OUT ") && strings.Contains(e, "text(") {
					e2 := e[strings.Index(e, "text(")+5:]
					got = append(got, e2[:strings.IndexByte(e2, ')')])
					e = "OUT " + e2
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("it prints %v, not %v", got, want)
			}
			return ""
		})
	}
	p.runCallers(r, run)
	p.freshLines(r)
}

func describeFail(sc []lineSpec) string {
	for _, l := range sc {
		if l.fail != "" {
			return l.fail
		}
	}
	return ""
}

// balanced: every file opened is closed once, after its use.
func balanced(ev []string) string {
	open := map[string]bool{}
	for _, e := range ev {
		if strings.HasPrefix(e, "open FD") {
			open[e[5:]] = true
		}
		if strings.HasPrefix(e, "close ") {
			if !open[e[6:]] {
				return "a file is closed that is not open: " + e
			}
			delete(open, e[6:])
		}
	}
	if len(open) > 0 {
		return fmt.Sprintf("%d files are left open", len(open))
	}
	return ""
}

// runCallers: what becomes of Run's result.
func (p *Prog) runCallers(r *Report, run *ssa.Function) {
	for _, s := range p.callSites(run) {
		f := s.Parent()
		if !p.inModule(f) {
			continue
		}
		c, ok := s.(*ssa.Call)
		what := "call of Run in " + fname(f)
		if !ok {
			r.bad("callers", what, s.Pos(), "its result is dropped")
			continue
		}
		if c.Referrers() == nil || len(*c.Referrers()) == 0 {
			r.bad("callers", what, c.Pos(), "its result is dropped")
			continue
		}
		good := ""
		bad := ""
		for _, ref := range *c.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Return:
				good = "returned"
			default:
				_ = x
				if g, why := p.loopsUntilTrue(c); g {
					good = "run again until it succeeds"
				} else {
					bad = why
				}
			}
		}
		if bad != "" && good == "" {
			r.bad("callers", what, c.Pos(), "%s", bad)
		} else {
			r.ok("callers", what, c.Pos(), "its result is %s", good)
		}
	}
}

// loopsUntilTrue: after the call yields false the only way on is to call again, with the same
// parser, and after true it is not called again.
func (p *Prog) loopsUntilTrue(c *ssa.Call) (bool, string) {
	f := c.Parent()
	b := c.Block()
	g := p.cfg(f)
	var iff *ssa.If
	neg := false
	seen := map[*ssa.BasicBlock]bool{}
	for bl := b; ; {
		last := bl.Instrs[len(bl.Instrs)-1]
		if x, ok := last.(*ssa.If); ok {
			v := x.Cond
			for {
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
					neg = !neg
					v = u.X
					continue
				}
				break
			}
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				if k, ok2 := bo.Y.(*ssa.Const); ok2 && k.Value != nil {
					if (k.Value.String() == "false") == (bo.Op == token.EQL) {
						neg = !neg
					}
					v = bo.X
				}
			}
			if v != ssa.Value(c) {
				return false, "what happens next does not depend on its result"
			}
			iff = x
			break
		}
		if len(bl.Succs) != 1 || seen[bl] {
			return false, "what happens next does not depend on its result"
		}
		seen[bl] = true
		bl = bl.Succs[0]
	}
	onFalse, onTrue := iff.Block().Succs[1], iff.Block().Succs[0]
	if neg {
		onFalse, onTrue = onTrue, onFalse
	}
	// From onFalse every path reaches the call.
	visited := map[*ssa.BasicBlock]bool{}
	var must func(bl *ssa.BasicBlock) bool
	must = func(bl *ssa.BasicBlock) bool {
		if bl == b {
			return true
		}
		if visited[bl] {
			return true
		}
		visited[bl] = true
		if len(g.succs[bl.Index]) == 0 {
			return false
		}
		for _, s := range g.succs[bl.Index] {
			if !must(s) {
				return false
			}
		}
		return true
	}
	if !must(onFalse) {
		return false, "after an error it is not called again"
	}
	if onTrue == b || len(onTrue.Instrs) > 0 && g.reachableFrom(onTrue.Instrs[0], c) {
		return false, "it is called again after the end of the input"
	}
	// The parser is made before the loop.
	if in, ok := c.Call.Args[0].(ssa.Instruction); ok {
		if in.Block() == b || visited[in.Block()] {
			if _, isLoad := in.(*ssa.UnOp); !isLoad {
				return false, "each call gets a new parser"
			}
		}
	}
	return true, ""
}

// freshLines: nothing of a line survives into the next.
func (p *Prog) freshLines(r *Report) {
	line := p.method("parse", "Parser", "Line")
	left := []tokSpec{{"RightParen", ")"}, {"Identifier", "get"}, {"String", "OLD"}}
	cases := []struct {
		what string
		next []tokSpec
		want string
	}{
		{"a blank line after one whose tokens were not all used", []tokSpec{{"Newline", "\n"}}, "(nil,true)"},
		{"the end of the input after a line whose tokens were not all used", []tokSpec{{"EOF", "EOF"}}, "(nil,false)"},
	}
	for _, c := range cases {
		c := c
		ts := p.play(func(w *runWorld) { w.next = c.next }, func(w *runWorld) av {
			ps := w.newParser(ktok{"FILE"}, w.context(kptr{w.conf}))
			w.setTokens(ps.(kptr).o, left)
			return w.in.call(line, []av{ps}, nil)
		})
		bad := ""
		for _, t := range ts {
			if t.aborted != "" {
				bad = "not decided: " + t.aborted
			} else if t.pval != "" {
				bad = "it panics: " + t.pval
			} else if t.ret != c.want {
				bad = "Line returns " + t.ret
			} else if len(t.events) > 0 {
				bad = "what was left is run: " + strings.Join(t.events, "; ")
			}
		}
		r.add("fresh line", c.what, line.Pos(), bad == "", "%s", bad)
	}
	// A token that cannot be scanned.
	ts := p.play(func(w *runWorld) {
		w.next = []tokSpec{{"RightParen", ")"}, {"Error", "bad"}, {"Newline", "\n"}}
	}, func(w *runWorld) av {
		ps := w.newParser(ktok{"FILE"}, w.context(kptr{w.conf}))
		func() {
			defer func() {
				if e := recover(); e != nil {
					pv, ok := e.(absPanic)
					if !ok {
						panic(e)
					}
					w.ev("raised %s", w.m.term(pv.v))
				}
			}()
			w.in.call(line, []av{ps}, nil)
		}()
		return w.in.call(line, []av{ps}, nil)
	})
	bad := ""
	for _, t := range ts {
		switch {
		case t.aborted != "":
			bad = "not decided: " + t.aborted
		case len(find(t.events, func(e string) bool { return strings.HasPrefix(e, "raised P:raised") })) != 1:
			bad = "a token that cannot be scanned is not an error"
		case t.ret != "(nil,true)":
			bad = "the next line is not read afresh: " + t.ret + t.pval
		}
	}
	r.add("fresh line", "a line with a token that cannot be scanned, then a blank line", line.Pos(), bad == "", "%s", bad)
	// The scanner: whatever makes an error token leaves nothing to scan, so that the next token
	// comes from a new line.
	scn := p.namedType("scan", "Scanner")
	rd := p.method("scan", "Scanner", "next")
	if scn == nil || rd == nil {
		r.missing("fresh line", "the scanner")
		return
	}
	errT := p.scanType("Error")
	tokN := p.namedType("scan", "Token")
	for _, f := range p.funcs {
		if relPkg(f) != "scan" || f.Signature.Recv() == nil || recvName(f) != "Scanner" {
			continue
		}
		makes := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						n, okc := constInt(st.Val)
						if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), tokN) && okc && n == errT && fieldName(fa.X.Type(), fa.Field) == "Type" {
							makes = true
						}
					}
				}
			}
		}
		if !makes {
			continue
		}
		ts := p.play(func(w *runWorld) { w.scanning = true }, func(w *runWorld) av {
			o := newObj(scn)
			st := scn.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				fillTok(o.kids[i], "l."+st.Field(i).Name())
				if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					o.kids[i].val = bconst(st.Field(i).Name() == "readOK")
				}
			}
			args := []av{kptr{o}}
			for i := 1; i < len(f.Params); i++ {
				args = append(args, kconst{nil})
				if b, ok := f.Params[i].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					args[i] = ktok{"message"}
				}
			}
			w.in.call(f, args, nil)
			w.ev("error made")
			w.in.call(rd, []av{kptr{o}}, nil)
			return kconst{nil}
		})
		bad := ""
		for _, t := range ts {
			if t.aborted != "" {
				bad = "not decided: " + t.aborted
			} else if at := find(t.events, func(e string) bool { return e == "error made" }); len(at) == 1 && !has(t.events[at[0]:], "read") {
				bad = "the next rune comes from the line with the error"
			}
		}
		r.add("fresh line", "error tokens made by "+fname(f), f.Pos(), bad == "", "%s", bad)
	}
}
