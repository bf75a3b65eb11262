package main

// C16: special commands report and set exactly the setting they name, and only after validating.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkC16 }

// A setting: its command, the kind of argument, which observers show it and which integer
// arguments are acceptable.
type setting struct {
	cmd     string
	str     bool
	shows   []string // observers that must equal the argument afterwards
	affects []string // observers allowed to change in any way
	accept  func(n int64) bool
	points  []int64 // boundaries of the specification
	flag    string
}

var anyNat = func(n int64) bool { return n >= 0 }

var settings = []setting{
	{cmd: "maxbits", shows: []string{"MaxBits"}, accept: anyNat},
	{cmd: "maxdigits", shows: []string{"MaxDigits"}, accept: anyNat},
	{cmd: "maxstack", shows: []string{"MaxStack"}, accept: anyNat},
	{cmd: "origin", shows: []string{"Origin", "BigOrigin"}, accept: anyNat},
	{cmd: "prec", shows: []string{"FloatPrec"}, accept: func(n int64) bool { return 1 <= n && n <= 1000000 }, points: []int64{1, 1000000}},
	{cmd: "seed", shows: []string{"RandomSeed"}, accept: anyNat},
	{cmd: "base", shows: []string{"InputBase", "OutputBase", "Base#0", "Base#1"}, accept: okBase, points: []int64{2, 16}},
	{cmd: "ibase", shows: []string{"InputBase", "Base#0"}, accept: okBase, points: []int64{2, 16}},
	{cmd: "obase", shows: []string{"OutputBase", "Base#1"}, accept: okBase, points: []int64{2, 16}},
	{cmd: "prompt", str: true, shows: []string{"Prompt"}},
	{cmd: "format", str: true, shows: []string{"Format"}, affects: []string{"RatFormat", "FloatFormat"}},
	{cmd: "timezone", str: true, affects: []string{"TimeZone", "Location"}},
}

func okBase(n int64) bool { return n == 0 || 2 <= n && n <= 16 }

type confWorld struct {
	p      *Prog
	m      *model
	n      int64 // the integer argument stands for this region
	cmps   map[int64]bool
	conf   *obj
	printd [][]string
	// observations made when files are read or written
	during   []map[string]string
	fileFail bool
	isRat    bool
	strFail  bool
	flagVal  int64 // if not negative, the value all debugging flags start with
}

// newConf makes a configuration whose every field is a token.
func (w *confWorld) newConf(zero bool) *obj {
	cn := w.p.namedType("config", "Config")
	o := newObj(cn)
	if zero {
		return o
	}
	st := cn.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		fillTok(o.kids[i], "f:"+st.Field(i).Name())
		if a, ok := st.Field(i).Type().Underlying().(*types.Array); ok && w.flagVal >= 0 && types.Identical(a.Elem(), types.Typ[types.Int]) {
			for _, k := range o.kids[i].kids {
				k.val = iconst(w.flagVal)
			}
		}
	}
	return o
}

func fillTok(o *obj, name string) {
	if o.kids != nil {
		for i, k := range o.kids {
			fillTok(k, fmt.Sprintf("%s.%d", name, i))
		}
		return
	}
	o.val = ktok{name}
}

func (w *confWorld) interp() *interp {
	p := w.p
	in := &interp{p: p}
	nilc := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
	in.onCmp = func(op token.Token, x, y av) (bool, bool) {
		tx, ok1 := tokOf(x)
		ty, ok2 := tokOf(y)
		if ok1 && ok2 && tx == ty {
			return cmpInt(op, 0, 0), true
		}
		if ok1 && tx == "N" {
			if c, ok := constOf(y); ok {
				w.cmps[c] = true
				return constant.Compare(constant.MakeInt64(w.n), op, constant.MakeInt64(c)), true
			}
		}
		if ok2 && ty == "N" {
			if c, ok := constOf(x); ok {
				w.cmps[c] = true
				return constant.Compare(constant.MakeInt64(c), op, constant.MakeInt64(w.n)), true
			}
		}
		if (ok1 && nilc(y) || ok2 && nilc(x)) && (op == token.EQL || op == token.NEQ) {
			t := tx
			if ok2 {
				t = ty
			}
			if strings.HasPrefix(t, "f:") || strings.HasPrefix(t, "G:") || t == "file" {
				return op == token.NEQ, true
			}
		}
		return false, false
	}
	in.onCall = func(in *interp, callee *ssa.Function, mt *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
		if callee == nil {
			return nil, false
		}
		switch {
		case relPkg(callee) == "value" && callee.Name() == "Errorf":
			panic(absPanic{sconst("error")})
		case relPkg(callee) == "value" && callee.Name() == "Parse" && callee.Signature.Recv() == nil:
			if w.isRat {
				return ktuple{[]av{kiface{p.namedType("value", "BigRat"), ktok{"R"}}, kconst{nil}}}, true
			}
			return ktuple{[]av{kiface{p.namedType("value", "Int"), ktok{"N"}}, kconst{nil}}}, true
		case relPkg(callee) == "value" && callee.Name() == "ParseString":
			if w.strFail {
				panic(absPanic{sconst("error")})
			}
			return ktok{"S"}, true
		case relTo(callee) == "fmt" && strings.HasPrefix(callee.Name(), "Fprint"):
			var out []string
			for _, a := range args[1:] {
				if es, ok := w.m.elems(a); ok {
					for _, e := range es {
						out = append(out, w.m.term(e))
					}
				}
			}
			w.printd = append(w.printd, out)
			return kconst{nil}, true
		case callee.Signature.Recv() != nil && relPkg(callee) == "parse" && callee.Name() == "runFromFile":
			w.during = append(w.during, w.observe(in))
			if w.fileFail {
				panic(absPanic{sconst("error")})
			}
			// The file may set the bases.
			sb := p.method("config", "Config", "SetBase")
			in.call(sb, []av{kptr{w.conf}, ktok{"IB"}, ktok{"OB"}}, nil)
			return kconst{nil}, true
		case callee.Signature.Results().Len() == 2 && callee.Signature.Results().At(0).Type().String() == "*time.Location":
			// A zone's name is looked up: it is there, or it is not.
			if w.strFail {
				return ktuple{[]av{kconst{nil}, kiface{types.Typ[types.String], ktok{"zoneError"}}}}, true
			}
			return ktuple{[]av{ktok{"G:loc"}, kconst{nil}}}, true
		case relPkg(callee) == "parse" && callee.Signature.Recv() == nil && p.opensFile(callee):
			w.during = append(w.during, w.observe(in))
			if w.fileFail {
				panic(absPanic{sconst("error")})
			}
			return kconst{nil}, true
		}
		if v, ok := w.m.call(in, callee, mt, args); ok {
			return v, true
		}
		return nil, false
	}
	p.setDebugFlagsGlobal(in)
	return in
}

// opensFile: the function creates or opens a file itself.
func (p *Prog) opensFile(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if cf := c.Common().StaticCallee(); cf != nil && relTo(cf) == "os" && in2(cf.Name(), "Create", "Open", "OpenFile", "CreateTemp") {
					return true
				}
			}
		}
	}
	return false
}

func in2(s string, set ...string) bool { return in(s, set...) }

// observe evaluates every getter of the configuration.
func (w *confWorld) observe(parent *interp) map[string]string {
	p := w.p
	out := map[string]string{}
	names := []string{"Format", "RatFormat", "FloatFormat", "Origin", "BigOrigin", "Prompt", "RandomSeed", "MaxBits", "MaxDigits", "MaxStack", "FloatPrec", "Base", "InputBase", "OutputBase", "Mobile", "TimeZone", "Location"}
	put := func(n string, v av) {
		if t, ok := v.(ktuple); ok {
			for i, x := range t.f {
				out[fmt.Sprintf("%s#%d", n, i)] = w.m.term(x)
			}
			return
		}
		out[n] = w.m.term(v)
	}
	run := func(n string, f *ssa.Function, extra ...av) {
		sub := w.interp()
		sub.max = 200000
		func() {
			defer func() {
				if e := recover(); e != nil {
					out[n] = fmt.Sprintf("undecided: %v", e)
				}
			}()
			put(n, sub.call(f, append([]av{kptr{w.conf}}, extra...), nil))
		}()
	}
	for _, n := range names {
		if f := p.method("config", "Config", n); f != nil {
			run(n, f)
		} else {
			out[n] = "undecided: no such getter"
		}
	}
	if f := p.method("config", "Config", "Debug"); f != nil {
		for _, fl := range p.debugFlags() {
			run("Debug "+fl, f, sconst(fl))
		}
	}
	if f := p.method("config", "Config", "Tracing"); f != nil {
		run("Tracing 1", f, iconst(1))
		run("Tracing 2", f, iconst(2))
	}
	return out
}

func (p *Prog) debugFlags() []string {
	var out []string
	sp := p.spkg["config"]
	if sp == nil {
		return nil
	}
	g, ok := sp.Members["DebugFlags"].(*ssa.Global)
	if !ok {
		return nil
	}
	// The elements are stored into the variable, or into an array or slice then
	// stored into it, by the package's initialiser.
	bases := map[ssa.Value]bool{g: true}
	for _, st := range p.storesToGlobal(g) {
		v := st.Val
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
				continue
			case *ssa.Slice:
				v = x.X
				continue
			}
			break
		}
		bases[v] = true
	}
	elems := map[int64]string{}
	if f := sp.Func("init"); f != nil {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok && bases[ia.X] {
						n, ok1 := constInt(ia.Index)
						if s, ok := constStr(st.Val); ok && ok1 {
							elems[n] = s
						}
					}
				}
			}
		}
	}
	for i := int64(0); i < int64(len(elems)); i++ {
		out = append(out, elems[i])
	}
	return out
}

type tokSpec struct{ typ, text string }

type cmdRun struct {
	before, after map[string]string
	printd        [][]string
	during        []map[string]string
	panicked      bool
	aborted       string
}

// runCommand evaluates the special command on the given tokens.
func (p *Prog) runCommand(toks []tokSpec, n int64, cmps map[int64]bool, tweak func(w *confWorld)) []cmdRun {
	special := p.method("parse", "Parser", "special")
	parserN, ctxN, tokN := p.namedType("parse", "Parser"), p.namedType("exec", "Context"), p.namedType("scan", "Token")
	cfgN := p.namedType("config", "Config")
	if special == nil || parserN == nil || ctxN == nil || tokN == nil || cfgN == nil {
		return []cmdRun{{aborted: "parser, context, token or configuration type not found"}}
	}
	var runs []cmdRun
	var w *confWorld
	explore(p, func() *interp {
		w = &confWorld{p: p, m: newModel(p), n: n, cmps: cmps, flagVal: -1}
		if tweak != nil {
			tweak(w)
		}
		return w.interp()
	}, func(in *interp) (ret av) {
		w.conf = w.newConf(false)
		ctx := newObj(ctxN)
		setField(ctx, ctxN, func(f *types.Var) bool {
			pt, ok := f.Type().(*types.Pointer)
			return ok && types.Identical(pt.Elem(), cfgN)
		}, kptr{w.conf})
		for i, k := range ctx.kids {
			if _, ok := ctxN.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Map); ok {
				k.val = kmap{&amap{m: map[string]av{}, keys: map[string]av{}, unk: true}}
			}
		}
		ps := newObj(parserN)
		setField(ps, parserN, func(f *types.Var) bool {
			pt, ok := f.Type().(*types.Pointer)
			return ok && types.Identical(pt.Elem(), ctxN)
		}, kptr{ctx})
		arr := &obj{elem: types.NewArray(tokN, int64(len(toks)))}
		for _, t := range toks {
			to := newObj(tokN)
			st := tokN.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "Type":
					to.kids[i].val = iconst(p.scanType(t.typ))
				case "Text":
					to.kids[i].val = sconst(t.text)
				}
			}
			arr.kids = append(arr.kids, to)
		}
		setField(ps, parserN, func(f *types.Var) bool {
			sl, ok := f.Type().(*types.Slice)
			return ok && types.Identical(sl.Elem(), tokN)
		}, kslice{arr: arr, lo: 0, hi: len(arr.kids)})
		r := cmdRun{before: w.observe(in)}
		defer func() {
			e := recover()
			switch e := e.(type) {
			case nil:
			case absPanic:
				r.panicked = true
			case absAbort:
				r.aborted = e.why
			default:
				panic(e)
			}
			r.after = w.observe(in)
			r.printd, r.during = w.printd, w.during
			runs = append(runs, r)
			if e != nil {
				panic(e)
			}
		}()
		return in.call(special, []av{kptr{ps}}, nil)
	}, 400)
	return runs
}

func (p *Prog) setDebugFlagsGlobal(in *interp) {
	sp := p.spkg["config"]
	g, ok := sp.Members["DebugFlags"].(*ssa.Global)
	if !ok {
		return
	}
	o := newObj(g.Type().(*types.Pointer).Elem())
	for i, f := range p.debugFlags() {
		if i < len(o.kids) {
			o.kids[i].val = sconst(f)
		}
	}
	if in.globals == nil {
		in.globals = map[*ssa.Global]*obj{}
	}
	in.globals[g] = o
}

func setField(o *obj, n *types.Named, want func(*types.Var) bool, v av) {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if want(st.Field(i)) {
			o.kids[i].val = v
			return
		}
	}
}

func (p *Prog) scanType(name string) int64 {
	if pk := p.byRel["scan"]; pk != nil {
		if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
			n, _ := constant.Int64Val(c.Val())
			return n
		}
	}
	return -1
}

func diffObs(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if b[k] != v {
			out = append(out, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func checkC16(p *Prog, r *Report) {
	r.rule("reports", "a settings command without argument prints the setting's current value and changes nothing", 12)
	r.rule("sets", "a settings command with an acceptable argument sets exactly the setting it names to that value", 12)
	r.rule("refuses", "a settings command with an argument that is not acceptable stops with an error and changes no setting", 12)
	r.rule("others", "other special commands leave every setting as it was, and files are read and written in the user's number bases", 6)
	r.rule("setters", "on a configuration not yet used, each setter sets its own setting and the others take their defaults", 8)
	special := p.method("parse", "Parser", "special")
	if special == nil {
		r.missing("sets", "(*parse.Parser).special")
		return
	}
	all := append([]setting(nil), settings...)
	flags := p.debugFlags()
	if len(flags) == 0 {
		r.missing("sets", "the list of debugging flags")
	}
	for _, f := range flags {
		s := setting{cmd: "debug", flag: f, shows: []string{"Debug " + f}, accept: anyNat}
		if f == "trace" {
			s.affects = []string{"Tracing 1", "Tracing 2"}
		}
		all = append(all, s)
	}
	for _, s := range all {
		p.checkSetting(r, s, special)
	}
	p.checkDebugReport(r, flags, special)
	p.checkOtherCommands(r, special)
	p.checkSetters(r)
}

// checkDebugReport: )debug alone prints every flag with its own value.
func (p *Prog) checkDebugReport(r *Report, flags []string, special *ssa.Function) {
	msg := "undecided: no run"
	for _, c := range p.runCommand([]tokSpec{{"RightParen", ")"}, {"Identifier", "debug"}}, 0, map[int64]bool{}, nil) {
		msg = ""
		switch d := diffObs(c.before, c.after); {
		case c.aborted != "":
			msg = "undecided: " + c.aborted
		case c.panicked:
			msg = "stops with an error"
		case len(d) > 0:
			msg = "changes " + strings.Join(d, ", ")
		default:
			for _, f := range flags {
				seen := false
				for _, l := range c.printd {
					for i := 0; i+1 < len(l); i++ {
						if l[i] == f || l[i] == strconv.Quote(f) {
							seen = l[i+1] == c.before["Debug "+f]
						}
					}
				}
				if !seen {
					msg = "does not print the value of " + f
				}
			}
		}
		if msg != "" {
			break
		}
	}
	r.add("reports", ")debug", special.Pos(), msg == "", "%s", orStr(msg, "prints every flag"))
}

func (s setting) prefix() ([]tokSpec, string) {
	t := []tokSpec{{"RightParen", ")"}, {"Identifier", s.cmd}}
	name := ")" + s.cmd
	if s.flag != "" {
		t = append(t, tokSpec{"Identifier", s.flag})
		name += " " + s.flag
	}
	return t, name
}

func (p *Prog) checkSetting(r *Report, s setting, special *ssa.Function) {
	pre, name := s.prefix()
	cmps := map[int64]bool{}
	// Report (a debug flag without a number is toggled).
	msg := ""
	runs := p.runCommand(pre, 0, cmps, nil)
	if len(runs) == 0 {
		msg = "undecided: no run"
	}
	for _, c := range runs {
		d := diffObs(c.before, c.after)
		switch {
		case c.aborted != "":
			msg = "undecided: " + c.aborted
		case c.panicked:
			msg = "stops with an error"
		case s.flag != "":
			for _, o := range d {
				if o != "Debug "+s.flag && !in2(o, s.affects...) {
					msg = "changes " + o
				}
			}
		case len(d) > 0:
			msg = "changes " + strings.Join(d, ", ")
		default:
			// Every observer that shows the setting must be printed.
			printed := map[string]bool{}
			for _, l := range c.printd {
				for _, x := range l {
					printed[x] = true
				}
			}
			for _, o := range s.shows {
				if o == "BigOrigin" {
					continue
				}
				if !printed[c.before[o]] {
					msg = fmt.Sprintf("does not print the current value (%s)", o)
				}
			}
			if s.cmd == "timezone" && !printed[c.before["TimeZone"]] {
				msg = "does not print the current time zone"
			}
		}
	}
	if s.flag == "" {
		r.add("reports", name, special.Pos(), msg == "", "%s", orStr(msg, "prints the value, changes nothing"))
	} else {
		r.add("sets", name+" toggled", special.Pos(), msg == "", "%s", orStr(msg, "changes only the flag"))
		for _, v := range []int64{0, 1, 2} {
			msg, want := "undecided: no run", "0"
			if v == 0 {
				want = "1"
			}
			for _, c := range p.runCommand(pre, 0, cmps, func(w *confWorld) { w.flagVal = v }) {
				if c.aborted != "" {
					msg = "undecided: " + c.aborted
					break
				}
				if got := c.after["Debug "+s.flag]; got != want || c.panicked {
					msg = fmt.Sprintf("the flag is then %s, not %s", got, want)
					break
				}
				msg = ""
			}
			r.add("sets", fmt.Sprintf("%s toggled from %d", name, v), special.Pos(), msg == "", "%s", orStr(msg, "becomes "+want))
		}
	}
	// Arguments: every region of the integers the code or the specification distinguishes.
	check := func(rule, what string, toks []tokSpec, n int64, accept bool, tweak func(w *confWorld)) {
		msg := ""
		okRuns, errRuns := 0, 0
		for _, c := range p.runCommand(toks, n, cmps, tweak) {
			d := diffObs(c.before, c.after)
			if c.aborted != "" {
				msg = "undecided: " + c.aborted
				continue
			}
			if c.panicked {
				errRuns++
				if len(d) > 0 {
					msg = "stops with an error but has changed " + strings.Join(d, ", ")
				}
				continue
			}
			okRuns++
			if !accept {
				msg = "accepted"
				continue
			}
			arg := "N"
			if s.str {
				arg = "S"
			}
			for _, o := range s.shows {
				if c.after[o] != arg && c.after[o] != "{"+arg+"}" {
					msg = fmt.Sprintf("%s becomes %s instead of the argument", o, c.after[o])
				}
			}
			for _, o := range d {
				base := o
				if i := strings.IndexByte(o, '#'); i > 0 {
					base = o[:i]
				}
				if !in2(o, s.shows...) && !in2(base, s.affects...) && !in2(o, s.affects...) {
					msg = "also changes " + o
				}
			}
			for _, o := range s.affects {
				for k, v := range c.after {
					if (k == o || strings.HasPrefix(k, o+"#")) && strings.Contains(v, "f:") {
						msg = fmt.Sprintf("%s (%s) still depends on the old setting", o, v)
					}
				}
			}
			if s.flag == "trace" && (c.after["Tracing 1"] != fmt.Sprint(n >= 1) || c.after["Tracing 2"] != fmt.Sprint(n >= 2)) {
				msg = "the tracing level does not follow"
			}
			if s.cmd == "timezone" && (!in2("TimeZone", d...) || !in2("Location", d...)) {
				msg = "does not change the zone"
			}
		}
		if msg == "" && accept && okRuns == 0 {
			msg = "refused"
		}
		if msg == "" && !accept && errRuns == 0 {
			msg = "undecided: no run"
		}
		r.add(rule, what, special.Pos(), msg == "", "%s", orStr(msg, "as specified"))
	}
	if s.str {
		toks := append(append([]tokSpec(nil), pre...), tokSpec{"String", `"x"`})
		check("sets", name+" string", toks, 0, true, nil)
		check("refuses", name+" malformed string", toks, 0, false, func(w *confWorld) { w.strFail = true })
		check("refuses", name+" number", append(append([]tokSpec(nil), pre...), tokSpec{"Number", "7"}), 7, false, nil)
		return
	}
	toks := append(append([]tokSpec(nil), pre...), tokSpec{"Number", "7"})
	// Discover the constants the code compares the argument with.
	pts := map[int64]bool{-1: true, 0: true, 1: true, 7: true, 100: true}
	for _, b := range s.points {
		pts[b-1], pts[b], pts[b+1] = true, true, true
	}
	p.runCommand(toks, 7, cmps, nil)
	for done := map[int64]bool{}; ; {
		n := len(cmps)
		for c := range cmps {
			if c > -1<<31 && c < 1<<31-1 {
				pts[c-1], pts[c], pts[c+1] = true, true, true
			}
		}
		for n := range pts {
			if !done[n] {
				done[n] = true
				p.runCommand(toks, n, cmps, nil)
			}
		}
		if len(cmps) == n {
			break
		}
	}
	var ns []int64
	for n := range pts {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	for _, n := range ns {
		if s.accept(n) {
			check("sets", fmt.Sprintf("%s with an argument like %d", name, n), toks, n, true, nil)
		} else {
			check("refuses", fmt.Sprintf("%s with an argument like %d", name, n), toks, n, false, nil)
		}
	}
	check("refuses", name+" fraction", toks, 7, false, func(w *confWorld) { w.isRat = true })
	check("refuses", name+" string", append(append([]tokSpec(nil), pre...), tokSpec{"String", `"x"`}), 7, false, nil)
}

func (p *Prog) checkOtherCommands(r *Report, special *ssa.Function) {
	type oc struct {
		name string
		toks []tokSpec
		fail bool
		get  bool
		file bool
	}
	base := func(c string, more ...tokSpec) []tokSpec {
		return append([]tokSpec{{"RightParen", ")"}, {"Identifier", c}}, more...)
	}
	str := tokSpec{"String", `"f"`}
	cs := []oc{
		{")get", base("get"), false, true, true}, {`)get "f"`, base("get", str), false, true, true},
		{")get failing", base("get"), true, true, true}, {`)get "f" failing`, base("get", str), true, true, true},
		{")save", base("save"), false, false, true}, {`)save "f"`, base("save", str), false, false, true},
		{")save failing", base("save"), true, false, true}, {`)save "f" failing`, base("save", str), true, false, true},
		{")cpu", base("cpu"), false, false, false},
		{")op x", base("op", tokSpec{"Identifier", "x"}), false, false, false},
		{")var x", base("var", tokSpec{"Identifier", "x"}), false, false, false},
		{"an unknown command", base("nonesuch"), false, false, false},
		{"no command", []tokSpec{{"RightParen", ")"}, {"String", `"x"`}}, false, false, false},
	}
	for _, c := range cs {
		msg := ""
		runs := p.runCommand(c.toks, 0, map[int64]bool{}, func(w *confWorld) { w.fileFail = c.fail })
		if len(runs) == 0 {
			msg = "undecided: no run"
		}
		seen := false
		for _, x := range runs {
			d := diffObs(x.before, x.after)
			if x.aborted != "" {
				msg = "undecided: " + x.aborted
				continue
			}
			for _, o := range x.during {
				seen = true
				if dd := diffObs(x.before, o); len(dd) > 0 {
					msg = "the file is processed with a different " + strings.Join(dd, ", ")
				}
			}
			if c.get && !c.fail && !x.panicked {
				if x.after["InputBase"] != "IB" || x.after["OutputBase"] != "OB" {
					msg = "a base set by the file is lost"
				}
				var rest []string
				for _, o := range d {
					if !in2(o, "InputBase", "OutputBase", "Base#0", "Base#1") {
						rest = append(rest, o)
					}
				}
				d = rest
			}
			if len(d) > 0 {
				msg = "changes " + strings.Join(d, ", ")
			}
		}
		if c.file && !seen && msg == "" {
			msg = "no file is processed"
		}
		r.add("others", c.name, special.Pos(), msg == "", "%s", orStr(msg, "settings untouched"))
	}
}

func (p *Prog) checkSetters(r *Report) {
	type st struct {
		name  string
		args  []av
		shows map[string]string
		loose []string
	}
	sts := []st{
		{"SetFormat", []av{ktok{"S"}}, map[string]string{"Format": "S"}, []string{"RatFormat", "FloatFormat#0", "FloatFormat#1", "FloatFormat#2"}},
		{"SetOrigin", []av{ktok{"N"}}, map[string]string{"Origin": "N", "BigOrigin": "N"}, nil},
		{"SetPrompt", []av{ktok{"S"}}, map[string]string{"Prompt": "S"}, nil},
		{"SetRandomSeed", []av{ktok{"N"}}, map[string]string{"RandomSeed": "N"}, nil},
		{"SetMaxBits", []av{ktok{"N"}}, map[string]string{"MaxBits": "N"}, nil},
		{"SetMaxDigits", []av{ktok{"N"}}, map[string]string{"MaxDigits": "N"}, nil},
		{"SetMaxStack", []av{ktok{"N"}}, map[string]string{"MaxStack": "N"}, nil},
		{"SetFloatPrec", []av{ktok{"N"}}, map[string]string{"FloatPrec": "N"}, nil},
		{"SetBase", []av{ktok{"I"}, ktok{"O"}}, map[string]string{"InputBase": "I", "OutputBase": "O", "Base#0": "I", "Base#1": "O"}, nil},
		{"SetMobile", []av{ktok{"B"}}, map[string]string{"Mobile": "B"}, nil},
	}
	// The documented defaults.
	defaults := map[string]string{"Origin": "1", "BigOrigin": "1", "MaxBits": "1000000", "MaxDigits": "10000", "MaxStack": "100000", "FloatPrec": "256", "InputBase": "0", "OutputBase": "0", "Base#0": "0", "Base#1": "0", "Prompt": `""`, "Format": `""`, "Mobile": "false"}
	for _, s := range sts {
		f := p.method("config", "Config", s.name)
		if f == nil {
			r.missing("setters", "config.Config."+s.name)
			continue
		}
		for _, other := range append([]st{{name: ""}}, sts...) {
			if other.name == s.name {
				continue
			}
			var obs []map[string]string
			msg := ""
			var w *confWorld
			explore(p, func() *interp {
				w = &confWorld{p: p, m: newModel(p), n: 7, cmps: map[int64]bool{}}
				return w.interp()
			}, func(in *interp) av {
				w.conf = w.newConf(true)
				v := in.call(f, append([]av{kptr{w.conf}}, s.args...), nil)
				if other.name != "" {
					g := p.method("config", "Config", other.name)
					if g == nil {
						return v
					}
					v = in.call(g, append([]av{kptr{w.conf}}, other.args...), nil)
				}
				obs = append(obs, w.observe(in))
				return v
			}, 400)
			if len(obs) == 0 {
				msg = "undecided: no run"
			}
			for _, o := range obs {
				for k, v := range o {
					want, has := s.shows[k]
					if other.name != "" {
						if ov, ok := other.shows[k]; ok {
							want, has = ov, true
						}
					}
					loose := in2(k, s.loose...) || in2(k, other.loose...)
					if !has && !loose {
						want, has = defaults[k]
					}
					if has && v != want {
						msg = fmt.Sprintf("%s is then %s, expected %s", k, v, want)
					}
				}
			}
			key := s.name + " first"
			if other.name != "" {
				key = s.name + " then " + other.name
			}
			r.add("setters", key, f.Pos(), msg == "", "%s", orStr(msg, "as specified"))
		}
	}
}
