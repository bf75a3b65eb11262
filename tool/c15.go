package main

// C15: defining an operator takes effect completely or not at all.

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

// defCase is a definition as the user may type it, with what its parts do.
type defCase struct {
	name   string
	head   []tokSpec   // after op or opdelete, up to and including the arguments
	del    bool        // opdelete
	rest   []tokSpec   // the rest of the line
	lines  [][]tokSpec // further lines of input
	bodies []string    // what the parsing of each line of the body does: "ok", "two", "fail", "no", "empty"
	binary bool
	params []string
	fails  bool
	none   bool // declares the operator without a body
	opName string
}

func checkC15(p *Prog, r *Report) {
	r.rule("all-or-nothing", "whatever goes wrong in reading a definition, in its head, on any line of its body or at the end of the input, the operators, their order, the variables and the names taken for variables are as they were before", 100)
	r.rule("complete", "a definition that is accepted defines the operator of that name and arity, with the arguments and all the statements of the body in order, as the latest definition; all else stays as it was", 100)
	r.rule("in-scope", "while the body is parsed the operator itself is defined, in its arity, and its arguments are variables", 50)
	r.rule("deleted", "opdelete removes the operator of that name and arity and nothing else, or fails and removes nothing", 10)
	r.rule("parse-only", "parsing an expression changes no operator and no variable", 20)
	p.defsUnchangedByParsing(r)
	w := newDefWorld(p)
	if w == nil {
		r.missing("all-or-nothing", "the parsing of operator definitions")
		return
	}
	id := func(s string) tokSpec { return tokSpec{"Identifier", s} }
	lp, rp, eq := tokSpec{"LeftParen", "("}, tokSpec{"RightParen", ")"}, tokSpec{"Assign", "="}
	nl, num, blank := tokSpec{"Newline", "\n"}, tokSpec{"Number", "1"}, []tokSpec{{"Newline", "\n"}}
	line := []tokSpec{num, nl}
	heads := []defCase{
		{name: "unary", head: []tokSpec{id("foo"), id("a")}, params: []string{"a"}},
		{name: "binary", head: []tokSpec{id("b"), id("foo"), id("a")}, params: []string{"a", "b"}, binary: true},
		{name: "unary of a vector", head: []tokSpec{id("foo"), lp, id("a"), lp, id("b"), id("c"), rp, rp}, params: []string{"a", "b", "c"}},
		{name: "binary of vectors", head: []tokSpec{lp, id("a"), id("b"), rp, id("foo"), lp, id("c"), id("d"), rp}, params: []string{"a", "b", "c", "d"}, binary: true},
	}
	tails := []defCase{
		{name: "on one line", rest: []tokSpec{eq, num}, bodies: []string{"ok"}},
		{name: "with two statements on one line", rest: []tokSpec{eq, num}, bodies: []string{"two"}},
		{name: "that does not parse", rest: []tokSpec{eq, num}, bodies: []string{"fail"}, fails: true},
		{name: "with no expression", rest: []tokSpec{eq, num}, bodies: []string{"no"}, fails: true},
		{name: "with an empty body", rest: []tokSpec{eq, num}, bodies: []string{"empty"}, fails: true},
		{name: "with something else than =", rest: []tokSpec{num}, fails: true},
		{name: "declared only", none: true},
		{name: "on two lines", rest: []tokSpec{eq}, lines: [][]tokSpec{line, line, blank}, bodies: []string{"ok", "two"}},
		{name: "on two lines at the end of the input", rest: []tokSpec{eq}, lines: [][]tokSpec{line, line}, bodies: []string{"two", "ok"}},
		{name: "on many lines of which the first fails", rest: []tokSpec{eq}, lines: [][]tokSpec{line, line, blank}, bodies: []string{"fail", "ok"}, fails: true},
		{name: "on many lines of which the second fails", rest: []tokSpec{eq}, lines: [][]tokSpec{line, line, blank}, bodies: []string{"ok", "fail"}, fails: true},
		{name: "on many lines of which the third is none", rest: []tokSpec{eq}, lines: [][]tokSpec{line, line, line, blank}, bodies: []string{"ok", "ok", "no"}, fails: true},
		{name: "on many lines with a character that is none", rest: []tokSpec{eq}, lines: [][]tokSpec{line, {num, {"Error", "bad"}, nl}, blank}, bodies: []string{"ok"}, fails: true},
		{name: "on many lines that are none", rest: []tokSpec{eq}, lines: [][]tokSpec{blank}, fails: true},
	}
	var cases []defCase
	for _, h := range heads {
		for _, t := range tails {
			t.name, t.head, t.params, t.binary = h.name+" "+t.name, h.head, h.params, h.binary
			cases = append(cases, t)
		}
	}
	bad := func(name string, binary bool, head ...tokSpec) {
		cases = append(cases, defCase{name: name, head: head, rest: []tokSpec{eq, num}, bodies: []string{"ok"}, fails: true, binary: binary})
	}
	bad("with the same argument twice", true, id("a"), id("foo"), id("a"))
	bad("with the same argument twice in a vector", false, id("foo"), lp, id("a"), id("a"), rp)
	bad("with its name as argument", false, id("foo"), id("foo"))
	bad("with its name as left argument", true, id("foo"), id("foo"), id("a"))
	bad("with a vector for a name", true, id("a"), lp, id("foo"), rp, id("b"))
	bad("with a number for an argument", false, id("foo"), num)
	bad("with a number in an argument", false, id("foo"), lp, id("a"), num, rp)
	bad("without an argument", false, id("foo"))
	for _, n := range []string{"pi", "e", "_"} {
		cases = append(cases, defCase{name: "of " + n, head: []tokSpec{id(n), id("a")}, rest: []tokSpec{eq, num}, bodies: []string{"ok"}, fails: true, opName: n})
	}
	cases = append(cases,
		defCase{name: "of a binary o", head: []tokSpec{id("a"), id("o"), id("b")}, rest: []tokSpec{eq, num}, bodies: []string{"ok"}, fails: true, binary: true, opName: "o"},
	)
	for _, h := range heads[:2] {
		cases = append(cases,
			defCase{name: "delete " + h.name, head: h.head, del: true, binary: h.binary},
			defCase{name: "delete " + h.name + " and more", head: h.head, del: true, binary: h.binary, rest: []tokSpec{num}, fails: true},
		)
	}
	for _, c := range cases {
		if c.opName == "" {
			c.opName = "foo"
		}
		for prior := 0; prior < 8; prior++ {
			w.try(r, c, prior)
		}
	}
}

type defWorld struct {
	p                                              *Prog
	ctxN, fnN, defN, parserN, tokN                 *types.Named
	un, bin, defs, globals, vars                   int
	fName, fBin, fBody, fLeft, fRight, dName, dBin int
	defn, exprs, classify                          *ssa.Function
	intN                                           *types.Named
}

func fieldNamed(n *types.Named, name string) int {
	if n == nil {
		return -1
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func newDefWorld(p *Prog) *defWorld {
	w := &defWorld{p: p}
	w.ctxN, w.un, w.bin = p.opFields()
	w.fnN, w.defN = p.namedType("exec", "Function"), p.namedType("exec", "OpDef")
	w.parserN, w.tokN, w.intN = p.namedType("parse", "Parser"), p.namedType("scan", "Token"), p.namedType("value", "Int")
	w.defs, w.globals, w.vars = fieldNamed(w.ctxN, "Defs"), fieldNamed(w.ctxN, "Globals"), fieldNamed(w.ctxN, "variables")
	w.fName, w.fBin, w.fBody = fieldNamed(w.fnN, "Name"), fieldNamed(w.fnN, "IsBinary"), fieldNamed(w.fnN, "Body")
	w.fLeft, w.fRight = fieldNamed(w.fnN, "Left"), fieldNamed(w.fnN, "Right")
	w.dName, w.dBin = fieldNamed(w.defN, "Name"), fieldNamed(w.defN, "IsBinary")
	w.defn = p.method("parse", "Parser", "functionDefn")
	w.exprs = p.method("parse", "Parser", "expressionList")
	if l := fieldNamed(w.fnN, "Locals"); l >= 0 {
		w.classify = (&varWorld{p: p, fnN: w.fnN, fld: map[string]int{"fLocals": l}}).findClassify()
	}
	for _, i := range []int{w.un, w.bin, w.defs, w.globals, w.vars, w.fName, w.fBin, w.fBody, w.fLeft, w.fRight, w.dName, w.dBin} {
		if i < 0 {
			return nil
		}
	}
	if w.defn == nil || w.exprs == nil || w.parserN == nil || w.tokN == nil || w.intN == nil {
		return nil
	}
	return w
}

// defState is what a definition may change.
type defState struct {
	un, bin, vars map[string]*obj
	defs          []string
	declared      []string
	msg           string
}

func (w *defWorld) state(co *obj) *defState {
	s := &defState{}
	get := func(f int) map[string]*obj {
		out := map[string]*obj{}
		m, ok := co.kids[f].val.(kmap)
		if !ok || m.m.unk {
			s.msg = "undecided: the tables are not tracked"
			return nil
		}
		for k, v := range m.m.m {
			pt, _ := v.(kptr)
			name, ok := constString(m.m.keys[k])
			if !ok || pt.o == nil {
				s.msg = "undecided: the tables are not tracked"
				continue
			}
			out[name] = pt.o
		}
		return out
	}
	s.un, s.bin, s.vars = get(w.un), get(w.bin), get(w.globals)
	switch sl := co.kids[w.defs].val.(type) {
	case kslice:
		if sl.arr == nil {
			break
		}
		for _, d := range sl.arr.kids[sl.lo:sl.hi] {
			n, ok := constString(d.kids[w.dName].val)
			b, ok2 := d.kids[w.dBin].val.(kconst)
			if !ok || !ok2 || b.v == nil {
				s.msg = "undecided: the list of definitions is not tracked"
				continue
			}
			s.defs = append(s.defs, fmt.Sprintf("%s/%v", n, constant.BoolVal(b.v)))
		}
	case kconst:
	default:
		s.msg = "undecided: the list of definitions is not tracked"
	}
	switch sl := co.kids[w.vars].val.(type) {
	case kslice:
		if sl.arr != nil {
			for _, d := range sl.arr.kids[sl.lo:sl.hi] {
				n, _ := constString(d.val)
				s.declared = append(s.declared, n)
			}
		}
	case kconst:
	default:
		s.msg = "undecided: the declared names are not tracked"
	}
	slices.Sort(s.declared)
	return s
}

func sameTable(a, b map[string]*obj) string {
	for k, v := range a {
		if b[k] != v {
			return k
		}
	}
	for k, v := range b {
		if a[k] != v {
			return k
		}
	}
	return ""
}

func (s *defState) diff(t *defState) string {
	if k := sameTable(s.un, t.un); k != "" {
		return "the unary operator " + k + " has changed"
	}
	if k := sameTable(s.bin, t.bin); k != "" {
		return "the binary operator " + k + " has changed"
	}
	if k := sameTable(s.vars, t.vars); k != "" {
		return "the variable " + k + " has changed"
	}
	if !slices.Equal(s.defs, t.defs) {
		return fmt.Sprintf("the list of definitions has become %v, from %v", t.defs, s.defs)
	}
	if len(t.declared) > 0 {
		return fmt.Sprintf("%v remain declared as variables", t.declared)
	}
	return ""
}

// try reads the definition with the operator defined before or not, and a variable of its name with value zero or not.
func (w *defWorld) try(r *Report, c defCase, prior int) {
	p := w.p
	userU, userB, variable := prior&1 != 0, prior&2 != 0, prior&4 != 0
	if variable && (userU || userB) {
		return // a name is never both
	}
	mkFn := func(binary bool) *obj {
		o := newObj(w.fnN)
		o.kids[w.fName].val = sconst(c.opName)
		o.kids[w.fBin].val = bconst(binary)
		return o
	}
	other, oldU, oldB := newObj(w.fnN), mkFn(false), mkFn(true)
	zero, otherVar := &obj{elem: w.intN, val: ktok{"ZEROVAR"}}, &obj{elem: w.intN, val: ktok{"VAR"}}
	var scope []string
	var nscope int
	type result struct {
		co     *obj
		before *defState
		body   []string
	}
	var rs []*result
	outs := explore(p, func() *interp { return &interp{p: p, globals: map[*ssa.Global]*obj{}, onCmp: tokNotNil} }, func(in *interp) av {
		co := newObj(w.ctxN)
		mk := func(have bool, o *obj, others *obj) av {
			am := &amap{m: map[string]av{}, keys: map[string]av{}}
			put := func(name string, o *obj) {
				k, _ := akey(sconst(name))
				am.m[k], am.keys[k] = kptr{o}, sconst(name)
			}
			put("other", others)
			if have {
				put(c.opName, o)
			}
			return kmap{am}
		}
		co.kids[w.un].val, co.kids[w.bin].val = mk(userU, oldU, other), mk(userB, oldB, other)
		co.kids[w.globals].val = mk(variable, zero, otherVar)
		arr := &obj{elem: types.NewArray(w.defN, 0)}
		addDef := func(name string, b bool) {
			d := newObj(w.defN)
			d.kids[w.dName].val, d.kids[w.dBin].val = sconst(name), bconst(b)
			arr.kids = append(arr.kids, d)
		}
		if userU {
			addDef(c.opName, false)
		}
		addDef("other", true)
		if userB {
			addDef(c.opName, true)
		}
		addDef("other", false)
		n := len(arr.kids)
		addDef("spare", false)
		addDef("spare", true)
		co.kids[w.defs].val = kslice{arr: arr, lo: 0, hi: n}
		before := w.state(co)
		res := &result{co: co, before: before}
		rs = append(rs, res)
		// The parser, with the tokens of the first line, and what follows.
		word := tokSpec{"Op", "op"}
		if c.del {
			word = tokSpec{"OpDelete", "opdelete"}
		}
		ps := newObj(w.parserN)
		toks := append(append([]tokSpec{word}, c.head...), c.rest...)
		rw := &runWorld{p: p}
		rw.setTokens(ps, toks)
		setField(ps, w.parserN, func(f *types.Var) bool {
			pt, ok := f.Type().(*types.Pointer)
			return ok && types.Identical(pt.Elem(), w.ctxN)
		}, kptr{co})
		var input []tokSpec
		for _, l := range c.lines {
			input = append(input, l...)
		}
		nth := 0
		in.onBuiltin = func(name string, args []av) (av, bool) {
			// Appending where there is room changes the array.
			if name != "append" || len(args) != 2 {
				return nil, false
			}
			a, ok := args[0].(kslice)
			b, ok2 := args[1].(kslice)
			if !ok || !ok2 || a.arr == nil || b.arr == nil || a.hi+b.hi-b.lo > len(a.arr.kids) {
				return nil, false
			}
			var vs []av
			for _, k := range b.arr.kids[b.lo:b.hi] {
				vs = append(vs, in.load(k))
			}
			for i, v := range vs {
				in.store(a.arr.kids[a.hi+i], v)
			}
			return kslice{a.arr, a.lo, a.hi + len(vs)}, true
		}
		in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			if callee == nil {
				if m != nil && m.Name() == "ProgString" {
					return ktok{"text"}, true
				}
				return nil, false
			}
			switch rel := relPkg(callee); {
			case callee == w.exprs:
				nscope++
				now := w.state(co)
				tab, tab2 := now.un, before.un
				if c.binary {
					tab, tab2 = now.bin, before.bin
				}
				switch f := tab[c.opName]; {
				case f == nil || f == tab2[c.opName]:
					scope = append(scope, "the operator is not defined while its body is parsed")
				default:
					if b, ok := f.kids[w.fBin].val.(kconst); !ok || b.v == nil || constant.BoolVal(b.v) != c.binary {
						scope = append(scope, "the operator being defined has the wrong arity")
					}
				}
				if want := slices.Sorted(slices.Values(c.params)); !slices.Equal(want, now.declared) {
					scope = append(scope, fmt.Sprintf("the variables are %v, not %v", now.declared, want))
				}
				if nth >= len(c.bodies) {
					in.abort("more is parsed than there is")
				}
				what := c.bodies[nth]
				nth++
				rw.setTokens(ps, nil)
				var es []string
				switch what {
				case "fail":
					panic(absPanic{ktok{"error"}})
				case "no":
					return ktuple{[]av{kconst{nil}, bconst(false)}}, true
				case "ok":
					es = []string{fmt.Sprintf("E%d", nth)}
				case "two":
					es = []string{fmt.Sprintf("E%da", nth), fmt.Sprintf("E%db", nth)}
				}
				et := p.namedType("value", "Expr")
				ar := &obj{elem: types.NewArray(et, int64(len(es))), kids: []*obj{}}
				for _, e := range es {
					k := newObj(et)
					k.val = ktok{e}
					ar.kids = append(ar.kids, k)
				}
				res.body = append(res.body, es...)
				return ktuple{[]av{kslice{ar, 0, len(ar.kids)}, bconst(true)}}, true
			case rel == "scan" && recvName(callee) == "Scanner":
				t := tokSpec{"EOF", ""}
				if len(input) > 0 {
					t, input = input[0], input[1:]
				}
				return in.load(rw.token(t)), true
			case rel == "scan":
				return ktok{"text"}, true
			case rel == "config":
				if callee.Name() == "Debug" {
					return iconst(0), true
				}
				return kunknown{}, true
			case rel == "exec" && callee.Name() == "Config":
				return ktok{"CONF"}, true
			case rel == "value" && recvName(callee) != "" && len(args) == 1 && (args[0] == av(kptr{zero}) || args[0] == av(kptr{otherVar})):
				return kiface{w.intN, iconst(0)}, true
			case rel == "value" && callee.Name() == "ProgString":
				return ktok{"text"}, true
			case p.noRet[callee] && rel == "value":
				panic(absPanic{ktok{"error"}})
			case callee == w.classify:
				return ktuple{}, true
			}
			return nil, false
		}
		in.call(w.defn, []av{kptr{ps}}, nil)
		return nil
	}, 200)
	rule, msg := "complete", ""
	if c.fails {
		rule = "all-or-nothing"
	} else if c.del {
		rule = "deleted"
	}
	exists := c.binary && userB || !c.binary && userU
	for i, o := range outs {
		if o.aborted != "" || i >= len(rs) {
			msg = "undecided: " + o.aborted
			break
		}
		res := rs[i]
		after := w.state(res.co)
		if after.msg != "" {
			msg = after.msg
			break
		}
		if o.panicked {
			if d := res.before.diff(after); d != "" {
				msg = "it fails, but " + d
			} else if !c.fails && !(c.del && !exists) {
				msg = "it is refused"
			}
			continue
		}
		if c.fails || c.del && !exists {
			msg = "it is accepted"
			continue
		}
		// What should be there now.
		want := &defState{un: map[string]*obj{}, bin: map[string]*obj{}, vars: map[string]*obj{}}
		for k, v := range res.before.un {
			want.un[k] = v
		}
		for k, v := range res.before.bin {
			want.bin[k] = v
		}
		for k, v := range res.before.vars {
			want.vars[k] = v
		}
		self := fmt.Sprintf("%s/%v", c.opName, c.binary)
		for _, d := range res.before.defs {
			if d != self {
				want.defs = append(want.defs, d)
			}
		}
		tab, now := want.un, after.un
		if c.binary {
			tab, now = want.bin, after.bin
		}
		delete(tab, c.opName)
		if !c.del {
			delete(want.vars, c.opName)
			want.defs = append(want.defs, self)
			f := now[c.opName]
			switch {
			case f == nil || f == oldU || f == oldB:
				msg = "the operator is not defined"
				continue
			case w.function(f, c, res.body) != "":
				msg = w.function(f, c, res.body)
				continue
			}
			tab[c.opName] = f
		}
		if d := want.diff(after); d != "" {
			msg = d
		}
	}
	before := ""
	for i, b := range []string{"unary", "binary", "zero"} {
		if prior&(1<<i) != 0 {
			before += " " + b
		}
	}
	key := fmt.Sprintf("%s, before:%s", c.name, orStr(before, " nothing"))
	r.add(rule, key, w.defn.Pos(), msg == "", "%s", orStr(msg, "as it should be"))
	if nscope > 0 {
		r.add("in-scope", key, w.defn.Pos(), len(scope) == 0, "%s", orStr(strings.Join(uniqStrings(scope), "; "), "the operator and its arguments are known"))
	}
}

// function: the operator is what its definition says.
func (w *defWorld) function(f *obj, c defCase, body []string) string {
	if n, ok := constString(f.kids[w.fName].val); !ok || n != c.opName {
		return "the operator has another name"
	}
	if b, ok := f.kids[w.fBin].val.(kconst); !ok || b.v == nil || constant.BoolVal(b.v) != c.binary {
		return "the operator has another arity"
	}
	var got []string
	switch sl := f.kids[w.fBody].val.(type) {
	case kslice:
		if sl.arr != nil {
			for _, k := range sl.arr.kids[sl.lo:sl.hi] {
				t, ok := k.val.(ktok)
				if !ok {
					return "undecided: the body is not tracked"
				}
				got = append(got, t.name)
			}
		}
	case kconst:
	default:
		return "undecided: the body is not tracked"
	}
	if !slices.Equal(got, body) {
		return fmt.Sprintf("the body is %v, not %v", got, body)
	}
	// The arguments.
	args := c.head
	var want [2]string
	k := 0
	for i := 0; i < len(args); k++ {
		start := i
		depth := 0
		for {
			switch args[i].text {
			case "(":
				depth++
			case ")":
				depth--
			}
			i++
			if depth == 0 {
				break
			}
		}
		var s []string
		for _, t := range args[start:i] {
			s = append(s, t.text)
		}
		switch {
		case c.binary && k == 0:
			want[0] = strings.Join(s, " ")
		case c.binary && k == 2 || !c.binary && k == 1:
			want[1] = strings.Join(s, " ")
		}
	}
	for i, fi := range []int{w.fLeft, w.fRight} {
		if g := w.argument(f.kids[fi].val); g != want[i] {
			return fmt.Sprintf("the %s argument is %q, not %q", []string{"left", "right"}[i], g, want[i])
		}
	}
	return ""
}

func (w *defWorld) argument(v av) string {
	switch x := v.(type) {
	case kconst:
		if x.v == nil {
			return ""
		}
	case kiface:
		return w.argument(x.v)
	case kptr:
		if x.o != nil {
			for _, k := range x.o.kids {
				if s, ok := constString(k.val); ok {
					return s
				}
			}
		}
	case kslice:
		if x.arr == nil {
			return "( )"
		}
		s := []string{"("}
		for _, k := range x.arr.kids[x.lo:x.hi] {
			s = append(s, w.argument(k.val))
		}
		return strings.Join(append(s, ")"), " ")
	}
	return "?"
}

// defsUnchangedByParsing: no function the parser calls for an expression stores into the tables.
func (p *Prog) defsUnchangedByParsing(r *Report) {
	start := p.method("parse", "Parser", "expressionList")
	ctxN := p.namedType("exec", "Context")
	if start == nil || ctxN == nil {
		r.missing("parse-only", "parse.Parser.expressionList")
		return
	}
	seen := map[*ssa.Function]bool{}
	todo := []*ssa.Function{start}
	seen[start] = true
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if rp := relPkg(f); rp != "parse" && rp != "exec" {
			continue
		}
		g := p.cfg(f)
		msg := ""
		isTab := func(v ssa.Value) bool {
			for {
				switch x := v.(type) {
				case *ssa.UnOp:
					v = x.X
					continue
				case *ssa.ChangeType:
					v = x.X
					continue
				case *ssa.FieldAddr:
					if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), ctxN) {
						n := ctxN.Underlying().(*types.Struct).Field(x.Field).Name()
						return in2(n, "UnaryFn", "BinaryFn", "Defs", "Globals", "variables")
					}
				}
				return false
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !g.live(in) {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if isTab(x.Addr) {
						msg = "stores into the tables of the session"
					}
				case *ssa.MapUpdate:
					if isTab(x.Map) {
						msg = "stores into the tables of the session"
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && in2(bi.Name(), "delete", "clear") && isTab(x.Common().Args[0]) {
						msg = "removes from the tables of the session"
					}
				}
				for _, op := range in.Operands(nil) {
					if cf, ok := (*op).(*ssa.Function); ok && cf.Blocks != nil && p.inModule(cf) && !seen[cf] {
						seen[cf] = true
						todo = append(todo, cf)
					}
				}
			}
		}
		r.add("parse-only", fname(f), f.Pos(), msg == "", "%s", orStr(msg, "no table is changed"))
	}
}
