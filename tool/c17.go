package main

// C17: the statements of an operator run in order, and a conditional ends the operator exactly when its
// condition holds. Decided by interpreting the evaluation of operators over abstract bodies, and the
// parser over lists of statements.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkC17 }

func checkC17(p *Prog, r *Report) {
	r.rule("body", "the statements of an operator run in order, each once; a conditional evaluates its condition, and if that holds then its result, which ends the operator as its value, and nothing else if not; the operator's value is otherwise that of its last statement that is no conditional, and it is an error if there is none", 300)
	r.rule("truth", "a condition holds if it is a number or character other than zero, or a vector or matrix of one element for which it holds; any other vector or matrix is an error", 40)
	r.rule("parsed", "a line is parsed into its statements in order, a conditional into its condition and its result, each once; it is an error if part of one is missing or something is left over", 10)
	w := newBodyWorld(p)
	if w == nil {
		r.missing("body", "the evaluation of operators")
		return
	}
	w.bodies(r)
	w.truths(r)
	w.parsing(r)
}

type bodyWorld struct {
	p                                  *Prog
	fnN, ctxN, condN, binN, vecN, matN *types.Named
	exprI, valueI                      *types.Named
	fName, fBody, fLeft, fRight, fBin  int
	unary, binary                      *ssa.Function
	bLeft, bRight, bOp, cCond, matData int
}

func newBodyWorld(p *Prog) *bodyWorld {
	w := &bodyWorld{p: p}
	w.fnN, w.ctxN = p.namedType("exec", "Function"), p.namedType("exec", "Context")
	w.condN, w.binN = p.namedType("value", "CondExpr"), p.namedType("value", "BinaryExpr")
	w.vecN, w.matN = p.namedType("value", "Vector"), p.namedType("value", "Matrix")
	w.exprI, w.valueI = p.namedType("value", "Expr"), p.namedType("value", "Value")
	w.fName, w.fBody, w.fLeft, w.fRight = fieldNamed(w.fnN, "Name"), fieldNamed(w.fnN, "Body"), fieldNamed(w.fnN, "Left"), fieldNamed(w.fnN, "Right")
	w.fBin = fieldNamed(w.fnN, "IsBinary")
	w.bLeft, w.bRight, w.bOp = fieldNamed(w.binN, "Left"), fieldNamed(w.binN, "Right"), fieldNamed(w.binN, "Op")
	w.cCond, w.matData = -1, -1
	for _, i := range []int{w.fName, w.fBody, w.fLeft, w.fRight, w.fBin, w.bLeft, w.bRight, w.bOp} {
		if i < 0 {
			return nil
		}
	}
	if w.condN == nil || w.vecN == nil || w.matN == nil || w.ctxN == nil || w.exprI == nil || w.valueI == nil {
		return nil
	}
	if st, ok := w.condN.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if pt, ok := st.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), w.binN) {
				w.cCond = i
			}
		}
	}
	if st, ok := w.matN.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if pt, ok := st.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), w.vecN) {
				w.matData = i
			}
		}
	}
	w.unary, w.binary = p.method("exec", "Function", "EvalUnary"), p.method("exec", "Function", "EvalBinary")
	if w.cCond < 0 || w.matData < 0 || w.unary == nil || w.binary == nil {
		return nil
	}
	return w
}

// bstmt is a statement of a body: a plain one, or a conditional with its condition's value.
type bstmt struct {
	cond bool
	val  func(w *bodyWorld) av // the value of the condition
	is   string                // "true", "false" or "error"
	desc string
}

// cond makes an expression for a conditional.
func (w *bodyWorld) cond(l, r av) av {
	b := newObj(w.binN)
	b.kids[w.bLeft].val, b.kids[w.bRight].val, b.kids[w.bOp].val = l, r, sconst(":")
	c := newObj(w.condN)
	c.kids[w.cCond].val = kptr{b}
	return kiface{types.NewPointer(w.condN), kptr{c}}
}

// run evaluates an operator with the body; trace is what was evaluated, in order, and how it ended.
func (w *bodyWorld) run(body []bstmt, binary bool, s *scen) []string {
	p := w.p
	var traces []*[]string
	var where *[]string
	outs := explore(p, func() *interp { return newScenInterp(p, s) }, func(in *interp) av {
		tr := &[]string{}
		where = tr
		traces = append(traces, tr)
		scenCall := in.onCall
		scenAssert := in.onAssert
		in.onAssert = func(x av, t types.Type) (av, bool, bool) {
			if tk, ok := x.(ktok); ok && strings.HasPrefix(tk.name, "EXPR") {
				return nil, true, false // none of the kinds of expression that are treated specially
			}
			return scenAssert(x, t)
		}
		in.onDyn = vecDyn
		scenCmp := in.onCmp
		in.onCmp = func(op token.Token, x, y av) (bool, bool) {
			if b, ok := tokNotNil(op, x, y); ok {
				return b, ok
			}
			return scenCmp(op, x, y)
		}
		in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
			name := ""
			if callee != nil {
				name = callee.Name()
			} else if m != nil {
				name = m.Name()
			}
			if len(args) > 0 {
				if tk, ok := args[0].(ktok); ok && strings.HasPrefix(tk.name, "EXPR") {
					switch name {
					case "Eval":
						what := strings.TrimPrefix(tk.name, "EXPR ")
						*where = append(*where, what)
						if what[0] == 'C' {
							var i int
							fmt.Sscanf(what, "C%d", &i)
							return body[i].val(w), true
						}
						return ktok{"VALUE " + what}, true
					case "ProgString":
						return ktok{"text"}, true
					}
				}
				if tk, ok := args[0].(ktok); ok && strings.HasPrefix(tk.name, "VALUE") && name == "Inner" {
					return args[0], true
				}
			}
			if name == "Inner" && len(args) == 1 {
				if _, ok := unIface(args[0]).(*kvec); ok {
					return kiface{types.NewPointer(w.vecN), unIface(args[0])}, true
				}
			}
			if callee != nil {
				if v, ok := vecCall(in, callee, args); ok {
					return v, true
				}
				rel := relPkg(callee)
				if rel == "config" {
					if callee.Name() == "MaxStack" {
						return iconst(1000), true
					}
					if callee.Name() == "Debug" {
						return iconst(0), true
					}
					return kunknown{}, true
				}
				if rel == "exec" && callee.Name() == "Config" {
					return ktok{"CONF"}, true
				}
				if rel == "value" && callee.Signature.Results().Len() == 0 {
					for _, a := range args {
						if t, ok := a.(ktok); ok && (t.name == "PARAM left" || t.name == "PARAM right") {
							return ktuple{}, true
						}
					}
				}
				if p.noRet[callee] && rel == "value" {
					panic(absPanic{ktok{"error"}})
				}
				if rel == "exec" && recvName(callee) == "Context" && framesOnly(callee) {
					return ktuple{}, true // frames are the matter of C05 and C06
				}
			}
			return scenCall(in, callee, m, args, site)
		}
		co := newObj(w.ctxN)
		fo := newObj(w.fnN)
		fo.kids[w.fName].val, fo.kids[w.fBin].val = sconst("foo"), bconst(binary)
		fo.kids[w.fLeft].val, fo.kids[w.fRight].val = ktok{"PARAM left"}, ktok{"PARAM right"}
		arr := &obj{elem: types.NewArray(w.exprI, int64(len(body))), kids: []*obj{}}
		for i, b := range body {
			k := newObj(w.exprI)
			if b.cond {
				k.val = w.cond(ktok{fmt.Sprintf("EXPR C%d", i)}, ktok{fmt.Sprintf("EXPR R%d", i)})
			} else {
				k.val = ktok{fmt.Sprintf("EXPR P%d", i)}
			}
			arr.kids = append(arr.kids, k)
		}
		fo.kids[w.fBody].val = kslice{arr, 0, len(arr.kids)}
		ctx := kiface{types.NewPointer(w.ctxN), kptr{co}}
		if binary {
			return in.call(w.binary, []av{kptr{fo}, ctx, ktok{"VALUE left"}, ktok{"VALUE right"}}, nil)
		}
		return in.call(w.unary, []av{kptr{fo}, ctx, ktok{"VALUE right"}}, nil)
	}, 200)
	var res []string
	for i, o := range outs {
		t := ""
		if i < len(traces) {
			t = strings.Join(*traces[i], " ")
		}
		switch {
		case o.aborted != "":
			t += " undecided: " + o.aborted
		case o.panicked:
			if k, ok := o.pval.(ktok); ok && k.name == "error" {
				t += " fails"
			} else {
				t += " crashes"
			}
		default:
			t += " gives " + strings.TrimPrefix(showAV(o.ret), "VALUE ")
		}
		res = append(res, strings.TrimSpace(t))
	}
	return uniqStrings(res)
}

// want is the trace there should be.
func wantTrace(body []bstmt) string {
	var t []string
	last := ""
	for i, b := range body {
		if !b.cond {
			last = fmt.Sprintf("P%d", i)
			t = append(t, last)
			continue
		}
		t = append(t, fmt.Sprintf("C%d", i))
		switch b.is {
		case "true":
			res := fmt.Sprintf("R%d", i)
			return strings.Join(append(t, res, "gives", res), " ")
		case "error":
			return strings.Join(append(t, "fails"), " ")
		}
	}
	if last == "" {
		return strings.Join(append(t, "fails"), " ")
	}
	return strings.Join(append(t, "gives", last), " ")
}

func (w *bodyWorld) judge(r *Report, rule, key string, body []bstmt, binary bool, s *scen) {
	want := wantTrace(body)
	got := w.run(body, binary, s)
	msg := ""
	for _, g := range got {
		if g != want {
			msg = fmt.Sprintf("it evaluates %q where it should be %q", g, want)
			if strings.Contains(g, "undecided") {
				msg = g
			}
		}
	}
	if len(got) == 0 {
		msg = "undecided: no path"
	}
	f := w.unary
	if binary {
		f = w.binary
	}
	r.add(rule, key, f.Pos(), msg == "", "%s", orStr(msg, want))
}

// bodies: every body of up to four statements.
func (w *bodyWorld) bodies(r *Report) {
	intN := w.p.namedType("value", "Int")
	c := func(n int64) func(*bodyWorld) av {
		return func(*bodyWorld) av { return kiface{intN, iconst(n)} }
	}
	kinds := []bstmt{
		{desc: "plain"},
		{cond: true, val: c(1), is: "true", desc: "holds"},
		{cond: true, val: c(0), is: "false", desc: "does not hold"},
		{cond: true, val: func(w *bodyWorld) av {
			return kiface{types.NewPointer(w.vecN), &kvec{name: "bad", elems: []av{kiface{intN, iconst(1)}, kiface{intN, iconst(1)}}}}
		}, is: "error", desc: "is no truth value"},
	}
	var rec func(body []bstmt)
	rec = func(body []bstmt) {
		if len(body) > 0 {
			var d []string
			for _, b := range body {
				d = append(d, b.desc)
			}
			for _, binary := range []bool{false, true} {
				if binary && len(body) > 3 {
					continue
				}
				key := "unary: "
				if binary {
					key = "binary: "
				}
				w.judge(r, "body", key+strings.Join(d, ", "), body, binary, &scen{kind: map[string]string{}})
			}
		}
		if len(body) < 4 {
			for _, k := range kinds {
				rec(append(body[:len(body):len(body)], k))
			}
		}
	}
	rec(nil)
	// Some long ones: conditionals throughout, of which the last, the one in the middle or none holds.
	for _, n := range []int{7, 10, 17, 40} {
		for holds := 0; holds < 3; holds++ {
			var body []bstmt
			for i := 0; i < n; i++ {
				k := kinds[i%2*2]
				if holds == 1 && i == n/2 || holds == 2 && i == n-1 {
					k = kinds[1]
				}
				body = append(body, k)
			}
			w.judge(r, "body", fmt.Sprintf("%d statements, case %d", n, holds), body, holds == 1, &scen{kind: map[string]string{}})
		}
	}
}

// truths: conditions of every kind.
func (w *bodyWorld) truths(r *Report) {
	p := w.p
	try := func(desc, is string, s *scen, val func(*bodyWorld) av) {
		w.judge(r, "truth", desc, []bstmt{{cond: true, val: val, is: is}, {}}, false, s)
	}
	yes := func(b bool) string {
		if b {
			return "true"
		}
		return "false"
	}
	vec := func(es ...av) av { return kiface{types.NewPointer(w.vecN), &kvec{name: "v", elems: es}} }
	shaped := func(shape []int64, es ...av) av {
		o := newObj(w.matN)
		o.kids[w.matData].val = &kvec{name: "m", elems: es}
		arr := &obj{elem: types.NewArray(types.Typ[types.Int], int64(len(shape))), kids: []*obj{}}
		for _, n := range shape {
			k := newObj(types.Typ[types.Int])
			k.val = iconst(n)
			arr.kids = append(arr.kids, k)
		}
		setField(o, w.matN, func(f *types.Var) bool {
			sl, ok := f.Type().Underlying().(*types.Slice)
			return ok && types.Identical(sl.Elem(), types.Typ[types.Int])
		}, kslice{arr, 0, len(shape)})
		return kiface{types.NewPointer(w.matN), kptr{o}}
	}
	mat := func(es ...av) av { return shaped([]int64{1, int64(len(es))}, es...) }
	column := func(es ...av) av { return shaped([]int64{int64(len(es)), 1}, es...) }
	cube := func(es ...av) av { return shaped([]int64{1, int64(len(es)), 1}, es...) }
	type scalar struct {
		desc string
		sign int
		s    *scen
		v    av
	}
	var scalars []scalar
	for _, k := range []string{"int", "char", "bigInt", "bigRat", "bigFloat"} {
		for sign := -1; sign <= 1; sign++ {
			if (k == "bigInt" || k == "bigRat") && sign == 0 || k == "char" && sign < 0 {
				continue
			}
			n := p.namedType("value", kindGoType[k])
			scalars = append(scalars, scalar{fmt.Sprintf("%s of sign %d", k, sign), sign,
				&scen{kind: map[string]string{"x": k}, ord: map[string]int{}, sign: map[string]int{"x": sign}}, kiface{n, ktok{"x"}}})
		}
	}
	n := p.namedType("value", "Complex")
	for _, k := range []string{"int", "bigFloat"} {
		for re := -1; re <= 1; re++ {
			for im := -1; im <= 1; im++ {
				sg := 0
				if re != 0 || im != 0 {
					sg = 1
				}
				scalars = append(scalars, scalar{fmt.Sprintf("complex with %s parts of signs %d and %d", k, re, im), sg,
					&scen{kind: map[string]string{"x": "complex", "x.real": k, "x.imag": k}, ord: map[string]int{}, sign: map[string]int{"x.real": re, "x.imag": im}}, kiface{n, ktok{"x"}}})
			}
		}
	}
	for _, sc := range scalars {
		is := yes(sc.sign != 0)
		try(sc.desc, is, sc.s, func(*bodyWorld) av { return sc.v })
		try("vector of one "+sc.desc, is, sc.s, func(*bodyWorld) av { return vec(sc.v) })
		try("matrix of one "+sc.desc, is, sc.s, func(*bodyWorld) av { return mat(sc.v) })
		try("three-dimensional matrix of one "+sc.desc, is, sc.s, func(*bodyWorld) av { return cube(sc.v) })
		try("vector of a vector of one "+sc.desc, is, sc.s, func(*bodyWorld) av { return vec(vec(sc.v)) })
	}
	intN := p.namedType("value", "Int")
	c := func(n int64) av { return kiface{intN, iconst(n)} }
	none := &scen{kind: map[string]string{}}
	for _, b := range []struct {
		desc string
		mk   func(...av) av
	}{{"vector", vec}, {"matrix", mat}, {"column", column}, {"three-dimensional matrix", cube}} {
		try("empty "+b.desc, "error", none, func(*bodyWorld) av { return b.mk() })
		try(b.desc+" of a vector of two", "error", none, func(*bodyWorld) av { return b.mk(vec(c(1), c(1))) })
		for _, x := range []int64{0, 1} {
			for _, y := range []int64{0, 1} {
				try(fmt.Sprintf("%s %d %d", b.desc, x, y), "error", none, func(*bodyWorld) av { return b.mk(c(x), c(y)) })
			}
		}
	}
}

// parsing: lists of statements.
func (w *bodyWorld) parsing(r *Report) {
	p := w.p
	list := p.method("parse", "Parser", "expressionList")
	parserN := p.namedType("parse", "Parser")
	expr := p.method("parse", "Parser", "expr")
	if expr == nil && parserN != nil {
		// The parser of expressions is the one without arguments that calls itself.
		ms := types.NewMethodSet(types.NewPointer(parserN))
		for i := 0; i < ms.Len(); i++ {
			f := p.prog.MethodValue(ms.At(i))
			sig := f.Signature
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), w.exprI) && callsItself(f) {
				expr = f
			}
		}
	}
	if list == nil || expr == nil {
		r.missing("parsed", "the parser of statements")
		return
	}
	tokField := -1
	tokN := p.namedType("scan", "Token")
	st := parserN.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields() && tokField < 0; i++ {
		if sl, ok := st.Field(i).Type().(*types.Slice); ok && types.Identical(sl.Elem(), tokN) {
			tokField = i
		}
	}
	if tokField < 0 {
		r.missing("parsed", "the tokens of the parser")
		return
	}
	for _, c := range []struct{ in, want string }{
		{"a", "a"},
		{"a;b", "a, b"},
		{"a:b", "a:b"},
		{"a;b;c", "a, b, c"},
		{"a:b;c", "a:b, c"},
		{"a;b:c", "a, b:c"},
		{"a:b;c:d", "a:b, c:d"},
		{"a;b:c;d;e:f;g", "a, b:c, d, e:f, g"},
		{"a:", "fails"},
		{":a", "fails"},
		{"a;", "fails"},
		{";a", "fails"},
		{"a;;b", "fails"},
		{"a:b:c", "fails"},
		{"a::b", "fails"},
		{"a:b;", "fails"},
		{"a;b:", "fails"},
		{"a)", "fails"},
		{"a;b)", "fails"},
		{"a:b)", "fails"},
		{"a b", "fails"},
	} {
		var toks []tokSpec
		for _, ch := range c.in {
			switch ch {
			case ';':
				toks = append(toks, tokSpec{"Semicolon", ";"})
			case ':':
				toks = append(toks, tokSpec{"Colon", ":"})
			case ')':
				toks = append(toks, tokSpec{"RightParen", ")"})
			case ' ':
			default:
				toks = append(toks, tokSpec{"Identifier", string(ch)})
			}
		}
		outs := explore(p, func() *interp { return &interp{p: p, globals: map[*ssa.Global]*obj{}, onCmp: tokNotNil} }, func(in *interp) av {
			ps := newObj(parserN)
			rw := &runWorld{p: p}
			rw.setTokens(ps, toks)
			setField(ps, parserN, func(f *types.Var) bool {
				pt, ok := f.Type().(*types.Pointer)
				return ok && types.Identical(pt.Elem(), w.ctxN)
			}, kptr{newObj(w.ctxN)})
			in.onAssert = func(x av, t types.Type) (av, bool, bool) {
				if tk, ok := x.(ktok); ok && strings.HasPrefix(tk.name, "EXPR") {
					return nil, true, false
				}
				return nil, false, false
			}
			in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
				if callee == nil {
					return nil, false
				}
				switch rel := relPkg(callee); {
				case callee == expr:
					// An expression is one identifier here.
					sl, ok := ps.kids[tokField].val.(kslice)
					if !ok {
						in.abort("the tokens are not tracked")
					}
					if sl.arr == nil || sl.lo >= sl.hi {
						panic(absPanic{ktok{"error"}})
					}
					t := sl.arr.kids[sl.lo]
					text := ""
					for i := range t.kids {
						if s, ok := constString(t.kids[i].val); ok {
							text += s
						}
					}
					if len(text) != 1 || text[0] < 'a' || text[0] > 'z' {
						panic(absPanic{ktok{"error"}})
					}
					ps.kids[tokField].val = kslice{sl.arr, sl.lo + 1, sl.hi}
					return ktok{"EXPR " + text}, true
				case rel == "scan":
					return ktok{"text"}, true
				case rel == "config":
					if callee.Name() == "Debug" {
						return iconst(0), true
					}
					return kunknown{}, true
				case rel == "exec" && callee.Name() == "Config":
					return ktok{"CONF"}, true
				case p.noRet[callee]:
					panic(absPanic{ktok{"error"}})
				}
				return nil, false
			}
			return in.call(list, []av{kptr{ps}}, nil)
		}, 200)
		msg := ""
		for _, o := range outs {
			got := ""
			switch {
			case o.aborted != "":
				got = "undecided: " + o.aborted
			case o.panicked:
				got = "crashes"
				if k, ok := o.pval.(ktok); ok && k.name == "error" {
					got = "fails"
				}
			default:
				got = w.showParsed(o.ret)
			}
			if got != c.want {
				msg = fmt.Sprintf("%q is parsed as %q, not %q", c.in, got, c.want)
			}
		}
		if len(outs) == 0 {
			msg = "undecided: no path"
		}
		r.add("parsed", c.in, list.Pos(), msg == "", "%s", orStr(msg, c.want))
	}
}

func (w *bodyWorld) showParsed(v av) string {
	t, ok := v.(ktuple)
	if !ok || len(t.f) == 0 {
		return "something unknown"
	}
	if len(t.f) > 1 {
		b, ok := t.f[1].(kconst)
		if !ok || b.v == nil || b.v.Kind() != constant.Bool {
			return "undecided: something unknown"
		}
		if !constant.BoolVal(b.v) {
			return "nothing"
		}
	}
	sl, ok := t.f[0].(kslice)
	if !ok || sl.arr == nil {
		return "nothing"
	}
	name := func(a av) string {
		if k, ok := unIface(a).(ktok); ok {
			return strings.TrimPrefix(k.name, "EXPR ")
		}
		return "something"
	}
	var out []string
	for _, k := range sl.arr.kids[sl.lo:sl.hi] {
		if pt, ok := unIface(k.val).(kptr); ok && len(pt.o.kids) > w.cCond {
			if f, ok := k.val.(kiface); ok && types.Identical(f.t, types.NewPointer(w.condN)) {
				if b, ok := pt.o.kids[w.cCond].val.(kptr); ok && b.o != nil {
					out = append(out, name(b.o.kids[w.bLeft].val)+":"+name(b.o.kids[w.bRight].val))
					continue
				}
			}
		}
		out = append(out, name(k.val))
	}
	return strings.Join(out, ", ")
}

// framesOnly: the method delivers nothing and calls no function it is given.
func framesOnly(f *ssa.Function) bool {
	if f.Signature.Results().Len() > 0 {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if _, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return false
		}
	}
	return true
}

func callsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}
