package main

// C07: with a given seed a session always does the same.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkC07 }

// A randWorld interprets the operators that draw random numbers, and the configuration that holds
// the generator.
type randWorld struct {
	p      *Prog
	m      *model
	conf   *obj
	locked bool
	events []string
	sites  map[token.Pos]bool // of draws
	state  map[string]string  // of sources
	nsrc   int
	signs  map[string]int // known signs of numbers
}

func isDraw(f *ssa.Function) bool {
	switch pk := relTo(f); pk {
	case "math/rand", "math/rand/v2":
		if f.Signature.Recv() != nil {
			return !in2(f.Name(), "Seed", "MarshalBinary", "UnmarshalBinary", "AppendBinary")
		}
		return !strings.HasPrefix(f.Name(), "New") && f.Name() != "init"
	case "crypto/rand":
		return f.Name() != "init"
	}
	return false
}

var narrowRE = regexp.MustCompile(`\b(u?int(8|16|32|64)?|uint|byte|rune|robpike\.io/ivy/value\.Int)\(([^()]*)\)`)

// plain strips conversions between integer types.
func plain(s string) string {
	for {
		t := narrowRE.ReplaceAllString(s, "$3")
		if t == s {
			return s
		}
		s = t
	}
}

func (w *randWorld) interp() *interp {
	p := w.p
	in := &interp{p: p, symInts: true, symStrings: true, max: 100000}
	in.onCmp = func(op token.Token, x, y av) (bool, bool) {
		nilc := func(a av) bool { k, ok := a.(kconst); return ok && k.v == nil }
		_, ok1 := tokOf(x)
		_, ok2 := tokOf(y)
		if (ok1 && nilc(y) || ok2 && nilc(x)) && (op == token.EQL || op == token.NEQ) {
			return op == token.NEQ, true
		}
		return false, false
	}
	draw := func(site ssa.CallInstruction, f *ssa.Function, gen string, bound av) av {
		w.sites[site.Pos()] = true
		b := ""
		if bound != nil {
			b = plain(w.m.term(bound))
		}
		w.events = append(w.events, fmt.Sprintf("draw from %s", gen))
		if n, ok := constOf(bound); ok && (n < 0 || n == 0 && f.Name() != "Perm") || w.signs != nil && b == "X" && w.signs["X"] <= 0 {
			w.events = append(w.events, "it draws a number below one that is not positive, which panics with the generator locked")
		}
		if !w.locked {
			w.events = append(w.events, "draw without the lock")
		}
		return ktok{fmt.Sprintf("draw<%s>", b)}
	}
	in.onCall = func(in *interp, callee *ssa.Function, mt *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
		if callee == nil {
			if mt != nil && mt.Name() == "Config" && len(args) == 1 {
				return kptr{w.conf}, true
			}
			if mt != nil && mt.Name() == "Sprint" {
				return ktok{"text"}, true
			}
			return nil, false
		}
		name, recv := callee.Name(), recvName(callee)
		if relPkg(callee) == "value" && recv == "" && name == "Errorf" {
			if w.locked {
				w.events = append(w.events, "error while locked")
			}
			panic(absPanic{sconst("error")})
		}
		switch relTo(callee) {
		case "sync":
			switch name {
			case "Lock", "RLock":
				if w.locked {
					w.events = append(w.events, "locked twice")
				}
				w.locked = true
				return kconst{nil}, true
			case "Unlock", "RUnlock":
				if !w.locked {
					w.events = append(w.events, "unlocked twice")
				}
				w.locked = false
				return kconst{nil}, true
			}
		case "time":
			if callee.Signature.Results().Len() == 1 {
				w.nsrc++
				return ktok{fmt.Sprintf("clock%s#%d", name, w.nsrc)}, true
			}
			return kunknown{}, true
		case "math/rand", "math/rand/v2":
			switch {
			case recv == "" && (name == "NewChaCha8" || name == "NewPCG" || name == "NewSource"):
				w.nsrc++
				t := fmt.Sprintf("source%d", w.nsrc)
				w.state[t] = w.seedTerm(args)
				return ktok{t}, true
			case recv == "" && name == "New":
				return ktok{"rand(" + w.m.term(args[0]) + ")"}, true
			case name == "Seed":
				w.state[w.m.term(args[0])] = w.seedTerm(args[1:])
				return kconst{nil}, true
			}
			if isDraw(callee) {
				if recv == "" {
					return draw(site, callee, "the package's own generator", nil), true
				}
				gen := w.m.term(args[0])
				if name == "Perm" {
					n, ok := constOf(args[1])
					draw(site, callee, gen, args[1])
					if !ok {
						return kunknown{}, true
					}
					o := &obj{elem: types.NewArray(types.Typ[types.Int], n), kids: []*obj{}}
					for i := int64(0); i < n; i++ {
						k := newObj(types.Typ[types.Int])
						k.val = ktok{fmt.Sprintf("perm%d[%d]", n, i)}
						o.kids = append(o.kids, k)
					}
					return kslice{o, 0, len(o.kids)}, true
				}
				var b av
				if len(args) > 1 {
					b = args[1]
				}
				return draw(site, callee, gen, b), true
			}
		case "crypto/rand":
			if isDraw(callee) {
				var b av
				if len(args) > 1 {
					b = args[1]
				}
				t := draw(site, callee, w.m.term(args[0]), b)
				if name == "Int" {
					return ktuple{[]av{w.m.bigObj(callee.Signature.Results().At(0).Type().(*types.Pointer).Elem(), w.m.term(t)), kconst{nil}}}, true
				}
				return kunknown{}, true
			}
		case "encoding/binary":
			if strings.HasPrefix(name, "PutUint64") && len(args) > 1 {
				s, ok := args[len(args)-2].(kslice)
				if ok && s.hi-s.lo >= 8 {
					for i := 0; i < 8; i++ {
						in.store(s.arr.kids[s.lo+i], ktok{fmt.Sprintf("uint8((%s>>%d))", w.m.term(args[len(args)-1]), 8*i)})
					}
					return kconst{nil}, true
				}
			}
		case "math/big":
			if len(args) > 0 {
				switch name {
				case "Sign", "Cmp", "IsInt64", "BitLen", "Int64", "IsInt", "IsInf":
					if name == "Int64" {
						return ktok{w.m.term(args[0])}, true
					}
					if t := w.m.term(args[0]); name == "Sign" {
						if s, ok := w.signs[t]; ok {
							return iconst(int64(s)), true
						}
					}
					return kunknown{}, true
				case "Add", "Sub", "Mul", "Quo", "Lsh", "Rsh", "Neg", "Abs":
					if pt, ok := args[0].(kptr); ok && pt.o != nil {
						t := name + "("
						for i, a := range args[1:] {
							if i > 0 {
								t += ","
							}
							t += plain(w.m.term(a))
						}
						w.m.terms[pt.o] = t + ")"
						return args[0], true
					}
				}
			}
		case "fmt":
			return ktok{"text"}, true
		}
		if v, ok := w.m.call(in, callee, mt, args); ok {
			return v, true
		}
		return nil, false
	}
	p.setDebugFlagsGlobal(in)
	return in
}

// seedTerm renders what a generator is seeded with.
func (w *randWorld) seedTerm(args []av) string {
	var s []string
	for _, a := range args {
		s = append(s, w.m.term(a))
	}
	return strings.Join(s, ",")
}

var shiftRE = regexp.MustCompile(`\(\(([^()]*)>>(\d+)\)>>(\d+)\)`)
var byteRE = regexp.MustCompile(`(?:uint8|byte)\(\(?([^()>]*)(>>(\d+))?\)?\)`)

// seedBits says which bits of the seed a generator's state is made from, and whether anything else
// is in it.
func seedBits(state, seed string) (missing []int, other string) {
	for {
		t := shiftRE.ReplaceAllStringFunc(state, func(m string) string {
			g := shiftRE.FindStringSubmatch(m)
			a, _ := strconv.Atoi(g[2])
			b, _ := strconv.Atoi(g[3])
			return fmt.Sprintf("(%s>>%d)", g[1], a+b)
		})
		if t == state {
			break
		}
		state = t
	}
	have := map[int]bool{}
	rest := byteRE.ReplaceAllStringFunc(state, func(m string) string {
		g := byteRE.FindStringSubmatch(m)
		if g[1] != seed {
			return m
		}
		sh, _ := strconv.Atoi(g[3])
		for i := 0; i < 8; i++ {
			have[sh+i] = true
		}
		return ""
	})
	// The whole seed as a number.
	parts := strings.FieldsFunc(rest, func(r rune) bool { return strings.ContainsRune("{}[],() ", r) })
	for _, x := range parts {
		switch {
		case x == seed:
			for i := 0; i < 64; i++ {
				have[i] = true
			}
		case regexp.MustCompile(`^\d+$`).MatchString(x):
		default:
			other = x
		}
	}
	for i := 0; i < 64; i++ {
		if !have[i] {
			missing = append(missing, i)
		}
	}
	return missing, other
}

func checkC07(p *Prog, r *Report) {
	r.rule("seed", "after the seed is set, or chosen at the start, the generator's state is made from all of the seed and nothing else, the reported seed is that one, and numbers are drawn from that generator", 3)
	r.rule("draws", "? and rand draw from the session's generator, holding its lock, and have released it whatever happens", 5)
	r.rule("values", "roll gives the origin plus a draw below the operand, deal gives the first of a permutation counted from the origin, rand scales a draw below its own bound", 3)
	r.rule("only there", "random numbers are drawn nowhere else", 3)
	r.rule("map order", "no result depends on the order in which a map is visited: what a loop over a map collects is sorted before it is used", 2)
	r.rule("clock", "the clock and the like are read only by sys, encode and decode, to choose the first seed, for time zones and to time statements", 5)
	r.rule("one at a time", "no operator that draws random numbers, or that a user defined, is applied by several workers at once, where the order of the draws would depend on the schedule", 15)
	r.rule("other", "no choice between ready channels, no formatting of addresses", 0)
	p.seedRules(r)
	p.drawRules(r)
	p.mapOrder(r)
	p.clockRules(r)
	// What workers apply is decided for C08; the order of draws depends on it too.
	w := newReport(p, r.ID)
	for _, n := range []string{"tiling", "join", "operators", "elements", "private", "shared-state"} {
		w.rule(n, n, 0)
	}
	p.workerBodies(w)
	for _, o := range w.Obls {
		if o.Rule == "operators" {
			o.Rule = "one at a time"
			r.Obls = append(r.Obls, o)
		}
	}
}

func (p *Prog) seedRules(r *Report) {
	cfgN := p.namedType("config", "Config")
	m := func(n string) *ssa.Function { return p.method("config", "Config", n) }
	if cfgN == nil || m("SetRandomSeed") == nil || m("RandomSeed") == nil || m("Random") == nil || m("Source") == nil {
		r.missing("seed", "Config's random generator")
		return
	}
	cases := []struct {
		what string
		run  func(in *interp, c av, w *randWorld)
		seed string
	}{
		{"a new configuration", func(in *interp, c av, w *randWorld) {}, ""},
		{"setting the seed of a new configuration", func(in *interp, c av, w *randWorld) {
			in.call(m("SetRandomSeed"), []av{c, ktok{"N"}}, nil)
		}, "N"},
		{"setting the seed after drawing", func(in *interp, c av, w *randWorld) {
			in.call(m("Random"), []av{c}, nil)
			in.call(m("SetRandomSeed"), []av{c, ktok{"N"}}, nil)
		}, "N"},
		{"setting the seed twice", func(in *interp, c av, w *randWorld) {
			in.call(m("SetRandomSeed"), []av{c, ktok{"M"}}, nil)
			in.call(m("SetRandomSeed"), []av{c, ktok{"N"}}, nil)
		}, "N"},
		{"setting the output, then the seed", func(in *interp, c av, w *randWorld) {
			if f := m("SetOutput"); f != nil {
				in.call(f, []av{c, ktok{"OUT"}}, nil)
			}
			in.call(m("SetRandomSeed"), []av{c, ktok{"N"}}, nil)
		}, "N"},
		{"setting the same seed again after drawing", func(in *interp, c av, w *randWorld) {
			in.call(m("SetRandomSeed"), []av{c, ktok{"N"}}, nil)
			in.call(m("Random"), []av{c}, nil)
			for k := range w.state {
				w.state[k] = "an earlier draw"
			}
			in.call(m("SetRandomSeed"), []av{c, ktok{"N"}}, nil)
		}, "N"},
	}
	for _, c := range cases {
		var w *randWorld
		bad := ""
		n := 0
		outs := explore(p, func() *interp {
			w = &randWorld{p: p, m: newModel(p), sites: map[token.Pos]bool{}, state: map[string]string{}}
			return w.interp()
		}, func(in *interp) av {
			w.conf = newObj(cfgN)
			cp := kptr{w.conf}
			c.run(in, cp, w)
			rnd := w.m.term(in.call(m("Random"), []av{cp}, nil))
			src := w.m.term(in.call(m("Source"), []av{cp}, nil))
			seed := w.m.term(in.call(m("RandomSeed"), []av{cp}, nil))
			n++
			st, ok := w.state[src]
			switch {
			case !ok:
				bad = "the generator's source is not one that was seeded: " + src
			case rnd != "rand("+src+")":
				bad = "numbers are drawn from " + rnd + " but the seed goes to " + src
			case c.seed != "" && seed != c.seed:
				bad = "the seed reported is " + seed
			case w.locked:
				bad = "the generator is left locked"
			default:
				miss, other := seedBits(st, plain64(seed))
				if other != "" {
					bad = fmt.Sprintf("the state also depends on %s", other)
				} else if len(miss) > 0 {
					bad = fmt.Sprintf("%d of the seed's bits are not used (the state is %s)", len(miss), st)
				}
			}
			return kconst{nil}
		}, 60)
		for _, o := range outs {
			if o.aborted != "" {
				bad = "not decided: " + o.aborted
			}
			if o.panicked {
				bad = "it panics"
			}
		}
		if n == 0 && bad == "" {
			bad = "not decided"
		}
		r.add("seed", c.what, m("SetRandomSeed").Pos(), bad == "", "%s", bad)
	}
}

func plain64(s string) string {
	for _, t := range []string{"uint64(", "int64("} {
		if strings.HasPrefix(s, t) && strings.HasSuffix(s, ")") {
			return s[len(t) : len(s)-1]
		}
	}
	return s
}

func (p *Prog) drawRules(r *Report) {
	tabs := p.opTables()
	sites := map[token.Pos]bool{}
	type opRun struct {
		e    *opEntry
		kind string
		args []av
		want func(res, confOrigin string) string
	}
	valN := func(n string) types.Type { return p.namedType("value", n) }
	bigField := func(w *randWorld, named, tok string) av {
		n := p.namedType("value", named)
		o := newObj(n)
		st := n.Underlying().(*types.Struct)
		pt := st.Field(0).Type().(*types.Pointer)
		o.kids[0].val = w.m.bigObj(pt.Elem(), tok)
		return kiface{n, (&interp{}).load(o)}
	}
	operand := map[string]func(w *randWorld) av{
		"int":      func(w *randWorld) av { return kiface{valN("Int"), ktok{"X"}} },
		"bigInt":   func(w *randWorld) av { return bigField(w, "BigInt", "X") },
		"bigRat":   func(w *randWorld) av { return bigField(w, "BigRat", "X") },
		"bigFloat": func(w *randWorld) av { return bigField(w, "BigFloat", "X") },
	}
	var signs map[string]int
	play := func(what string, f *ssa.Function, bind []av, mkArgs func(w *randWorld) []av, judge func(w *randWorld, res string) string, mustDraw bool) {
		var w *randWorld
		bad, badVal := "", ""
		drew := false
		done := 0
		outs := explore(p, func() *interp {
			w = &randWorld{p: p, m: newModel(p), sites: sites, state: map[string]string{}, signs: signs}
			return w.interp()
		}, func(in *interp) av {
			cw := &confWorld{p: p, m: w.m, flagVal: -1}
			w.conf = cw.newConf(false)
			defer func() {
				if w.locked {
					bad = "the generator is left locked"
				}
				for _, e := range w.events {
					if strings.HasPrefix(e, "draw from ") {
						drew = true
						if g := e[len("draw from "):]; g != "f:random" && g != "f:source" && !strings.HasPrefix(g, "f:") {
							bad = "it draws from " + g
						}
					} else {
						bad = e
					}
				}
			}()
			res := in.call(f, append([]av{ktok{"C"}}, mkArgs(w)...), bind)
			done++
			if judge != nil {
				if s := judge(w, w.m.term(res)); s != "" {
					badVal = s
				}
			}
			return res
		}, 200)
		for _, o := range outs {
			if o.aborted != "" && o.aborted != "too many paths" {
				bad = "not decided: " + o.aborted
			}
			if o.panicked && w.m.term(o.pval) != `"error"` {
				bad = "it panics: " + w.m.term(o.pval)
			}
		}
		if bad == "" && mustDraw && !drew {
			bad = "it draws no number"
		}
		r.add("draws", what, f.Pos(), bad == "", "%s", bad)
		if judge != nil {
			if done == 0 {
				badVal = "no result"
			}
			if badVal == "from zero" {
				r.bad("values", what+" counts from zero", f.Pos(), "the result is a number below the operand; the origin is not added")
				badVal = ""
			}
			r.add("values", what, f.Pos(), badVal == "", "%s", badVal)
		}
	}
	// f:origin + draw<X>, in either order.
	rolled := func(w *randWorld, res string) string {
		t := plain(res)
		t = strings.TrimSuffix(strings.TrimPrefix(t, "{"), "}")
		for _, o := range []string{"f:origin", "f:bigOrigin"} {
			for _, f := range []string{"(%s+draw<X>)", "Add(%s,draw<X>)"} {
				a := fmt.Sprintf(f, o)
				b := strings.NewReplacer("%s", "draw<X>", "draw<X>", o).Replace(f)
				if t == a || t == b {
					return ""
				}
			}
		}
		if t == "draw<X>" {
			return "from zero"
		}
		return "the result is " + t + ", not the origin plus a number below the operand"
	}
	if e := tabs.unary["?"]; e != nil {
		for _, k := range kindNames {
			if f := e.fn[k]; f != nil && operand[k] != nil {
				k := k
				play("roll of "+k, f, e.bind[k], func(w *randWorld) []av { return []av{operand[k](w)} }, rolled, true)
			}
		}
		// Operands that are not positive.
		for _, n := range []int{0, -1} {
			n := n
			if f := e.fn["int"]; f != nil {
				play(fmt.Sprintf("roll of the integer %d", n), f, e.bind["int"], func(w *randWorld) []av { return []av{kiface{valN("Int"), iconst(int64(n))}} }, nil, false)
			}
			if f := e.fn["bigInt"]; f != nil {
				signs = map[string]int{"X": n}
				play(fmt.Sprintf("roll of a big integer of sign %d", n), f, e.bind["bigInt"], func(w *randWorld) []av { return []av{operand["bigInt"](w)} }, nil, false)
				signs = nil
			}
		}
	} else {
		r.missing("draws", "unary ?")
	}
	if e := tabs.unary["rand"]; e != nil {
		for _, k := range kindNames {
			if f := e.fn[k]; f != nil && operand[k] != nil {
				k := k
				play("rand of "+k, f, e.bind[k], func(w *randWorld) []av { return []av{operand[k](w)} }, func(w *randWorld, res string) string {
					return scaled(plain(res))
				}, true)
			}
		}
	} else {
		r.missing("draws", "unary rand")
	}
	if e := tabs.binary["?"]; e != nil && e.fn["int"] != nil {
		for _, ab := range [][2]int64{{0, 0}, {0, 3}, {1, 1}, {2, 3}, {3, 3}, {3, 2}, {-1, 2}, {1, -1}} {
			a, b := ab[0], ab[1]
			ok := 0 <= a && a <= b
			var judge func(w *randWorld, res string) string
			if ok {
				judge = func(w *randWorld, res string) string {
					var want []string
					for i := int64(0); i < a; i++ {
						want = append(want, fmt.Sprintf("perm%d[%d]", b, i))
					}
					return dealt(plain(res), b, want)
				}
			}
			play(fmt.Sprintf("%d ? %d", a, b), e.fn["int"], e.bind["int"], func(w *randWorld) []av {
				return []av{kiface{valN("Int"), iconst(a)}, kiface{valN("Int"), iconst(b)}}
			}, judge, false)
		}
	} else {
		r.missing("draws", "binary ?")
	}
	// Nowhere else.
	n := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cf := c.Common().StaticCallee()
				if cf == nil || !isDraw(cf) {
					continue
				}
				n++
				r.add("only there", fmt.Sprintf("%s calls %s.%s", fname(f), relTo(cf), cf.Name()), c.Pos(), sites[c.Pos()], "drawn outside ? and rand, or where they do not lead")
			}
		}
	}
}

// scaled: Mul(Quo(draw<M>,M),X) in any association that multiplies the quotient by the operand.
func scaled(t string) string {
	t = strings.Trim(t, "{}")
	i := strings.Index(t, "draw<")
	if i < 0 || strings.Count(t, "draw<") != 1 {
		return "the result is " + t + ", not one draw scaled"
	}
	j := i + 5
	depth := 0
	for ; j < len(t); j++ {
		if t[j] == '(' {
			depth++
		}
		if t[j] == ')' {
			depth--
		}
		if t[j] == '>' && depth == 0 {
			break
		}
	}
	if j >= len(t) {
		return "the result is " + t
	}
	m := t[i+5 : j]
	d := "draw<" + m + ">"
	q := "Quo(" + d + "," + m + ")"
	for _, w := range []string{"Mul(" + q + ",X)", "Mul(X," + q + ")", "Quo(Mul(" + d + ",X)," + m + ")", "Quo(Mul(X," + d + ")," + m + ")"} {
		if t == w {
			return ""
		}
	}
	return "the result is " + t + ", not a draw divided by its bound and multiplied by the operand"
}

func dealt(t string, b int64, want []string) string {
	t = strings.TrimSuffix(strings.TrimPrefix(t, "vec("), ")")
	var got []string
	if t != "" {
		got = strings.Split(t, ",")
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d numbers are dealt, not %d", len(got), len(want))
	}
	seen := map[string]bool{}
	for _, g := range got {
		g = strings.Trim(g, "()")
		if !strings.Contains(g, "f:origin") {
			return "a number dealt does not count from the origin: " + g
		}
		g = strings.Trim(strings.ReplaceAll(g, "f:origin", ""), "+")
		if !strings.HasPrefix(g, fmt.Sprintf("perm%d[", b)) {
			return "a number dealt is not of the permutation: " + g
		}
		if seen[g] {
			return "a number is dealt twice"
		}
		seen[g] = true
	}
	sort.Strings(got)
	return ""
}

// mapOrder: loops over maps.
func (p *Prog) mapOrder(r *Report) {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				rg, ok := i.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				bad := p.mapLoop(f, rg)
				r.add("map order", "loop over a map in "+fname(f), rg.Pos(), bad == "", "%s", bad)
			}
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Select); ok && len(s.States) > 1 {
					r.bad("other", "select in "+fname(f), s.Pos(), "chooses at random between ready channels")
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cf := c.Common().StaticCallee()
				if cf == nil {
					continue
				}
				// maps.Keys and the like visit in random order too.
				o := cf
				if cf.Origin() != nil {
					o = cf.Origin()
				}
				if o.Pkg != nil && o.Pkg.Pkg.Path() == "maps" && in2(o.Name(), "Keys", "Values", "All") {
					call, ok := i.(*ssa.Call)
					if !ok {
						continue
					}
					bad := ""
					for _, ref := range *call.Referrers() {
						if uc, ok := ref.(ssa.CallInstruction); ok {
							if u := uc.Common().StaticCallee(); u != nil {
								un := u
								if u.Origin() != nil {
									un = u.Origin()
								}
								if un.Pkg != nil && un.Pkg.Pkg.Path() == "slices" && strings.HasPrefix(un.Name(), "Sorted") {
									continue
								}
								if un.Pkg != nil && un.Pkg.Pkg.Path() == "slices" && un.Name() == "Collect" {
									if v, ok := uc.(*ssa.Call); ok && p.sortedBeforeUse(v, nil) {
										continue
									}
								}
							}
						}
						bad = "its keys or values are used in the order visited"
					}
					r.add("map order", "maps."+o.Name()+" in "+fname(f), call.Pos(), bad == "", "%s", bad)
				}
				if strings.HasPrefix(relTo(cf), "fmt") || cf.Name() == "Printf" || cf.Name() == "Errorf" {
					for _, a := range c.Common().Args {
						if s, ok := constStr(a); ok && strings.Contains(s, "%p") {
							r.bad("other", "format in "+fname(f), c.Pos(), "prints an address")
						}
					}
				}
			}
		}
	}
}

// mapLoop: the loop does nothing that depends on the order, or what it collects is sorted.
func (p *Prog) mapLoop(f *ssa.Function, rg *ssa.Range) string {
	g := p.cfg(f)
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// Blocks of the loop: those that reach the head again and are reached from it.
	inLoop := map[*ssa.BasicBlock]bool{head: true}
	for _, b := range f.Blocks {
		if b != head && len(b.Instrs) > 0 && g.reachableFrom(head.Instrs[0], b.Instrs[0]) && g.reachableFrom(b.Instrs[0], head.Instrs[0]) && g.dominates(head, b) {
			inLoop[b] = true
		}
	}
	for b := range inLoop {
		for _, s := range b.Succs {
			if !inLoop[s] && b != head {
				return "it is left early, after a part of the map that depends on the order"
			}
		}
		if b != head {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return "it returns from the middle of the loop"
			}
		}
	}
	// Values that outlive the loop.
	collected := map[ssa.Value]bool{}
	for b := range inLoop {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				root := x.Addr
				idx := false
				for {
					switch a := root.(type) {
					case *ssa.IndexAddr:
						root = a.X
						idx = true
						continue
					case *ssa.FieldAddr:
						root = a.X
						continue
					}
					break
				}
				if al, ok := root.(*ssa.Alloc); ok && inLoop[al.Block()] {
					continue // made anew on every iteration
				}
				if u, ok := root.(*ssa.UnOp); ok && u.Op == token.MUL {
					if al, ok := u.X.(*ssa.Alloc); ok && idx {
						collected[al] = true
						continue
					}
				}
				if idx {
					collected[root] = true
					continue
				}
				if al, ok := root.(*ssa.Alloc); ok {
					// A counter, or the collection itself.
					if isCounter(x.Val) {
						continue
					}
					collected[al] = true
					continue
				}
				return "it stores to " + root.Name() + " in the order visited"
			case *ssa.Phi:
				if b == head {
					if _, ok := x.Type().Underlying().(*types.Slice); ok {
						collected[x] = true
					} else if !isCounterPhi(x) {
						used := false
						for _, ref := range *x.Referrers() {
							if !inLoop[ref.Block()] {
								used = true
							}
						}
						if used {
							return "a value computed in the order visited is used after the loop"
						}
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok && in2(bi.Name(), "len", "cap", "append", "delete", "min", "max", "copy") {
					continue
				}
				if cf := cc.StaticCallee(); cf != nil && p.pureCall(cf) {
					continue
				}
				what := "a function"
				if cf := cc.StaticCallee(); cf != nil {
					what = fname(cf)
				}
				return "it calls " + what + " for each entry in the order visited"
			case *ssa.Send, *ssa.Go, *ssa.Panic:
				return "it acts in the order visited"
			}
		}
	}
	var cs []ssa.Value
	for v := range collected {
		cs = append(cs, v)
	}
	for _, v := range cs {
		if !p.sortedBeforeUse(v, inLoop) {
			return "what it collects is used without being sorted"
		}
	}
	return ""
}

func isCounter(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	_, ok = b.Y.(*ssa.Const)
	return ok
}

func isCounterPhi(x *ssa.Phi) bool {
	for _, e := range x.Edges {
		if _, ok := e.(*ssa.Const); ok {
			continue
		}
		if !isCounter(e) {
			return false
		}
	}
	return true
}

// pureCall: strings and the like, which have no effect.
func (p *Prog) pureCall(f *ssa.Function) bool {
	return in2(relTo(f), "strings", "strconv", "unicode", "unicode/utf8") && f.Signature.Recv() == nil
}

// sortedBeforeUse: outside the loop, v (a slice, or the variable holding one) is only read after it
// has been sorted. Tests of its length or against nil do not count.
func (p *Prog) sortedBeforeUse(v ssa.Value, inLoop map[*ssa.BasicBlock]bool) bool {
	f := v.Parent()
	if f == nil {
		return false
	}
	g := p.cfg(f)
	isSort := func(c ssa.CallInstruction) bool {
		cf := c.Common().StaticCallee()
		if cf == nil {
			return false
		}
		o := cf
		if cf.Origin() != nil {
			o = cf.Origin()
		}
		if o.Pkg == nil {
			return false
		}
		switch o.Pkg.Pkg.Path() {
		case "sort":
			return in2(o.Name(), "Sort", "Strings", "Slice", "SliceStable", "Stable", "Ints", "Float64s") && p.totalOrder(c)
		case "slices":
			return in2(o.Name(), "Sort", "SortFunc", "SortStableFunc") && p.totalOrder(c)
		}
		return false
	}
	alias := map[ssa.Value]bool{}
	var sorts, uses []ssa.Instruction
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if alias[v] {
			return
		}
		alias[v] = true
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, ref := range *refs {
			if inLoop[ref.Block()] {
				if ph, ok := ref.(*ssa.Phi); ok {
					walk(ph)
				}
				if c, ok := ref.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						walk(c)
					}
				}
				continue
			}
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.ChangeType, *ssa.MakeInterface, *ssa.Convert, *ssa.Phi, *ssa.Slice, *ssa.ChangeInterface:
				walk(x.(ssa.Value))
			case *ssa.UnOp:
				if x.Op == token.MUL {
					walk(x)
				}
			case *ssa.MakeClosure:
				// The closure given to sort.Slice.
			case *ssa.BinOp:
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					walk(al)
				} else if x.Addr == v {
					// The variable is set before the loop.
				} else {
					uses = append(uses, x)
				}
			case ssa.CallInstruction:
				if isSort(x) {
					sorts = append(sorts, x)
					continue
				}
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && in2(bi.Name(), "len", "cap") {
					continue
				}
				uses = append(uses, x)
			default:
				uses = append(uses, ref)
			}
		}
	}
	walk(v)
	for _, u := range uses {
		if len(inLoop) > 0 && !p.afterLoop(g, inLoop, u) {
			continue
		}
		ok := false
		for _, s := range sorts {
			if g.instrDominates(s, u) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (p *Prog) afterLoop(g *cfg, inLoop map[*ssa.BasicBlock]bool, u ssa.Instruction) bool {
	for b := range inLoop {
		if len(b.Instrs) > 0 && g.reachableFrom(b.Instrs[0], u) {
			return true
		}
	}
	return false
}

// clockRules: reading the clock and the machine's state.
func (p *Prog) clockRules(r *Report) {
	source := func(f *ssa.Function) bool {
		switch relTo(f) {
		case "time":
			return f.Signature.Recv() == nil && in2(f.Name(), "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker")
		case "os":
			return in2(f.Name(), "Getpid", "Getppid", "Hostname", "Getenv", "LookupEnv", "Environ", "Getwd", "Executable")
		case "runtime":
			return in2(f.Name(), "NumCPU", "NumGoroutine", "ReadMemStats", "NumCgoCall")
		case "hash/maphash", "math/rand", "crypto/rand":
			return in2(f.Name(), "MakeSeed")
		case "syscall":
			return true
		}
		return false
	}
	opOf := map[*ssa.Function]map[string]bool{}
	for _, e := range p.opTables().all() {
		for _, f := range e.fn {
			if f != nil {
				if opOf[f] == nil {
					opOf[f] = map[string]bool{}
				}
				opOf[f][e.name] = true
			}
		}
	}
	allowedOp := map[string]bool{"sys": true, "encode": true, "decode": true}
	run := p.fn("run", "Run")
	// tops of the direct calls leading to f.
	var judge func(f *ssa.Function, seen map[*ssa.Function]bool) string
	judge = func(f *ssa.Function, seen map[*ssa.Function]bool) string {
		if seen[f] {
			return ""
		}
		seen[f] = true
		if ops := opOf[f]; ops != nil {
			for o := range ops {
				if !allowedOp[o] {
					return "operator " + o + " depends on it"
				}
			}
			return ""
		}
		if relPkg(f) == "config" {
			// The first seed, time zones.
			if in2(f.Name(), "init", "SetLocation", "SetCPUTime") {
				return ""
			}
		}
		if f == run {
			return ""
		}
		if relPkg(f) == "parse" && p.onlyPrinted(f) {
			return ""
		}
		if f.Parent() != nil {
			return judge(f.Parent(), seen)
		}
		sites := 0
		for _, s := range p.callSites(f) {
			if s.Common().StaticCallee() == nil && relPkg(f) != relPkg(s.Parent()) {
				continue
			}
			sites++
			if bad := judge(s.Parent(), seen); bad != "" {
				return bad
			}
		}
		if sites == 0 {
			if relPkg(f) == "main" || relPkg(f) == "" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				return ""
			}
			return fname(f) + " depends on it"
		}
		return ""
	}
	for _, f := range p.funcs {
		rp := relPkg(f)
		if !in2(rp, "value", "exec", "parse", "scan", "run", "config", "mobile") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cf := c.Common().StaticCallee()
				if cf == nil || !source(cf) {
					continue
				}
				bad := ""
				if f == run {
					bad = p.onlyTimes(c)
				} else if rp == "run" && relTo(cf) == "syscall" {
					bad = "" // the processor time, judged where it is used, in Run
				} else {
					bad = judge(f, map[*ssa.Function]bool{})
				}
				r.add("clock", fmt.Sprintf("%s.%s in %s", relTo(cf), cf.Name(), fname(f)), c.Pos(), bad == "", "%s", bad)
			}
		}
	}
}

// onlyPrinted: what the function reads of the clock is only printed.
func (p *Prog) onlyPrinted(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if cf := c.Call.StaticCallee(); cf != nil && relTo(cf) == "time" && cf.Name() == "Now" {
					if p.flowsTo(c, func(u ssa.CallInstruction) bool {
						n := ""
						if uf := u.Common().StaticCallee(); uf != nil {
							n = uf.Name()
							if relTo(uf) == "time" {
								return true
							}
						}
						return strings.Contains(n, "rint")
					}) != "" {
						return false
					}
				}
			}
		}
	}
	return true
}

// onlyTimes: the time of a statement goes to SetCPUTime and nowhere else.
func (p *Prog) onlyTimes(c ssa.CallInstruction) string {
	v, ok := c.(*ssa.Call)
	if !ok {
		return ""
	}
	return p.flowsTo(v, func(u ssa.CallInstruction) bool {
		uf := u.Common().StaticCallee()
		return uf != nil && (relTo(uf) == "time" || uf.Name() == "SetCPUTime")
	})
}

// flowsTo follows the value; every call it reaches must satisfy ok.
func (p *Prog) flowsTo(v ssa.Value, ok func(ssa.CallInstruction) bool) string {
	seen := map[ssa.Value]bool{}
	bad := ""
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || bad != "" || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					root := x.Addr
					for {
						if ia, ok := root.(*ssa.IndexAddr); ok {
							root = ia.X
							continue
						}
						break
					}
					if al, ok := root.(*ssa.Alloc); ok {
						walk(al)
					} else {
						bad = "it is stored"
					}
				}
			case ssa.CallInstruction:
				if !ok(x) {
					bad = "it is given to " + x.String()
					return
				}
				if uf := x.Common().StaticCallee(); uf != nil && relTo(uf) == "time" {
					if cv, ok := x.(ssa.Value); ok {
						walk(cv)
					}
				}
			case *ssa.Return:
				bad = "it is returned"
			case *ssa.If:
				bad = "what happens depends on it"
			case ssa.Value:
				walk(x)
			}
		}
	}
	walk(v)
	return bad
}

var _ = constant.MakeInt64

// totalOrder: the comparison a sort uses tells apart any two elements whose strings differ. Every
// string of the two elements is a token, those of the first before those of the second; what is
// computed from them may be equal.
func (p *Prog) totalOrder(c ssa.CallInstruction) bool {
	args := c.Common().Args
	o := c.Common().StaticCallee()
	if o.Origin() != nil {
		o = o.Origin()
	}
	byIndex, three := true, false
	var fn *ssa.Function
	var mc *ssa.MakeClosure
	var slice types.Type
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			return v
		}
	}
	method := false
	switch o.Name() {
	case "Sort", "Stable":
		if o.Pkg.Pkg.Path() == "slices" {
			return true
		}
		mi, ok := args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		slice = mi.X.Type()
		if n := namedOf(slice); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
			return true // sort.StringSlice
		}
		ms := types.NewMethodSet(slice)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Less" {
				fn = p.prog.MethodValue(ms.At(i))
			}
		}
		method = true
	case "Slice", "SliceStable", "SortFunc", "SortStableFunc":
		slice = strip(args[0]).Type()
		switch x := args[1].(type) {
		case *ssa.MakeClosure:
			mc = x
			fn = x.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = x
		}
		if o.Pkg.Pkg.Path() == "slices" {
			byIndex, three = false, true
		}
	default:
		return true
	}
	st, ok := slice.Underlying().(*types.Slice)
	if fn == nil || len(fn.Blocks) == 0 || !ok {
		return false
	}
	run := func(x, y int) (res int, ok bool) {
		outs := explore(p, func() *interp {
			in := &interp{p: p, symStrings: true, max: 20000}
			in.onCmp = func(op token.Token, a, b av) (bool, bool) {
				cmp := 0
				if k, isK := b.(kconst); isK {
					if _, isK2 := a.(kconst); isK2 {
						return false, false
					}
					if k.v == nil {
						return op == token.NEQ, true
					}
				}
				sa, ok1 := tokOf(a)
				sb, ok2 := tokOf(b)
				if ok1 && ok2 && leafRE.MatchString(sa) && leafRE.MatchString(sb) && sa[2:] == sb[2:] {
					cmp = strings.Compare(sa[:2], sb[:2])
				}
				switch op {
				case token.EQL:
					return cmp == 0, true
				case token.NEQ:
					return cmp != 0, true
				case token.LSS:
					return cmp < 0, true
				case token.LEQ:
					return cmp <= 0, true
				case token.GTR:
					return cmp > 0, true
				case token.GEQ:
					return cmp >= 0, true
				}
				return false, false
			}
			in.onCall = func(in *interp, callee *ssa.Function, m *types.Func, args []av, site ssa.CallInstruction) (av, bool) {
				if callee == nil {
					return nil, false
				}
				o := callee
				if o.Origin() != nil {
					o = o.Origin()
				}
				if o.Name() == "Compare" && len(args) == 2 {
					lt, _ := in.onCmp(token.LSS, args[0], args[1])
					gt, _ := in.onCmp(token.GTR, args[0], args[1])
					return iconst(b2i(gt) - b2i(lt)), true
				}
				if relTo(o) == "cmp" && o.Name() == "Less" {
					lt, _ := in.onCmp(token.LSS, args[0], args[1])
					return bconst(lt), true
				}
				if o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), "robpike.io/ivy") {
					return nil, false
				}
				return ktok{"derived"}, true
			}
			return in
		}, func(in *interp) av {
			arr := &obj{elem: types.NewArray(st.Elem(), 2)}
			for i := 0; i < 2; i++ {
				e := newObj(st.Elem())
				markLeaves(e, fmt.Sprintf("e%d", i))
				arr.kids = append(arr.kids, e)
			}
			sl := kslice{arr, 0, 2}
			var bind []av
			if mc != nil {
				for _, b := range mc.Bindings {
					if pt, ok := b.Type().Underlying().(*types.Pointer); ok {
						if _, ok := pt.Elem().Underlying().(*types.Slice); ok {
							v := newObj(pt.Elem())
							v.val = sl
							bind = append(bind, kptr{v})
							continue
						}
					}
					if _, ok := b.Type().Underlying().(*types.Slice); ok {
						bind = append(bind, sl)
						continue
					}
					bind = append(bind, kunknown{})
				}
			}
			var as []av
			if method {
				as = append(as, sl)
			}
			if byIndex {
				as = append(as, iconst(int64(x)), iconst(int64(y)))
			} else {
				as = append(as, in.load(arr.kids[x]), in.load(arr.kids[y]))
			}
			return in.call(fn, as, bind)
		}, 50)
		for i, o := range outs {
			if o.aborted != "" || o.panicked {
				return 0, false
			}
			k, isK := o.ret.(kconst)
			if !isK || k.v == nil {
				return 0, false
			}
			v := 0
			if three {
				n, _ := constant.Int64Val(k.v)
				v = int(n)
			} else if k.v.Kind() == constant.Bool {
				v = int(b2i(constant.BoolVal(k.v)))
			}
			if i > 0 && v != res {
				return 0, false
			}
			res = v
		}
		return res, len(outs) > 0
	}
	a, ok1 := run(0, 1)
	b, ok2 := run(1, 0)
	return ok1 && ok2 && a != b
}

var leafRE = regexp.MustCompile(`^e[01][.0-9]*$`)

// markLeaves gives every string in o a token.
func markLeaves(o *obj, name string) {
	if len(o.kids) == 0 {
		o.val = ktok{name}
		return
	}
	for i, k := range o.kids {
		markLeaves(k, fmt.Sprintf("%s.%d", name, i))
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
