package main

// Framework: loading the program, obligations, reporting.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "robpike.io/ivy"

// Prog is the resolved program under analysis.
type Prog struct {
	onEnter func(b *ssa.BasicBlock, ctx *ictx) // called by expand for each predicate it looks into

	root  string
	pkgs  []*packages.Package // module packages
	byRel map[string]*packages.Package
	prog  *ssa.Program
	spkg  map[string]*ssa.Package // by module-relative path ("" = main)
	fset  *token.FileSet
	funcs []*ssa.Function // every source function of the module, incl. closures and instantiations
	cg    *callgraph.Graph

	noRet   map[*ssa.Function]bool
	cfgs    map[*ssa.Function]*cfg
	callers map[*ssa.Function][]ssa.CallInstruction
	consts  map[string]bool
}

func load(root string) (*Prog, error) {
	fset := token.NewFileSet()
	conf := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   root,
		Fset:  fset,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	all, err := packages.Load(conf, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{root: root, byRel: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{}, fset: fset}
	var errs []string
	packages.Visit(all, nil, func(pk *packages.Package) {
		if pk.PkgPath == modPath || strings.HasPrefix(pk.PkgPath, modPath+"/") {
			p.pkgs = append(p.pkgs, pk)
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	sort.Slice(p.pkgs, func(i, j int) bool { return p.pkgs[i].PkgPath < p.pkgs[j].PkgPath })
	prog, _ := ssautil.Packages(p.pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	for _, pk := range p.pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		p.byRel[rel] = pk
		sp := prog.Package(pk.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		sp.Build()
		p.spkg[rel] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inModule(fn) && fn.Blocks != nil {
			p.funcs = append(p.funcs, fn)
		}
	}
	// AllFunctions only finds reachable instantiations; add everything declared.
	seen := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || seen[f] {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.pkgs {
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if obj, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(obj))
					}
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.computeNoReturn()
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if callee := c.Common().StaticCallee(); callee != nil {
						p.callers[callee] = append(p.callers[callee], c)
					}
				}
			}
		}
	}
	return p, nil
}

// callGraph lazily builds a VTA call graph over the module.
func (p *Prog) callGraph() *callgraph.Graph {
	if p.cg == nil {
		set := map[*ssa.Function]bool{}
		for _, f := range p.funcs {
			set[f] = true
		}
		for f := range ssautil.AllFunctions(p.prog) {
			set[f] = true
		}
		p.cg = vta.CallGraph(set, cha.CallGraph(p.prog))
	}
	return p.cg
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	pkg := funcPkg(fn)
	return pkg != nil && (pkg.Path() == modPath || strings.HasPrefix(pkg.Path(), modPath+"/"))
}

func funcPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

// relPkg returns the module-relative package path of fn ("value", "exec", "" for main).
func relPkg(fn *ssa.Function) string {
	pk := funcPkg(fn)
	if pk == nil {
		return "?"
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	if r, err := filepath.Rel(p.root, ps.Filename); err == nil {
		return fmt.Sprintf("%s:%d", r, ps.Line)
	}
	return ps.String()
}

// fname is a stable readable name of a function.
func fname(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "main")
	return s
}

// namedType looks up a named type in a module package.
func (p *Prog) namedType(rel, name string) *types.Named {
	pk := p.byRel[rel]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// fn finds a package-level function.
func (p *Prog) fn(rel, name string) *ssa.Function {
	if sp := p.spkg[rel]; sp != nil {
		return sp.Func(name)
	}
	return nil
}

// method finds a method by receiver type name (pointer or value receiver).
func (p *Prog) method(rel, typ, name string) *ssa.Function {
	n := p.namedType(rel, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

// ---------------------------------------------------------------- reporting

type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

type Report struct {
	p      *Prog
	ID     string
	Obls   []Obl
	keys   map[string]int
	Floors map[string]int // rule -> minimum number of instances
	Notes  []string
	rules  map[string]string
}

func newReport(p *Prog, id string) *Report {
	return &Report{p: p, ID: id, keys: map[string]int{}, Floors: map[string]int{}, rules: map[string]string{}}
}

// rule declares a rule, with the minimum instance count below which the check is vacuous.
func (r *Report) rule(name, text string, floor int) {
	r.rules[name] = text
	r.Floors[name] = floor
}

func (r *Report) add(rule, construct string, pos token.Pos, ok bool, format string, args ...any) {
	if _, known := r.rules[rule]; !known {
		panic("undeclared rule " + rule)
	}
	k := rule + "|" + construct
	r.keys[k]++
	if n := r.keys[k]; n > 1 {
		construct = fmt.Sprintf("%s#%d", construct, n)
	}
	r.Obls = append(r.Obls, Obl{rule, construct, r.p.pos(pos), ok, fmt.Sprintf(format, args...)})
}

func (r *Report) ok(rule, construct string, pos token.Pos, format string, args ...any) {
	r.add(rule, construct, pos, true, format, args...)
}

func (r *Report) bad(rule, construct string, pos token.Pos, format string, args ...any) {
	r.add(rule, construct, pos, false, format, args...)
}

// anchor reports an unresolved anchor as a failed obligation.
func (r *Report) missing(rule, what string) {
	r.add(rule, "anchor:"+what, token.NoPos, false, "cannot find %s in the current source; the rule cannot be decided", what)
}

func (r *Report) finish() {
	count := map[string]int{}
	for _, o := range r.Obls {
		count[o.Rule]++
	}
	var names []string
	for n := range r.Floors {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if count[n] < r.Floors[n] {
			r.add(n, "vacuity", token.NoPos, false, "rule matched %d instances, expected at least %d: the construct it governs has disappeared or can no longer be recognised", count[n], r.Floors[n])
		}
	}
}

type known struct {
	prop, key, text string
}

func readKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		// known: property=ID key=<rule|construct> text...
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(line, "known:")), " ", 3)
		if len(f) < 3 {
			continue
		}
		k := known{prop: strings.TrimPrefix(f[0], "property="), key: strings.TrimPrefix(f[1], "key="), text: f[2]}
		out = append(out, k)
	}
	return out
}

// emit prints the report, writes evidence, and returns the exit code.
func (r *Report) emit(verif string, start time.Time) int {
	r.finish()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	viol := 0
	perRule := map[string]map[string]int{}
	var report strings.Builder
	var samples []any
	sampled := map[string]int{}
	usedKnown := map[string]bool{}
	for _, o := range r.Obls {
		m := perRule[o.Rule]
		if m == nil {
			m = map[string]int{}
			perRule[o.Rule] = m
		}
		m["instances"]++
		if o.OK {
			m["hold"]++
			if sampled[o.Rule] < 4 {
				sampled[o.Rule]++
				samples = append(samples, o)
			}
			continue
		}
		key := strings.ReplaceAll(o.Rule+"|"+o.Construct, " ", "_")
		isKnown := false
		for _, k := range kn {
			if k.prop == r.ID && k.key == key {
				isKnown = true
				if !usedKnown[key] {
					usedKnown[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s]\n", r.ID, k.text, key, o.Pos)
				}
			}
		}
		if isKnown {
			m["known"]++
			continue
		}
		m["violated"]++
		viol++
		fmt.Fprintf(&report, "%s: rule %s violated at %s\n    %s\n    key=%s\n", o.Pos, o.Rule, o.Construct, o.Detail, key)
	}
	nf := len(r.p.funcs)
	fmt.Printf("property %s: analysed %d packages, %d functions; %d obligations\n", r.ID, len(r.p.pkgs), nf, len(r.Obls))
	var names []string
	for n := range r.rules {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m := perRule[n]
		fmt.Printf("  rule %-28s instances=%d hold=%d known=%d violated=%d\n", n, m["instances"], m["hold"], m["known"], m["violated"])
	}
	if os.Getenv("VERBOSE") != "" {
		for _, o := range r.Obls {
			fmt.Printf("    [%v] %s | %s @ %s: %s\n", o.OK, o.Rule, o.Construct, o.Pos, o.Detail)
		}
	}
	for _, n := range r.Notes {
		fmt.Println("  note:", n)
	}
	ruleText := map[string]any{}
	for _, n := range names {
		m := perRule[n]
		ruleText[n] = map[string]any{"rule": r.rules[n], "instances": m["instances"], "hold": m["hold"], "known_findings": m["known"], "violated": m["violated"], "minimum_instances": r.Floors[n]}
	}
	cov := map[string]any{
		"explanation":        "static analysis of the type-checked SSA form of every package of the module, rebuilt from the working tree on this run; every obligation is a rule instance at a named construct",
		"packages":           len(r.p.pkgs),
		"functions_analysed": nf,
		"obligation_count":   len(r.Obls),
		"rules":              ruleText,
		"samples":            samples,
	}
	ev := map[string]any{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viol,
		"assumptions": propAssumptions[r.ID],
	}
	if ev["assumptions"] == nil {
		delete(ev, "assumptions")
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if viol > 0 {
		replay := filepath.Join("evidence", r.ID+".violations.txt")
		os.WriteFile(filepath.Join(verif, replay), []byte(report.String()), 0o644)
		fmt.Print(report.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
		return 1
	}
	os.Remove(filepath.Join(verif, "evidence", r.ID+".violations.txt"))
	fmt.Printf("OK property=%s\n", r.ID)
	return 0
}

var propAssumptions = map[string][]string{}
