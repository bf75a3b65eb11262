package main

// What a construct returns: an edited vector, or a matrix of one with a shape.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A segment is a run of elements of a slice of integers, or one element.
type segment struct {
	base   string
	lo, hi poly
	elem   poly
}

func (s segment) String() string {
	if s.base == "" {
		return s.elem.String()
	}
	return fmt.Sprintf("%s[%s:%s]", s.base, s.lo, s.hi)
}

func segString(ss []segment) string {
	var out []string
	for _, s := range ss {
		out = append(out, s.String())
	}
	return strings.Join(out, " ")
}

// literal lists the elements stored in a composite slice literal or variadic argument list.
func literal(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := arr.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	n, ok := at.Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, n.Len())
	for _, r := range *arr.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			k, ok := constInt(ia.Index)
			if !ok || k < 0 || k >= n.Len() {
				return nil, false
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					if out[k] != nil {
						return nil, false
					}
					out[k] = st.Val
				}
			}
		}
	}
	return out, true
}

// segs evaluates a slice of integers to the runs it is made of.
func (ap *applier) segs(v ssa.Value, ctx *ictx) ([]segment, bool) { return ap.segsN(v, ctx, 0) }

func (ap *applier) segsN(v ssa.Value, ctx *ictx, d int) ([]segment, bool) {
	if d > 12 {
		return nil, false
	}
	w, c := ap.resolve(v, ctx)
	if k, ok := w.(*ssa.Const); ok && k.Value == nil {
		return nil, true
	}
	if es, ok := literal(w); ok {
		var out []segment
		for _, e := range es {
			m := poly{}
			if e != nil {
				m = ap.s.eval(e, c)
			}
			out = append(out, segment{elem: m})
		}
		return out, true
	}
	switch x := w.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "append" {
				return nil, false
			}
			p, ok := ap.segsN(x.Call.Args[0], c, d+1)
			if !ok {
				return nil, false
			}
			q, ok := ap.segsN(x.Call.Args[1], c, d+1)
			return append(append([]segment{}, p...), q...), ok
		}
		f := x.Call.StaticCallee()
		if f == nil {
			return nil, false
		}
		switch name := f.String(); {
		case strings.HasPrefix(name, "slices.Concat["):
			parts, ok := literal(x.Call.Args[0])
			if !ok {
				return nil, false
			}
			var out []segment
			for _, p := range parts {
				q, ok := ap.segsN(p, c, d+1)
				if !ok {
					return nil, false
				}
				out = append(out, q...)
			}
			return out, true
		case strings.HasPrefix(name, "slices.Clone["):
			return ap.segsN(x.Call.Args[0], c, d+1)
		}
		if f.Blocks != nil && ap.p.inModule(f) {
			if rt := onlyReturn(ap.p, f); rt != nil && len(rt.Results) == 1 {
				if n, _ := c.count(f); n == 0 {
					return ap.segsN(rt.Results[0], c.enter(x, f), d+1)
				}
			}
		}
	case *ssa.MakeSlice:
		// Filled by copies.
		type part struct {
			off poly
			ss  []segment
			n   poly
		}
		var parts []part
		var add func(v ssa.Value, off poly)
		add = func(v ssa.Value, off poly) {
			for _, r := range *v.Referrers() {
				switch y := r.(type) {
				case *ssa.Slice:
					if y.X == v {
						o := off
						if y.Low != nil {
							o = padd(off, ap.s.eval(y.Low, c))
						}
						add(y, o)
					}
				case *ssa.Call:
					b, ok := y.Call.Value.(*ssa.Builtin)
					if !ok || b.Name() != "copy" || y.Call.Args[0] != v {
						continue
					}
					ss, ok := ap.segsN(y.Call.Args[1], c, d+1)
					if !ok {
						parts = append(parts, part{off: off})
						continue
					}
					parts = append(parts, part{off, ss, ap.segLen(ss)})
				}
			}
		}
		add(x, poly{})
		at := poly{}
		var out []segment
		for range parts {
			hit := false
			for _, p := range parts {
				if p.n != nil && peq(ap.norm(p.off), ap.norm(at)) {
					out = append(out, p.ss...)
					at = padd(at, p.n)
					hit = true
					break
				}
			}
			if !hit {
				return nil, false
			}
		}
		return out, len(parts) > 0 && peq(ap.norm(at), ap.norm(ap.s.eval(x.Len, c)))
	case *ssa.Phi, *ssa.UnOp:
		if u, ok := w.(*ssa.UnOp); !ok || rootAlloc(u.X) != nil {
			return nil, false
		}
	}
	b, lo, hi := ap.intSlice(w, c)
	return []segment{{base: b, lo: lo, hi: hi}}, true
}

func (ap *applier) segLen(ss []segment) poly {
	n := poly{}
	for _, s := range ss {
		if s.base == "" {
			n = padd(n, pconst(1))
		} else {
			n = padd(n, psub(s.hi, s.lo))
		}
	}
	return n
}

// sameSegs compares up to the known equalities and to splitting of runs.
func (fs *factSet) sameSegs(a, b []segment) bool {
	join := func(ss []segment) []segment {
		var out []segment
		for _, s := range ss {
			if s.base != "" && fs.same(s.lo, s.hi) {
				continue
			}
			if n := len(out); n > 0 && s.base != "" && out[n-1].base == s.base && fs.same(out[n-1].hi, s.lo) {
				out[n-1].hi = s.hi
				continue
			}
			out = append(out, s)
		}
		return out
	}
	a, b = join(a), join(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].base != b[i].base || !fs.same(a[i].lo, b[i].lo) || !fs.same(a[i].hi, b[i].hi) || !fs.same(a[i].elem, b[i].elem) {
			return false
		}
	}
	return true
}

func (ap *applier) shapeSeg(m string) []segment {
	return []segment{{base: m + ".shape", lo: poly{}, hi: ap.length(m + ".shape")}}
}

// A result is one value a construct may return.
type result struct {
	v     ssa.Value
	ctx   *ictx
	at    ssa.Instruction // where control is when it is chosen
	kind  string          // "vector", "matrix", "other"
	pub   *ssa.Call       // the Publish
	pctx  *ictx
	shape ssa.Value
	sctx  *ictx
}

// outcomes lists the values a function may return, through helpers and merges.
func (ap *applier) results(f *ssa.Function, ctx *ictx) []result {
	var out []result
	g := ap.p.cfg(f)
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !g.live(rt) || len(rt.Results) == 0 {
			continue
		}
		ap.resultsOf(rt.Results[0], ctx, rt, &out, 0)
	}
	return out
}

func (ap *applier) resultsOf(v ssa.Value, ctx *ictx, at ssa.Instruction, out *[]result, d int) {
	w, c := ap.resolve(v, ctx)
	if d < 10 {
		switch x := w.(type) {
		case *ssa.Phi:
			g := ap.p.cfg(x.Parent())
			loop := false
			for _, pb := range g.preds[x.Block().Index] {
				if g.dominates(x.Block(), pb) {
					loop = true
				}
			}
			if loop {
				break
			}
			for i, e := range x.Edges {
				pb := x.Block().Preds[i]
				if g.reach[pb.Index] {
					ap.resultsOf(e, c, pb.Instrs[len(pb.Instrs)-1], out, d+1)
				}
			}
			return
		case *ssa.Call:
			f := ap.calleeOf(x, c)
			if f != nil && ap.entries[f] == "" && f.Blocks != nil && ap.apps[f] && f != ap.root {
				if n, _ := c.count(f); n == 0 {
					*out = append(*out, ap.results(f, c.enter(x, f))...)
					return
				}
			}
		}
	}
	o := result{v: w, ctx: c, at: at, kind: "other"}
	publish := func(v ssa.Value, c *ictx) (*ssa.Call, *ictx) {
		y, yc := ap.resolve(v, c)
		if call, ok := y.(*ssa.Call); ok {
			if typ, name := ap.method(call); typ == "vectorEditor" && name == "Publish" {
				return call, yc
			}
		}
		return nil, nil
	}
	if call, ok := w.(*ssa.Call); ok {
		if pb, pc := publish(w, c); pb != nil {
			o.kind, o.pub, o.pctx = "vector", pb, pc
		} else if f := call.Call.StaticCallee(); f != nil && f.Name() == "NewMatrix" && relPkg(f) == "value" {
			if pb, pc := publish(call.Call.Args[1], c); pb != nil {
				o.kind, o.pub, o.pctx = "matrix", pb, pc
				o.shape, o.sctx = call.Call.Args[0], c
			}
		}
	}
	*out = append(*out, o)
}

// edName names an editor value.
func (ap *applier) edName(v ssa.Value, c *ictx) string {
	return fmt.Sprintf("ed:%s@%d", uniq(v), ap.s.id(c))
}

// publishes: the editors the result may publish.
func (ap *applier) publishes(o result) [][2]any {
	if o.pub == nil {
		return nil
	}
	return ap.editors(o.pub.Call.Args[0], o.pctx)
}

// shapesFor lists the shapes the matrix may have when the editor made at `made` is the one published.
func (ap *applier) shapesFor(o result, made ssa.Value) ([][]segment, bool) {
	var out [][]segment
	ok := true
	var walk func(v ssa.Value, c *ictx, d int)
	walk = func(v ssa.Value, c *ictx, d int) {
		w, wc := ap.resolve(v, c)
		if ss, good := ap.segs(w, wc); good {
			out = append(out, ss)
			return
		}
		if d > 6 {
			ok = false
			return
		}
		switch x := w.(type) {
		case *ssa.Phi:
			g := ap.p.cfg(x.Parent())
			mi, isIn := made.(ssa.Instruction)
			for i, e := range x.Edges {
				pb := x.Block().Preds[i]
				if !g.reach[pb.Index] || e == w {
					continue
				}
				if isIn && mi.Parent() == x.Parent() {
					end := pb.Instrs[len(pb.Instrs)-1]
					if mi.Block() != pb && !g.reachableFrom(mi, end) {
						continue
					}
				}
				walk(e, wc, d+1)
			}
			return
		case *ssa.UnOp:
			if a := rootAlloc(x.X); a != nil {
				mi, isIn := made.(ssa.Instruction)
				g := ap.p.cfg(a.Parent())
				var last *ssa.Store
				n := 0
				for _, st := range storesTo(a) {
					if st.Parent() != a.Parent() || !isIn || mi.Parent() != a.Parent() {
						ok = false
						return
					}
					if g.instrDominates(st, mi) {
						if last == nil || g.instrDominates(last, st) {
							last = st
						}
					} else if g.reachableFrom(mi, st) {
						n++
						walk(st.Val, wc, d+1)
					}
				}
				if n == 0 && last != nil {
					walk(last.Val, wc, d+1)
					return
				}
				if n > 0 {
					return
				}
			}
		}
		ok = false
	}
	walk(o.shape, o.sctx, 0)
	return out, ok && len(out) > 0
}
