package main

// A model of vectors and big numbers for the abstract interpreter: vectors and vector editors are
// lists of abstract elements, big numbers are terms over the operands they were computed from.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model struct {
	p     *Prog
	vecs  map[*obj][]av
	unk   map[*obj]bool
	terms map[*obj]string
	kinds map[string]string // kinds of tokens
}

func newModel(p *Prog) *model {
	return &model{p: p, vecs: map[*obj][]av{}, unk: map[*obj]bool{}, terms: map[*obj]string{}, kinds: map[string]string{}}
}

// kind of an abstract value, or "".
func (m *model) kind(a av) string {
	switch x := a.(type) {
	case kiface:
		return valueKindOfType(x.t)
	case ktok:
		return m.kinds[x.name]
	case kptr:
		if x.o != nil {
			if k := valueKindOfType(types.NewPointer(x.o.elem)); k != "" {
				return k
			}
			return valueKindOfType(x.o.elem)
		}
	}
	if t, ok := tokOf(a); ok {
		return m.kinds[t]
	}
	return ""
}

// term renders a value as a term over operand tokens.
func (m *model) term(a av) string {
	switch x := a.(type) {
	case kiface:
		return m.term(x.v)
	case ktok:
		return x.name
	case kptr:
		if x.o == nil {
			return "nil"
		}
		if t, ok := m.terms[x.o]; ok {
			return t
		}
		if l, ok := m.vecs[x.o]; ok {
			if m.unk[x.o] {
				return "vec(?)"
			}
			var s []string
			for _, e := range l {
				s = append(s, m.term(e))
			}
			return "vec(" + strings.Join(s, ",") + ")"
		}
		if x.o.kids != nil {
			var s []string
			for _, k := range x.o.kids {
				s = append(s, m.term((&interp{}).load(k)))
			}
			return "{" + strings.Join(s, ",") + "}"
		}
	case kstruct:
		if t, ok := tokOf(a); ok {
			return t
		}
		var s []string
		for _, k := range x.f {
			s = append(s, m.term(k))
		}
		return "{" + strings.Join(s, ",") + "}"
	case kslice:
		var s []string
		for i := x.lo; i < x.hi; i++ {
			s = append(s, m.term((&interp{}).load(x.arr.kids[i])))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return showAV(a)
}

func (m *model) bigObj(t types.Type, term string) av {
	o := &obj{elem: t}
	m.terms[o] = term
	return kptr{o}
}

func (m *model) elems(a av) ([]av, bool) {
	switch x := a.(type) {
	case kslice:
		var out []av
		for i := x.lo; i < x.hi; i++ {
			out = append(out, (&interp{}).load(x.arr.kids[i]))
		}
		return out, true
	case kconst:
		if x.v == nil {
			return nil, true
		}
	}
	return nil, false
}

// call models the vector primitives and math/big; ok is false if the call is not modelled.
func (m *model) call(in *interp, callee *ssa.Function, method *types.Func, args []av) (av, bool) {
	if callee == nil {
		if method != nil && method.Name() == "Inner" && len(args) == 1 {
			return args[0], true
		}
		return nil, false
	}
	if callee.Name() == "Inner" && len(args) == 1 && callee.Signature.Recv() != nil {
		if n := namedOf(callee.Signature.Recv().Type()); n != nil && n.Obj().Name() != "QuietValue" {
			return nil, false
		}
	}
	rp := relPkg(callee)
	vecN, edN := m.p.namedType("value", "Vector"), m.p.namedType("value", "vectorEditor")
	recv := ""
	if r := callee.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	if rp == "value" && recv == "" && callee.Name() == "newVectorEditor" && len(args) == 2 && edN != nil {
		o := newObj(edN)
		m.vecs[o] = nil
		if n, ok := constOf(args[0]); ok && n >= 0 && n < 64 {
			for i := int64(0); i < n; i++ {
				m.vecs[o] = append(m.vecs[o], args[1])
			}
		} else {
			m.unk[o] = true
		}
		return kptr{o}, true
	}
	if rp == "value" && (recv == "vectorEditor" || recv == "Vector") && len(args) > 0 {
		pt, ok := args[0].(kptr)
		if ok && pt.o != nil {
			if l, ok := m.vecs[pt.o]; ok {
				switch callee.Name() {
				case "Len":
					if m.unk[pt.o] {
						return kunknown{}, true
					}
					return iconst(int64(len(l))), true
				case "At":
					if i, ok := constOf(args[1]); ok && !m.unk[pt.o] {
						if i < 0 || i >= int64(len(l)) {
							panic(absPanic{sconst("index out of range")})
						}
						return l[i], true
					}
					return kunknown{}, true
				case "Set":
					if i, ok := constOf(args[1]); ok && !m.unk[pt.o] {
						if i < 0 || i >= int64(len(l)) {
							panic(absPanic{sconst("index out of range")})
						}
						nl := append([]av(nil), l...)
						nl[i] = args[2]
						m.vecs[pt.o] = nl
					} else {
						m.unk[pt.o] = true
					}
					return kconst{nil}, true
				case "Append":
					if e, ok := m.elems(args[1]); ok && !m.unk[pt.o] {
						m.vecs[pt.o] = append(append([]av(nil), l...), e...)
					} else {
						m.unk[pt.o] = true
					}
					return kconst{nil}, true
				case "Publish":
					o := newObj(vecN)
					m.vecs[o], m.unk[o] = l, m.unk[pt.o]
					return kptr{o}, true
				case "edit":
					o := newObj(edN)
					m.vecs[o], m.unk[o] = l, m.unk[pt.o]
					return kptr{o}, true
				}
			}
		}
		if t, ok := args[0].(ktok); ok && recv == "Vector" && callee.Name() == "Len" {
			return ktok{"len(" + t.name + ")"}, true
		}
	}
	if relTo(callee) == "math/big" {
		return m.big(callee, recv, args)
	}
	return nil, false
}

func (m *model) big(callee *ssa.Function, recv string, args []av) (av, bool) {
	res := callee.Signature.Results()
	n := callee.Name()
	if recv == "" {
		switch n {
		case "NewInt", "NewFloat":
			return m.bigObj(res.At(0).Type().(*types.Pointer).Elem(), m.term(args[0])), true
		case "NewRat":
			return m.bigObj(res.At(0).Type().(*types.Pointer).Elem(), quoTerm(m.term(args[0]), m.term(args[1]))), true
		}
		return nil, false
	}
	t := ""
	switch n {
	case "SetPrec", "SetMode":
		return args[0], true
	case "Set", "SetInt", "SetInt64", "SetUint64", "SetRat", "SetFloat64":
		t = m.term(args[1])
	case "SetFrac", "SetFrac64":
		t = quoTerm(m.term(args[1]), m.term(args[2]))
	default:
		return nil, false
	}
	if pt, ok := args[0].(kptr); ok && pt.o != nil {
		m.terms[pt.o] = t
		return pt, true
	}
	return m.bigObj(callee.Signature.Recv().Type().(*types.Pointer).Elem(), t), true
}

func quoTerm(a, b string) string {
	if b == "1" {
		return a
	}
	return a + "/" + b
}

func boolOf(a av) (v, ok bool) {
	k, isC := a.(kconst)
	if !isC || k.v == nil || k.v.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(k.v), true
}
