package main

// Abstract vectors of known length with unknown elements, for the interpreter: Len, At, All
// and the editor methods are answered here, everything else is interpreted.

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type kvec struct {
	name  string
	elems []av
}
type kall struct{ v *kvec }

func kint(a av) (int, bool) {
	if k, ok := a.(kconst); ok && k.v != nil && k.v.Kind() == constant.Int {
		i, ok := constant.Int64Val(k.v)
		return int(i), ok
	}
	return 0, false
}

func recvBase(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil {
		return ""
	}
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func unIface(a av) av {
	if k, ok := a.(kiface); ok {
		return k.v
	}
	return a
}

// vecCall answers the calls on abstract vectors.
func vecCall(in *interp, callee *ssa.Function, args []av) (av, bool) {
	if callee == nil {
		return nil, false
	}
	if recvBase(callee) == "Vector" && len(args) > 0 {
		v, ok := unIface(args[0]).(*kvec)
		if !ok {
			return nil, false
		}
		switch callee.Name() {
		case "Len":
			return iconst(int64(len(v.elems))), true
		case "At":
			if i, ok := kint(args[1]); ok {
				if i < 0 || i >= len(v.elems) {
					panic(absPanic{sconst("index out of range")})
				}
				return v.elems[i], true
			}
			in.abort("element at an unknown index")
		case "All":
			return kall{v}, true
		case "edit":
			return ktok{"edit(" + v.name + ")"}, true
		}
		return kunknown{}, true
	}
	if callee.Signature.Recv() == nil && callee.Name() == "NewVector" && len(args) == 1 {
		if s, ok := args[0].(kslice); ok {
			n := &kvec{name: "new"}
			for i := s.lo; i < s.hi; i++ {
				n.elems = append(n.elems, in.load(s.arr.kids[i]))
			}
			return n, true
		}
	}
	return nil, false
}

// vecDyn answers the call of an iterator over an abstract vector.
func vecDyn(in *interp, fv av, args []av) (av, bool) {
	k, ok := fv.(kall)
	if !ok || len(args) != 1 {
		return nil, false
	}
	y, ok := args[0].(kfunc)
	if !ok {
		in.abort("iteration with an unknown function")
	}
	for i, e := range k.v.elems {
		r := in.call(y.fn, []av{iconst(int64(i)), e}, y.bind)
		if b, ok := r.(kconst); ok && b.v != nil && b.v.Kind() == constant.Bool {
			if !constant.BoolVal(b.v) {
				break
			}
			continue
		}
		in.abort("iteration stops on something unknown")
	}
	return ktuple{}, true
}
