package spec

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

type (
	In  = ai.In
	Val = ai.Val
	Lin = ai.Lin
)

// typeParams are the type parameters of a named type as seen in its methods
// and those of a function.
func recvType(fn *ssa.Function) types.Type {
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return t
}

// env binds the receiver type parameters of fn to those of the reference
// function, so that one value can be passed to methods of one type (each
// method declares its own type parameters).
func env(fn *ssa.Function, args ...types.Type) ai.Tenv {
	e := ai.Tenv{}
	sig := fn.Signature
	tp := sig.RecvTypeParams()
	if tp.Len() == 0 {
		tp = sig.TypeParams()
	}
	for i := 0; i < tp.Len() && i < len(args); i++ {
		e[tp.At(i)] = args[i]
	}
	return e
}

// params are the type parameters declared by a named generic type.
func params(n *types.Named) []types.Type {
	var r []types.Type
	for i := 0; i < n.TypeParams().Len(); i++ {
		r = append(r, n.TypeParams().At(i))
	}
	return r
}

// inst is a generic type applied to types.
func inst(n *types.Named, args ...types.Type) types.Type {
	if n.TypeParams().Len() == 0 {
		return n
	}
	t, err := types.Instantiate(nil, n, args[:n.TypeParams().Len()], false)
	if err != nil {
		panic(err)
	}
	return t
}

// call analyses a call of fn with type arguments targs.
func call(in *In, fn *ssa.Function, targs []types.Type, args ...Val) Val {
	return in.Body(nil, fn, args, nil, env(fn, targs...))
}

// res is result i of a call.
func res(v Val, i int) Val {
	if t, ok := v.(ai.TupleV); ok {
		return t[i]
	}
	return v
}

// field is the value of a field of a struct value by name.
func fieldIdx(in *In, t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		in.Undecided("%s is not a struct", t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	in.Undecided("%s has no field %s", t, name)
	return 0
}

func hasField(t types.Type, name string) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// sym is a new unknown value of a type.
func sym(in *In, t types.Type, name string) Val {
	return in.SymVal(t, name, ai.V(ai.NewSym(name)))
}

// nat is a new unknown natural number.
func nat(in *In, name string) Lin {
	v := ai.V(ai.NewSym(name))
	in.Assume(ai.GE(v))
	return v
}

func intv(in *In, name string) Lin { return ai.V(ai.NewSym(name)) }

// object makes a pre-existing object with the given content.
func object(in *In, t types.Type, name string, content Val) *ai.Ptr {
	return &ai.Ptr{Obj: in.PreObj(t, name, content)}
}

func get(in *In, p *ai.Ptr, names ...string) Val {
	v := in.Load(p)
	t := p.Obj.Typ
	for _, n := range names {
		i := fieldIdx(in, t, n)
		s, ok := v.(*ai.StructV)
		if !ok {
			in.Undecided("field %s of %s", n, ai.ValString(v))
		}
		v = s.F[i]
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return v
}

// seqSlice is a slice with an opaque content of n elements in an array of
// capacity c of its own; nil or not is unknown when n is zero.
func seqSlice(in *In, elem types.Type, name string) (ai.Slice, *ai.Atom, Lin) {
	n := nat(in, name+".n")
	c := nat(in, name+".c")
	in.Assume(ai.LE(n, c))
	a := &ai.Atom{Name: name, Args: []Lin{ai.V(ai.NewSym(name))}, Elem: elem}
	o := in.PreObj(elem, name+".array", &ai.ArrV{W: ai.Word{ai.Seg(a, ai.C(0), c)}, Elem: elem})
	nilb := ai.BoolSym(ai.V(ai.NewSym(name + ".nil")))
	return ai.Slice{Arr: o, Off: ai.C(0), Len: n, Cap: c, NilB: nilb}, a, n
}

func seg(a *ai.Atom, lo, hi Lin) ai.Word { return ai.Word{ai.Seg(a, lo, hi)} }
func items(vs ...Val) ai.Word {
	var w ai.Word
	for _, v := range vs {
		w = append(w, ai.Item(v))
	}
	return w
}

// sameLoc tells whether two slices may share storage.
func disjoint(in *In, a, b ai.Slice) bool {
	if a.Arr == nil || b.Arr == nil || a.Arr != b.Arr {
		return true
	}
	return in.Must(ai.EQ(a.Cap)) || in.Must(ai.EQ(b.Cap))
}
