package spec

import (
	"go/types"

	"verif/sa/ai"
)

func init() {
	reg("C23", stackSpec)
}

// theSlice finds the one slice field of a struct type.
func theSlice(in *In, t types.Type, elem types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		in.Undecided("%s is not a struct", t)
	}
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), elem) {
			if r >= 0 {
				in.Undecided("%s has several slices of %s", t, elem)
			}
			r = i
		} else {
			in.Undecided("%s has a field %s the specification does not know", t, s.Field(i).Name())
		}
	}
	if r < 0 {
		in.Undecided("%s has no slice of %s", t, elem)
	}
	return r
}

func stackSpec(c *Ctx) {
	const pkg = "stack"
	setup := func(in *In) (recv *ai.Ptr, st types.Type, tp []types.Type, fi int, a *ai.Atom, n Lin) {
		named := c.Type(pkg, "Stack")
		tp = params(named)
		st = inst(named, tp...)
		fi = theSlice(in, st, tp[0])
		s, a, n := seqSlice(in, tp[0], "S")
		f := &ai.StructV{Typ: st, F: []Val{s}}
		recv = object(in, st, "stack", f)
		return
	}
	content := func(in *In, p *ai.Ptr, fi int) (ai.Word, ai.Slice) {
		s := in.Load(p).(*ai.StructV).F[fi].(ai.Slice)
		return in.Content(s), s
	}
	c.Run("New is empty", func(in *In) {
		named := c.Type(pkg, "Stack")
		tp := params(named)
		r := call(in, c.Fn(pkg, "New"), tp)
		p := in.ObjAt(r, inst(named, tp...))
		w, _ := content(in, p, theSlice(in, inst(named, tp...), tp[0]))
		in.Check(in.WordEq(w, nil), "New", "New does not return an empty stack: %s", w)
		in.Check(p.Obj.Fresh, "New", "New returns shared storage")
	})
	c.Run("Push appends", func(in *In) {
		recv, _, tp, fi, a, n := setup(in)
		v := sym(in, tp[0], "v")
		call(in, c.Fn(pkg, "Stack.Push"), tp, recv, v)
		w, _ := content(in, recv, fi)
		want := seg(a, ai.C(0), n).Cat(items(v))
		in.Check(in.WordEq(w, want), "Push", "after Push the content is %s, want %s", w, want)
	})
	c.Run("Pop removes the last", func(in *In) {
		recv, _, tp, fi, a, n := setup(in)
		r := call(in, c.Fn(pkg, "Stack.Pop"), tp, recv)
		w, _ := content(in, recv, fi)
		if in.Branch(ai.EQ(n)) {
			in.Check(in.WordEq(w, nil), "Pop", "Pop of an empty stack leaves %s", w)
			in.Check(in.ValEq(r, in.Zero(tp[0])), "Pop", "Pop of an empty stack returns %s", ai.ValString(r))
			return
		}
		in.Check(in.ValEq(r, in.Elem(a, n.Plus(-1))), "Pop", "Pop returns %s, want the last element", ai.ValString(r))
		in.Check(in.WordEq(w, seg(a, ai.C(0), n.Plus(-1))), "Pop", "after Pop the content is %s", w)
	})
	c.Run("Peek shows the last", func(in *In) {
		recv, _, tp, fi, a, n := setup(in)
		r := call(in, c.Fn(pkg, "Stack.Peek"), tp, recv)
		w, _ := content(in, recv, fi)
		in.Check(in.WordEq(w, seg(a, ai.C(0), n)), "Peek", "Peek changes the content to %s", w)
		if in.Branch(ai.EQ(n)) {
			in.Check(in.ValEq(r, in.Zero(tp[0])), "Peek", "Peek of an empty stack returns %s", ai.ValString(r))
			return
		}
		in.Check(in.ValEq(r, in.Elem(a, n.Plus(-1))), "Peek", "Peek returns %s, want the last element", ai.ValString(r))
	})
	c.Run("Size counts", func(in *In) {
		recv, _, tp, fi, a, n := setup(in)
		r := call(in, c.Fn(pkg, "Stack.Size"), tp, recv)
		w, _ := content(in, recv, fi)
		in.Check(in.WordEq(w, seg(a, ai.C(0), n)), "Size", "Size changes the content to %s", w)
		in.Check(in.ValEq(r, n), "Size", "Size returns %s, want %s", ai.ValString(r), n)
	})
	c.Run("Copy is equal and independent", func(in *In) {
		recv, st, tp, fi, a, n := setup(in)
		r := call(in, c.Fn(pkg, "Stack.Copy"), tp, recv)
		w, s := content(in, recv, fi)
		in.Check(in.WordEq(w, seg(a, ai.C(0), n)), "Copy", "Copy changes the original to %s", w)
		p := in.ObjAt(r, st)
		in.Check(p.Obj != recv.Obj, "Copy", "Copy returns the original")
		w2, s2 := content(in, p, fi)
		in.Check(in.WordEq(w2, seg(a, ai.C(0), n)), "Copy", "the copy contains %s", w2)
		in.Check(disjoint(in, s, s2), "Copy", "the copy shares its storage with the original")
	})
}
