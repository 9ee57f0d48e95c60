package ai

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *In) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val) Val {
	switch b.Name() {
	case "len":
		return in.length(args[0], in.typ(fr, c.Args[0].Type()))
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return v.Cap
		}
		return in.length(args[0], in.typ(fr, c.Args[0].Type()))
	case "append":
		s := in.slice(args[0])
		st := under(in.typ(fr, c.Args[0].Type())).(*types.Slice)
		var w Word
		switch t := args[1].(type) {
		case Slice:
			w = in.Content(t)
		case StrV:
			w = t.W
		default:
			in.Undecided("append of %s", ValString(t))
		}
		return in.Append(s, w, st.Elem())
	case "copy":
		d := in.slice(args[0])
		var w Word
		switch t := args[1].(type) {
		case Slice:
			w = in.Content(t)
		case StrV:
			w = t.W
		}
		n := w.Len()
		if !in.Branch(LE(n, d.Len)) {
			n = d.Len
			w, _ = in.Split(w, n)
		}
		if !in.Must(EQ(n)) {
			in.WriteRange(d, C(0), w)
		}
		return n
	case "delete":
		mt := under(in.typ(fr, c.Args[0].Type())).(*types.Map)
		in.MapDelete(args[0], args[1], mt)
		return nil
	case "clear":
		switch u := under(in.typ(fr, c.Args[0].Type())).(type) {
		case *types.Map:
			in.MapClear(args[0], u)
		case *types.Slice:
			s := in.slice(args[0])
			if s.Arr != nil {
				in.WriteRange(s, C(0), Word{Fill(in.Zero(u.Elem()), s.Len)})
			}
		}
		return nil
	case "min", "max":
		r := in.lin(args[0])
		for _, a := range args[1:] {
			x := in.lin(a)
			if in.Branch(LE(x, r)) == (b.Name() == "min") {
				r = x
			}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	in.Undecided("builtin %s", b.Name())
	return nil
}

func (in *In) length(v Val, t types.Type) Lin {
	switch v := v.(type) {
	case Slice:
		return v.Len
	case StrV:
		return v.W.Len()
	case *ArrV:
		return v.W.Len()
	}
	switch u := under(t).(type) {
	case *types.Map:
		m, _ := in.mapOf(v, t)
		if m == nil {
			return C(0)
		}
		return in.MapLen(m)
	case *types.Array:
		return C(u.Len())
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return C(a.Len())
		}
	}
	in.Undecided("length of %s", ValString(v))
	return Lin{}
}

// Append is the append builtin: into the spare capacity, or into new storage.
func (in *In) Append(s Slice, w Word, elem types.Type) Slice {
	n := w.Len()
	if !in.Branch(LT(C(0), n)) {
		return s
	}
	ln := s.Len.Add(n)
	if s.Arr != nil && in.Branch(LE(ln, s.Cap)) {
		in.WriteRange(s, s.Len, w)
		s.Len = ln
		s.NilB = False
		return s
	}
	c := V(NewSym("cap"))
	in.Assume(LE(ln, c))
	return in.NewArr(elem, in.Content(s).Cat(w, Word{Fill(in.Zero(elem), c.Sub(ln))}), ln, c)
}

// ---- maps ----

func (in *In) mapOf(m Val, t types.Type) (*MapC, *Obj) {
	if l, ok := m.(Lin); ok {
		if l.IsConst(0) {
			return nil, nil
		}
		if s, ok := l.Single(); ok && in.St.ObjOf[s] == nil && !in.Branch(NE(l)) {
			return nil, nil
		}
	}
	p := in.ObjAt(m, t)
	v := in.Load(p)
	c, ok := v.(*MapC)
	if !ok {
		in.Undecided("map content %s", ValString(v))
	}
	if n := in.NormMap(c); n != c {
		in.St.Mem[p.Obj] = n
		c = n
	}
	return c, p.Obj
}

// keyLin encodes a key as a scalar.
func (in *In) keyLin(v Val) Lin {
	switch v := v.(type) {
	case Lin:
		return v
	case *IfaceV:
		return in.keyLin(v.V)
	case *StructV:
		if len(v.F) == 0 {
			return C(0)
		}
		var a []Lin
		for _, f := range v.F {
			a = append(a, in.keyLin(f))
		}
		return UFL("key", a...)
	case *Ptr:
		if len(v.Path) == 0 {
			return V(v.Obj.Sym)
		}
	}
	in.Undecided("map key %s", ValString(v))
	return Lin{}
}

func (in *In) MapGet(m, k Val, mt *types.Map) (Val, Bool) {
	c, _ := in.mapOf(m, mt)
	if c == nil {
		return in.Zero(mt.Elem()), False
	}
	return in.MapContentGet(c, k)
}

// ---- library models ----

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (in *In) libCall(fr *Frame, fn *ssa.Function, args []Val, tenv Tenv) (Val, bool) {
	p := pkgOf(fn)
	switch p {
	case "fmt", "strings", "strconv", "errors", "math", "unicode", "bytes", "os", "log":
		return in.opaqueResult(fn, tenv), true
	case "sort":
		return in.opaqueResult(fn, tenv), true
	case "golang.org/x/exp/slices", "slices":
		switch fn.Name() {
		case "Index":
			return in.sliceIndex(args[0].(Slice), args[1]), true
		case "Contains":
			r := in.sliceIndex(args[0].(Slice), args[1])
			return GE(r), true
		case "Clone":
			s := args[0].(Slice)
			if s.Arr == nil {
				return s, true
			}
			c := V(NewSym("cap"))
			in.Assume(LE(s.Len, c))
			w := in.Content(s)
			r := in.NewArr(s.Arr.Typ, w.Cat(Word{Fill(C(0), c.Sub(s.Len))}), s.Len, c)
			return r, true
		case "Insert":
			s := args[0].(Slice)
			i := in.lin(args[1])
			t := args[2].(Slice)
			in.boundsIncl(i, s.Len)
			w := in.Content(s)
			a, b := in.Split(w, i)
			// the result shares s's storage when it has room
			mid := in.Content(t)
			all := a.Cat(mid, b)
			n := s.Len.Add(t.Len)
			if s.Arr != nil && in.Branch(LE(n, s.Cap)) {
				in.WriteRange(Slice{Arr: s.Arr, Path: s.Path, Off: s.Off, Len: n, Cap: s.Cap}, C(0), all)
				s.Len = n
				return s, true
			}
			c := V(NewSym("cap"))
			in.Assume(LE(n, c))
			return in.NewArr(s.elemType(t), all.Cat(Word{Fill(C(0), c.Sub(n))}), n, c), true
		case "Delete":
			s := args[0].(Slice)
			i, j := in.lin(args[1]), in.lin(args[2])
			in.boundsIncl(i, j)
			in.boundsIncl(j, s.Len)
			w := in.Content(s)
			a, _ := in.Split(w, i)
			_, b := in.Split(w, j)
			in.WriteRange(s, i, b)
			_ = a
			s.Len = s.Len.Sub(j.Sub(i))
			return s, true
		case "Reverse", "Sort", "SortFunc", "SortStableFunc":
			in.Undecided("library function %s", fn)
		}
	case "golang.org/x/exp/maps", "maps":
		switch fn.Name() {
		case "Clear":
			in.MapClear(args[0], in.mapType(fn, tenv))
			return nil, true
		case "Clone":
			mt := in.mapType(fn, tenv)
			c, _ := in.mapOf(args[0], mt)
			if c == nil {
				return C(0), true
			}
			o := in.Alloc(mt, "map", c)
			return &Ptr{Obj: o}, true
		}
	case "golang.org/x/exp/constraints":
	}
	if strings.HasPrefix(p, "github.com/segmentio/") {
		return in.opaqueResult(fn, tenv), true
	}
	return nil, false
}

func (s Slice) elemType(t Slice) types.Type {
	if s.Arr != nil {
		return s.Arr.Typ
	}
	return t.Arr.Typ
}

func (in *In) boundsIncl(i, n Lin) {
	if !in.Branch(GE(i)) || !in.Branch(LE(i, n)) {
		in.panicProg("bounds out of range")
	}
}

func (in *In) mapType(fn *ssa.Function, tenv Tenv) *types.Map {
	t := SubstType(fn.Signature.Params().At(0).Type(), tenv)
	m, ok := under(t).(*types.Map)
	if !ok {
		in.Undecided("map type of %s", fn)
	}
	return m
}

func (in *In) opaqueResult(fn *ssa.Function, tenv Tenv) Val {
	rs := fn.Signature.Results()
	if rs.Len() == 0 {
		return nil
	}
	mk := func(i int) Val {
		s := NewSym("lib." + fn.Name())
		return in.SymVal(SubstType(rs.At(i).Type(), tenv), "lib", V(s))
	}
	if rs.Len() == 1 {
		return mk(0)
	}
	t := TupleV{}
	for i := 0; i < rs.Len(); i++ {
		t = append(t, mk(i))
	}
	return t
}

// sliceIndex is slices.Index: the first position holding v, or -1.
func (in *In) sliceIndex(s Slice, v Val) Lin {
	if n, ok := s.Len.Const(); ok && in.Exact {
		for i := int64(0); i < n; i++ {
			if in.Branch(in.eqCond(in.At(in.Content(s), C(i)), v, s.Arr.Typ)) {
				return C(i)
			}
		}
		return C(-1)
	}
	if in.Choose(2) == 0 {
		// not found
		k := NewSym("j")
		in.St.Foralls = append(in.St.Foralls, Forall{K: k, N: s.Len})
		in.St.Notes = append(in.St.Notes, "slices.Index: not found")
		return C(-1)
	}
	i := V(NewSym("idx"))
	in.Assume(GE(i))
	in.Assume(LT(i, s.Len))
	x := in.At(in.Content(s), i)
	if !in.Branch(in.eqCond(x, v, s.Arr.Typ)) {
		in.Dead()
	}
	return i
}
