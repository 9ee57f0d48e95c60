package spec

import (
	"go/types"

	"verif/sa/ai"
)

func init() {
	reg("C01", arrayCells)
	reg("C02", arrayRows)
}

type arr2 struct {
	v       *ai.StructV
	t       types.Type
	tp      []types.Type
	w, h    Lin
	a       *ai.Atom
	s       ai.Slice
	wi, hi  int
	si      int
	content ai.Word
}

// arr2Fields finds the representation: width, height and the cell slice.
func arr2Fields(c *Ctx, in *In) (t types.Type, tp []types.Type, wi, hi, si int) {
	n := c.Type("array2d", "Array2D")
	tp = params(n)
	t = inst(n, tp...)
	if t.Underlying().(*types.Struct).NumFields() != 3 {
		in.Undecided("the representation of Array2D is not the one specified")
	}
	wi, hi = fieldIdx(in, t, "width"), fieldIdx(in, t, "height")
	for i := 0; i < 3; i++ {
		if i != wi && i != hi {
			si = i
		}
	}
	if _, ok := t.Underlying().(*types.Struct).Field(si).Type().Underlying().(*types.Slice); !ok {
		in.Undecided("the representation of Array2D is not the one specified")
	}
	return
}

// anyArr is an arbitrary array: width*height cells with unknown content.
func anyArr(c *Ctx, in *In) *arr2 {
	r := &arr2{}
	r.t, r.tp, r.wi, r.hi, r.si = arr2Fields(c, in)
	r.w, r.h = nat(in, "width"), nat(in, "height")
	r.s, r.a, _ = seqSlice(in, r.tp[0], "cells")
	in.Assume(ai.EQ(r.s.Len.Sub(in.Mul(r.w, r.h))))
	f := make([]Val, 3)
	f[r.wi], f[r.hi], f[r.si] = r.w, r.h, r.s
	r.v = &ai.StructV{Typ: r.t, F: f}
	return r
}

// coord is an arbitrary valid cell.
func (r *arr2) coord(in *In, n string) (x, y Lin) {
	x, y = intv(in, "x"+n), intv(in, "y"+n)
	r.valid(in, x, y)
	return
}

func (r *arr2) valid(in *In, x, y Lin) {
	in.Assume(ai.GE(x))
	in.Assume(ai.LT(x, r.w))
	in.Assume(ai.GE(y))
	in.Assume(ai.LT(y, r.h))
	in.RowFacts(x, y, r.w, r.h)
}

func (r *arr2) idx(in *In, x, y Lin) Lin { return x.Add(in.Mul(y, r.w)) }

// outside splits on where an out-of-range coordinate lies.
func outside(in *In, x, n Lin) {
	if in.Choose(2) == 0 {
		in.Assume(ai.LT(x, ai.C(0)))
	} else {
		in.Assume(ai.LE(n, x))
	}
}

// separate: two different cells of one grid have different indices.
func (r *arr2) separate(in *In, x, y, x2, y2 Lin) {
	switch in.Choose(3) {
	case 0:
		in.Assume(ai.EQ(y.Sub(y2)))
		in.Assume(ai.NE(x.Sub(x2)))
	case 1:
		in.Assume(ai.LT(y, y2))
	case 2:
		in.Assume(ai.LT(y2, y))
	}
	in.RowOrder(y, y2, r.w)
}

func arrayCells(c *Ctx) {
	cell := func(in *In, r *arr2, s ai.Slice, x, y Lin) Val {
		return in.At(in.Content(s), r.idx(in, x, y))
	}
	_ = cell
	c.Run("Get after Set of the same cell", func(in *In) {
		r := anyArr(c, in)
		x, y := r.coord(in, "")
		v := sym(in, r.tp[0], "v")
		call(in, c.Fn("array2d", "Array2D.Set"), r.tp, r.v, x, y, v)
		g := call(in, c.Fn("array2d", "Array2D.Get"), r.tp, r.v, x, y)
		in.Check(in.ValEq(g, v), "get-set", "Get(x, y) after Set(x, y, v) is %s", ai.ValString(g))
	})
	c.Run("Set leaves other cells", func(in *In) {
		r := anyArr(c, in)
		x, y := r.coord(in, "1")
		x2, y2 := r.coord(in, "2")
		r.separate(in, x, y, x2, y2)
		before := call(in, c.Fn("array2d", "Array2D.Get"), r.tp, r.v, x2, y2)
		v := sym(in, r.tp[0], "v")
		call(in, c.Fn("array2d", "Array2D.Set"), r.tp, r.v, x, y, v)
		after := call(in, c.Fn("array2d", "Array2D.Get"), r.tp, r.v, x2, y2)
		in.Check(in.ValEq(before, after), "distinct-cells", "Set of one cell changes another: %s becomes %s", ai.ValString(before), ai.ValString(after))
	})
	for _, set := range []bool{false, true} {
		name := "Get"
		if set {
			name = "Set"
		}
		run := func(in *In, r *arr2, x, y Lin) *ai.ProgPanic {
			return in.TryPanic(func() {
				if set {
					call(in, c.Fn("array2d", "Array2D.Set"), r.tp, r.v, x, y, sym(in, r.tp[0], "v"))
				} else {
					call(in, c.Fn("array2d", "Array2D.Get"), r.tp, r.v, x, y)
				}
			})
		}
		c.Run(name+" panics outside", func(in *In) {
			r := anyArr(c, in)
			x, y := intv(in, "x"), intv(in, "y")
			if in.Choose(2) == 0 {
				outside(in, x, r.w)
			} else {
				outside(in, y, r.h)
			}
			in.Check(run(in, r, x, y) != nil, "range", "%s does not panic on coordinates out of range", name)
		})
		c.Run(name+" does not panic inside", func(in *In) {
			r := anyArr(c, in)
			x, y := r.coord(in, "")
			p := run(in, r, x, y)
			in.Check(p == nil, "range", "%s panics on valid coordinates: %v", name, p)
		})
	}
	c.Run("Width and Height", func(in *In) {
		r := anyArr(c, in)
		w := call(in, c.Fn("array2d", "Array2D.Width"), r.tp, r.v)
		h := call(in, c.Fn("array2d", "Array2D.Height"), r.tp, r.v)
		in.Check(in.ValEq(w, r.w) && in.ValEq(h, r.h), "size", "Width, Height are %s, %s", ai.ValString(w), ai.ValString(h))
	})
	newArr := func(in *In, name string) {
		n := c.Type("array2d", "Array2D")
		tp := params(n)
		w, h := nat(in, "w"), nat(in, "h")
		in.RowFacts(w.Plus(-1), h.Plus(-1), w, h)
		var args []Val
		args = append(args, w, h)
		want := in.Zero(tp[0])
		if name == "NewFilled" {
			want = sym(in, tp[0], "value")
			args = append(args, want)
		}
		t, _, wi, hi, si := arr2Fields(c, in)
		in.Hooks.Cut = (&grid{c: c, t: t, si: si, w: w, h: h}).cut
		v := call(in, c.Fn("array2d", name), tp, args...)
		sv := v.(*ai.StructV)
		s := sv.F[si].(ai.Slice)
		in.Check(in.ValEq(sv.F[wi], w) && in.ValEq(sv.F[hi], h), "size", "%s(w, h) has size %s x %s", name, ai.ValString(sv.F[wi]), ai.ValString(sv.F[hi]))
		in.Check(in.LinEq(s.Len, in.Mul(w, h)), "size", "%s makes %s cells", name, s.Len)
		in.Check(in.Must(ai.EQ(s.Len)) || s.Arr.Fresh, "fresh", "%s shares its cells", name)
		in.Check(in.WordEq(in.Content(s), ai.Word{ai.Fill(want, s.Len)}), "initial", "the cells of %s are %s", name, in.Content(s))
	}
	c.Run("New gives zero cells", func(in *In) { newArr(in, "New") })
	c.Run("NewFilled fills", func(in *In) { newArr(in, "NewFilled") })
}

func arrayRows(c *Ctx) {
	window := func(in *In, r *arr2, v Val, x1, x2, y Lin, name string) {
		s, ok := v.(ai.Slice)
		if !ok {
			in.Undecided("result of %s", name)
		}
		in.Check(in.LinEq(s.Len, x2.Sub(x1).Plus(1)), "window", "%s has %s elements, want %s", name, s.Len, x2.Sub(x1).Plus(1))
		if in.Must(ai.EQ(s.Len)) {
			return
		}
		in.Check(s.Arr == r.s.Arr, "window", "%s is not a window on the array", name)
		in.Check(in.LinEq(s.Off, r.s.Off.Add(r.idx(in, x1, y))), "window", "%s starts at cell %s, want %s", name, s.Off, r.idx(in, x1, y))
	}
	c.Run("Row is the row", func(in *In) {
		r := anyArr(c, in)
		y := intv(in, "y")
		in.Assume(ai.GE(y))
		in.Assume(ai.LT(y, r.h))
		in.RowFacts(r.w.Plus(-1), y, r.w, r.h)
		v := call(in, c.Fn("array2d", "Array2D.Row"), r.tp, r.v, y)
		window(in, r, v, ai.C(0), r.w.Plus(-1), y, "Row")
	})
	c.Run("RowSpan is the span", func(in *In) {
		r := anyArr(c, in)
		x1, y := r.coord(in, "1")
		x2 := intv(in, "x2")
		r.valid(in, x2, y)
		v := call(in, c.Fn("array2d", "Array2D.RowSpan"), r.tp, r.v, x1, x2, y)
		if !in.Branch(ai.LE(x1, x2)) {
			x1, x2 = x2, x1
		}
		window(in, r, v, x1, x2, y, "RowSpan")
	})
	c.Run("Row panics outside", func(in *In) {
		r := anyArr(c, in)
		y := intv(in, "y")
		outside(in, y, r.h)
		p := in.TryPanic(func() { call(in, c.Fn("array2d", "Array2D.Row"), r.tp, r.v, y) })
		in.Check(p != nil, "range", "Row does not panic on a row out of range")
	})
	c.Run("RowSpan panics outside", func(in *In) {
		r := anyArr(c, in)
		x1, x2, y := intv(in, "x1"), intv(in, "x2"), intv(in, "y")
		switch in.Choose(3) {
		case 0:
			outside(in, x1, r.w)
		case 1:
			outside(in, x2, r.w)
		default:
			outside(in, y, r.h)
		}
		p := in.TryPanic(func() { call(in, c.Fn("array2d", "Array2D.RowSpan"), r.tp, r.v, x1, x2, y) })
		in.Check(p != nil, "range", "RowSpan does not panic on coordinates out of range")
	})
	c.Run("Fill panics outside", func(in *In) {
		r := anyArr(c, in)
		var k []Val
		for _, n := range []string{"x1", "y1", "x2", "y2"} {
			k = append(k, intv(in, n))
		}
		i := in.Choose(4)
		lim := r.w
		if i%2 == 1 {
			lim = r.h
		}
		outside(in, k[i].(Lin), lim)
		in.Hooks.Cut = (&grid{c: c, t: r.t, si: r.si, w: r.w, h: r.h}).cut
		p := in.TryPanic(func() {
			call(in, c.Fn("array2d", "Array2D.Fill"), r.tp, r.v, k[0], k[1], k[2], k[3], sym(in, r.tp[0], "v"))
		})
		in.Check(p != nil, "range", "Fill does not panic on coordinates out of range")
	})
	fillSpec(c)
}
