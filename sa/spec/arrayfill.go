package spec

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// Loops that fill an array: with one value from the front (however many
// elements at a time), or row by row. Of a grid, some arbitrary cells are
// followed through the loop; the rest is forgotten.
type grid struct {
	c     *Ctx
	t     types.Type // Array2D
	si    int
	w, h  Lin
	cells []gcell
	also  []Lin // other rows
}

type gcell struct {
	x, y Lin
	want Val // once its row is done
}

func (g *grid) idx(in *In, c gcell) Lin { return c.x.Add(in.Mul(c.y, g.w)) }

func phiInt(p *ssa.Phi, inits map[*ssa.Phi]Val) (Lin, bool) {
	if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
		v, ok := inits[p].(Lin)
		return v, ok
	}
	return Lin{}, false
}

func (g *grid) cut(in *In, fr *ai.Frame, l *ai.Loop, inits map[*ssa.Phi]Val) bool {
	if len(l.Phis) != 1 {
		return false
	}
	p := l.Phis[0]
	i0, ok := phiInt(p, inits)
	if !ok {
		return false
	}
	return g.cutPrefix(in, fr, l, p, i0, inits) || g.cutRows(in, fr, l, p, i0, inits)
}

// cutPrefix: the first i elements have one value, the others that they had.
func (g *grid) cutPrefix(in *In, fr *ai.Frame, l *ai.Loop, p *ssa.Phi, i0 Lin, inits map[*ssa.Phi]Val) bool {
	if !in.Must(ai.GE(i0.Plus(-1))) {
		return false
	}
	var s ai.Slice
	n := 0
	for o, v := range in.St.Mem {
		if _, ok := v.(*ai.ArrV); ok {
			if x, ok := loopWindow(in, fr, l, o, false); ok {
				s = x
				n++
			}
		}
	}
	if n != 1 || !in.Must(ai.LE(i0, s.Len)) {
		return false
	}
	w0 := in.Content(s)
	if len(w0) == 0 || w0[0].Kind != ai.PItem && w0[0].Kind != ai.PFill {
		return false
	}
	v := w0[0].V
	if !in.WordEq(in.Sub(w0, ai.C(0), i0), ai.Word{ai.Fill(v, i0)}) {
		return false
	}
	at := func(in *In, i Lin) ai.Word {
		if in.Branch(ai.LE(i, s.Len)) {
			return ai.Word{ai.Fill(v, i)}.Cat(in.Sub(w0, i, s.Len))
		}
		return ai.Word{ai.Fill(v, s.Len)}
	}
	set := func(in *In) Lin {
		i := intv(in, p.Comment)
		in.Assume(ai.LE(i0, i))
		in.WriteRange(s, ai.C(0), at(in, i))
		return i
	}
	good := in.Memo(func() any {
		good := true
		in.Scratch(func() {
			i := set(in)
			in.Iterate(fr, l, map[*ssa.Phi]Val{p: i}, func(st ai.Stop) {
				if st.Kind != ai.StopBack {
					return
				}
				j := in.Lin(st.Phis[p])
				if !in.Must(ai.LE(i0, j)) || !in.Always(func() bool { return in.WordEq(in.Content(s), at(in, j)) }) {
					good = false
				}
			})
		})
		return good
	}).(bool)
	if !good {
		return false
	}
	if in.Invariant(fr, l, inits) {
		return true
	}
	fr.Env[p] = set(in)
	return true
}

// cutRows: the cells followed have the value wanted once their row is done.
func (g *grid) cutRows(in *In, fr *ai.Frame, l *ai.Loop, p *ssa.Phi, i0 Lin, inits map[*ssa.Phi]Val) bool {
	var arr *ai.Obj
	many := false
	see := func(v Val) {
		s, ok := v.(*ai.StructV)
		if !ok || !types.Identical(s.Typ, g.t) {
			return
		}
		x, ok := s.F[g.si].(ai.Slice)
		if ok && x.Arr != nil {
			many = many || arr != nil && arr != x.Arr
			arr = x.Arr
		}
	}
	for _, v := range fr.Env {
		see(v)
	}
	for _, v := range in.St.Mem {
		see(v)
	}
	if arr == nil || many {
		return false
	}
	av, ok := in.St.Mem[arr].(*ai.ArrV)
	if !ok {
		return false
	}
	total := av.W.Len()
	var old []Val
	for _, c := range g.cells {
		old = append(old, in.At(av.W, g.idx(in, c)))
	}
	around := func(in *In, how int, y Lin) {
		row := y // that the iteration does
		switch how {
		case 1:
			row = y.Plus(1)
		case 3:
			row = y.Plus(-1)
		}
		for _, c := range g.cells {
			if !in.Branch(ai.LT(row, c.y)) {
				in.Branch(ai.EQ(row.Sub(c.y)))
			}
		}
		for d := int64(-1); d <= 1; d++ {
			if how < 2 && d < 0 || how >= 2 && d > 0 {
				continue
			}
			z := y.Plus(d)
			if in.Branch(ai.GE(z)) && in.Branch(ai.LT(z, g.h)) {
				in.RowFacts(Lin{}, z, g.w, g.h)
			}
			for _, c := range g.cells {
				in.RowOrder(z, c.y, g.w)
			}
		}
	}
	done := func(in *In, how int, y Lin, c gcell) bool {
		switch how {
		case 0:
			return in.Branch(ai.LE(i0, c.y)) && in.Branch(ai.LT(c.y, y))
		case 1:
			return in.Branch(ai.LT(i0, c.y)) && in.Branch(ai.LE(c.y, y))
		case 2:
			return in.Branch(ai.LT(y, c.y)) && in.Branch(ai.LE(c.y, i0))
		}
		return in.Branch(ai.LE(y, c.y)) && in.Branch(ai.LT(c.y, i0))
	}
	set := func(in *In, how int) Lin {
		y := intv(in, p.Comment)
		if how < 2 {
			in.Assume(ai.LE(i0, y))
		} else {
			in.Assume(ai.LE(y, i0))
		}
		around(in, how, y)
		type known struct {
			i Lin
			v Val
		}
		var ks []known
		for k, c := range g.cells {
			v := old[k]
			if done(in, how, y, c) {
				v = c.want
			}
			i := g.idx(in, c)
			dup := false
			for _, o := range ks {
				dup = dup || in.Must(ai.EQ(o.i.Sub(i)))
			}
			if !dup {
				ks = append(ks, known{i, v})
			}
		}
		sort.SliceStable(ks, func(a, b int) bool { return in.Must(ai.LT(ks[a].i, ks[b].i)) })
		a := &ai.Atom{Name: "rest", Args: []Lin{ai.V(ai.NewSym("rest"))}, Elem: av.Elem}
		var w ai.Word
		lo := ai.C(0)
		for _, k := range ks {
			if !in.Must(ai.LE(lo, k.i)) {
				in.Undecided("order of the cells %s", k.i)
			}
			w = w.Cat(seg(a, lo, k.i), items(k.v))
			lo = k.i.Plus(1)
		}
		in.St.Mem[arr] = &ai.ArrV{W: w.Cat(seg(a, lo, total)), Elem: av.Elem}
		return y
	}
	how := in.Memo(func() any {
		for how := 0; how < 4; how++ {
			good := true
			in.Scratch(func() {
				y := set(in, how)
				in.Iterate(fr, l, map[*ssa.Phi]Val{p: y}, func(st ai.Stop) {
					if st.Kind != ai.StopBack || !good {
						return
					}
					z := in.Lin(st.Phis[p])
					if how < 2 && !in.Must(ai.LE(i0, z)) || how >= 2 && !in.Must(ai.LE(z, i0)) {
						good = false
						return
					}
					good = in.Always(func() bool {
						a, ok := in.St.Mem[arr].(*ai.ArrV)
						if !ok {
							return false
						}
						for k, c := range g.cells {
							v := old[k]
							if done(in, how, z, c) {
								v = c.want
							}
							if !in.ValEq(in.At(a.W, g.idx(in, c)), v) {
								return false
							}
						}
						return true
					})
				})
			})
			if good {
				return how
			}
		}
		return -1
	}).(int)
	if in.Invariant(fr, l, inits) {
		return true
	}
	if how < 0 {
		in.Undecided("the loop of %s does not fill rows in order", l.Fn.Name())
	}
	fr.Env[p] = set(in, how)
	return true
}

// order tells the order of rows.
func (g *grid) order(in *In, ys ...Lin) {
	for i := range ys {
		for j := range ys[:i] {
			if !in.Branch(ai.LT(ys[i], ys[j])) {
				in.Branch(ai.EQ(ys[i].Sub(ys[j])))
			}
			in.RowOrder(ys[i], ys[j], g.w)
		}
	}
}

func fillSpec(c *Ctx) {
	c.Run("Fill fills exactly the rectangle", func(in *In) {
		r := anyArr(c, in)
		in.Assume(ai.EQ(r.s.Cap.Sub(r.s.Len)))
		x1, y1 := r.coord(in, "1")
		x2, y2 := r.coord(in, "2")
		gx, gy := r.coord(in, "")
		v := sym(in, r.tp[0], "v")
		xl, xh, yl, yh := x1, x2, y1, y2
		if !in.Branch(ai.LE(xl, xh)) {
			xl, xh = xh, xl
		}
		if !in.Branch(ai.LE(yl, yh)) {
			yl, yh = yh, yl
		}
		g := &grid{c: c, t: r.t, si: r.si, w: r.w, h: r.h}
		g.order(in, gy, yl, yh)
		cols := in.Branch(ai.LE(xl, gx)) && in.Branch(ai.LE(gx, xh))
		rows := in.Branch(ai.LE(yl, gy)) && in.Branch(ai.LE(gy, yh))
		was := in.Content(r.s)
		for _, y := range []Lin{gy, yl} {
			k := gcell{x: gx, y: y}
			k.want = in.At(was, g.idx(in, k))
			if cols && (rows || len(g.cells) > 0) {
				k.want = v
			}
			g.cells = append(g.cells, k)
		}
		in.Hooks.Cut = g.cut
		call(in, c.Fn("array2d", "Array2D.Fill"), r.tp, r.v, x1, y1, x2, y2, v)
		want := in.At(was, g.idx(in, g.cells[0]))
		if cols && rows {
			want = v
		}
		got := in.At(in.Content(r.s), g.idx(in, g.cells[0]))
		in.Check(in.ValEq(got, want), "Fill", "after Fill of [%s,%s]x[%s,%s] with %s, cell (%s,%s) is %s, want %s", xl, xh, yl, yh, ai.ValString(v), gx, gy, ai.ValString(got), ai.ValString(want))
	})
	c.Run("OfJagged copies what is inside", func(in *In) {
		t, tp, wi, hi, si := arr2Fields(c, in)
		w, h := nat(in, "w"), nat(in, "h")
		in.RowFacts(w.Plus(-1), h.Plus(-1), w, h)
		row := types.NewSlice(tp[0])
		rs, ra, n := seqSlice(in, row, "jagged")
		gx, gy := intv(in, "x"), intv(in, "y")
		in.Assume(ai.GE(gx))
		in.Assume(ai.LT(gx, w))
		in.Assume(ai.GE(gy))
		in.Assume(ai.LT(gy, h))
		in.RowFacts(gx, gy, w, h)
		g := &grid{c: c, t: t, si: si, w: w, h: h}
		want := in.Zero(tp[0])
		if in.Branch(ai.LT(gy, n)) {
			s := in.Elem(ra, gy).(ai.Slice)
			if in.Branch(ai.LT(gx, s.Len)) {
				want = in.At(in.Content(s), gx)
			}
		}
		g.cells = []gcell{{x: gx, y: gy, want: want}}
		in.Hooks.Cut = g.cut
		v := call(in, c.Fn("array2d", "OfJagged"), []types.Type{types.NewSlice(row), row, tp[0]}, w, h, rs)
		sv, ok := v.(*ai.StructV)
		if !ok {
			in.Undecided("OfJagged returns %s", ai.ValString(v))
		}
		in.Check(in.ValEq(sv.F[wi], w) && in.ValEq(sv.F[hi], h), "size", "OfJagged(w, h) has size %s x %s", ai.ValString(sv.F[wi]), ai.ValString(sv.F[hi]))
		s, ok := sv.F[si].(ai.Slice)
		if !ok {
			in.Undecided("OfJagged returns %s", ai.ValString(v))
		}
		in.Check(s.Arr != nil && s.Arr.Fresh, "fresh", "OfJagged shares its cells")
		in.Check(in.LinEq(s.Len, in.Mul(w, h)), "size", "OfJagged makes %s cells", s.Len)
		got := in.At(in.Content(s), g.idx(in, g.cells[0]))
		in.Check(in.ValEq(got, want), "OfJagged", "cell (%s,%s) is %s, want %s", gx, gy, ai.ValString(got), ai.ValString(want))
	})
	c.Run("OfJagged panics only if New does", func(in *In) {
		t, tp, _, _, si := arr2Fields(c, in)
		w, h := nat(in, "w"), nat(in, "h")
		in.RowFacts(w.Plus(-1), h.Plus(-1), w, h)
		row := types.NewSlice(tp[0])
		rs, _, _ := seqSlice(in, row, "jagged")
		in.Hooks.Cut = (&grid{c: c, t: t, si: si, w: w, h: h}).cut
		p := in.TryPanic(func() {
			call(in, c.Fn("array2d", "OfJagged"), []types.Type{types.NewSlice(row), row, tp[0]}, w, h, rs)
		})
		in.Check(p == nil, "range", "OfJagged panics: %v", p)
	})
}

// arrayCopy: a copy has the size and the cells of the original.
func arrayCopy(c *Ctx) {
	c.Run("array2d Copy has the same cells", func(in *In) {
		r := anyArr(c, in)
		v := call(in, c.Fn("array2d", "Array2D.Copy"), r.tp, r.v)
		sv, ok := v.(*ai.StructV)
		if !ok {
			in.Undecided("Copy returns %s", ai.ValString(v))
		}
		in.Check(in.ValEq(sv.F[r.wi], r.w) && in.ValEq(sv.F[r.hi], r.h), "size", "the copy has size %s x %s", ai.ValString(sv.F[r.wi]), ai.ValString(sv.F[r.hi]))
		s, ok := sv.F[r.si].(ai.Slice)
		if !ok {
			in.Undecided("Copy returns %s", ai.ValString(v))
		}
		want := seg(r.a, ai.C(0), r.s.Len)
		in.Check(in.WordEq(in.Content(s), want), "content", "the copy holds %s, want %s", in.Content(s), want)
		in.Check(in.WordEq(in.Content(r.s), want), "content", "Copy changes the original to %s", in.Content(r.s))
	})
}
