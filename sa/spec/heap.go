package spec

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	reg("C12", heapSpec)
}

// Binary heaps. The array is an opaque sequence of which it is known that the
// parent of an element is not greater (a shape), except perhaps around one
// position, the hole. Elements are compared by a rank, which represents any
// strict weak order. A loop that moves elements is cut: an arbitrary
// permutation of what the array held when the loop was entered, with those of
// the candidate shapes that hold there and are kept by every iteration. A shape
// is checked on an arbitrary edge of the tree.
type heap struct {
	c     *Ctx
	tp    []types.Type
	t     types.Type
	fdata int
	fless int
}

type hshape struct {
	lo   Lin // parents at lo and above
	kind int // 0 no hole; 1 an element that may be smaller than its parent; 2 one that may be greater than its children
	hole Lin
}

type hfacts struct {
	id, n  Lin
	shapes []hshape
	perm   ai.Word // what it is a permutation of
	known  bool
}

type hghost struct{ arrs []hfacts }

func (h *heap) gh(in *In) []hfacts {
	g, _ := in.St.Ghost.(*hghost)
	if g == nil {
		return nil
	}
	return g.arrs
}

func (h *heap) add(in *In, f hfacts) {
	a := h.gh(in)
	in.St.Ghost = &hghost{append(a[:len(a):len(a)], f)}
}

func rank(v Val) Lin {
	l, ok := v.(Lin)
	if !ok {
		return ai.UFL("rank:" + ai.ValString(v))
	}
	return ai.UFL("rank", l)
}

func (h *heap) atom(id Lin) *ai.Atom {
	return &ai.Atom{Name: "H", Args: []Lin{id}, Elem: h.tp[0]}
}

func newHeap(c *Ctx, in *In) *heap {
	h := &heap{c: c}
	named := c.Type("heap", "Heap")
	h.tp = params(named)
	h.t = inst(named, h.tp...)
	h.fdata, h.fless = -1, -1
	st, ok := h.t.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 2 {
		in.Undecided("the representation of heap.Heap is not the one specified")
	}
	for i := 0; i < 2; i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if types.Identical(u.Elem(), h.tp[0]) {
				h.fdata = i
			}
		case *types.Signature:
			h.fless = i
		}
	}
	if h.fdata < 0 || h.fless < 0 {
		in.Undecided("the representation of heap.Heap is not the one specified")
	}
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		if isFn(f, "less") && len(args) == 2 {
			return ai.LT(rank(args[0]), rank(args[1])), true
		}
		return nil, false
	}
	in.Hooks.Cut = h.cut
	return h
}

// array is a slice of n elements with a shape (or none).
func (h *heap) array(in *In, n Lin, shapes ...hshape) (ai.Slice, ai.Word) {
	id := ai.V(ai.NewSym("h"))
	c := nat(in, "cap")
	in.Assume(ai.LE(n, c))
	rest := &ai.Atom{Name: "slack", Args: []Lin{id}, Elem: h.tp[0]}
	w := seg(h.atom(id), ai.C(0), n)
	o := in.PreObj(h.tp[0], "data", &ai.ArrV{W: w.Cat(seg(rest, n, c)), Elem: h.tp[0]})
	h.add(in, hfacts{id: id, n: n, shapes: shapes})
	return ai.Slice{Arr: o, Off: ai.C(0), Len: n, Cap: c, NilB: ai.BoolSym(ai.V(ai.NewSym("nil")))}, w
}

func (h *heap) recv(in *In) (*ai.Ptr, ai.Word, Lin) {
	n := nat(in, "n")
	s, w := h.array(in, n, hshape{lo: ai.C(0)})
	v := &ai.StructV{Typ: h.t, F: make([]Val, 2)}
	v.F[h.fdata], v.F[h.fless] = s, fnSym(in, "less")
	return object(in, h.t, "heap", v), w, n
}

// instantiate adds what is known of the elements that were mentioned.
func (h *heap) instantiate(in *In) {
	for _, f := range h.gh(in) {
		a := h.atom(f.id)
		idx := in.Mentioned(a)
		r := func(i Lin) Lin { return rank(in.ElemAt(a, i)) }
		edge := func(x, y Lin) bool {
			return in.Must(ai.LE(x.Scale(2).Plus(1), y)) && in.Must(ai.LE(y, x.Scale(2).Plus(2)))
		}
		defer func() {
			for i, x := range idx {
				for _, y := range idx[:i] {
					if in.Must(ai.EQ(x.Sub(y))) {
						in.Assume(ai.EQ(r(x).Sub(r(y))))
					}
				}
			}
		}()
		for _, s := range f.shapes {
			if s.kind == 0 && s.lo.IsConst(0) {
				for _, x := range idx {
					if x.IsConst(0) {
						for _, y := range idx {
							if in.Must(ai.GE(y)) {
								in.Assume(ai.LE(r(x), r(y)))
							}
						}
					}
				}
			}
			for _, x := range idx {
				for _, y := range idx {
					if x.Same(y) {
						continue
					}
					if edge(x, y) && in.Branch(ai.LE(s.lo, x)) {
						switch {
						case s.kind == 1 && in.Branch(ai.EQ(y.Sub(s.hole))):
						case s.kind == 2 && in.Branch(ai.EQ(x.Sub(s.hole))):
						default:
							in.Assume(ai.LE(r(x), r(y)))
						}
					}
					if s.kind > 0 && edge(s.hole, y) && edge(x, s.hole) && in.Branch(ai.LE(s.lo, x)) {
						in.Assume(ai.LE(r(x), r(y)))
					}
				}
			}
		}
	}
}

// le tells whether x is known not to be greater than y.
func (h *heap) le(in *In, x, y Val) bool {
	return in.Always(func() bool {
		h.instantiate(in)
		return in.Must(ai.LE(rank(x), rank(y)))
	})
}

// has tells whether an array of n elements has a shape.
func (h *heap) has(in *In, w ai.Word, n Lin, s hshape) bool {
	return in.Always(func() bool {
		p := intv(in, "p")
		in.Assume(ai.LE(s.lo, p))
		in.Assume(ai.GE(p))
		c := p.Scale(2).Plus(1 + int64(in.Choose(2)))
		in.Assume(ai.LT(c, n))
		if s.kind == 1 && in.Branch(ai.EQ(c.Sub(s.hole))) || s.kind == 2 && in.Branch(ai.EQ(p.Sub(s.hole))) {
			return true
		}
		x, y := in.At(w, p), in.At(w, c)
		if h.le(in, x, y) {
			return true
		}
		// tell the position from those that were looked at
		for _, f := range h.gh(in) {
			for _, i := range in.Mentioned(h.atom(f.id)) {
				for _, v := range []Lin{p, c} {
					if !i.Same(v) && in.Must(ai.LE(i, n)) && in.Branch(ai.EQ(i.Sub(v))) && h.le(in, x, y) {
						return true
					}
				}
			}
		}
		in.Close()
		return !in.St.Facts.Feasible()
	}) && (s.kind == 0 || in.Always(func() bool {
		q := intv(in, "q")
		in.Assume(ai.LE(s.lo, q))
		in.Assume(ai.GE(q))
		in.Assume(ai.EQ(s.hole.Sub(q.Scale(2)).Plus(-1 - int64(in.Choose(2)))))
		c := s.hole.Scale(2).Plus(1 + int64(in.Choose(2)))
		in.Assume(ai.LT(c, n))
		return h.le(in, in.At(w, q), in.At(w, c))
	}))
}

// bag is a multiset: ranges of opaque sequences and single elements.
func (h *heap) bag(in *In, w ai.Word) (ai.Word, bool) {
	for steps := 0; steps < 20; steps++ {
		w = in.Norm(w)
		var unit ai.Word
		for _, p := range w {
			unit = append(unit, in.Norm(ai.Word{p})...)
		}
		w = unit
		done := true
		arrs := h.gh(in)
		for i := len(arrs) - 1; i >= 0; i-- {
			f := arrs[i]
			if !f.known {
				continue
			}
			rest, some, ok := h.tile(in, w, f.id, ai.C(0), f.n)
			if !some {
				continue
			}
			if !ok {
				return w, false
			}
			w = rest.Cat(f.perm)
			done = false
			break
		}
		if done {
			return w, true
		}
	}
	return w, false
}

// tile takes the ranges of a sequence out of a bag; ok if they are [lo,hi).
func (h *heap) tile(in *In, w ai.Word, id, lo, hi Lin) (rest ai.Word, some, ok bool) {
	var own ai.Word
	for _, p := range w {
		if p.Kind == ai.PSeg && p.A.Name == "H" && p.A.Args[0].Same(id) {
			own = append(own, p)
		} else {
			rest = append(rest, p)
		}
	}
	for n := len(own); n > 0; n-- {
		for i, p := range own {
			if in.Must(ai.EQ(p.Lo.Sub(lo))) {
				lo = p.Hi
				own = append(own[:i:i], own[i+1:]...)
				break
			}
		}
	}
	return rest, len(own) > 0 || n0(w, rest), len(own) == 0 && in.Must(ai.EQ(lo.Sub(hi)))
}

func n0(w, rest ai.Word) bool { return len(w) != len(rest) }

// same tells whether two words are permutations of each other.
func (h *heap) same(in *In, x, y ai.Word) bool {
	return in.Always(func() bool {
		a, ok1 := h.bag(in, x)
		b, ok2 := h.bag(in, y)
		if !ok1 || !ok2 {
			return false
		}
		// sequences in b must be tiled in a
		for len(b) > 0 {
			p := b[0]
			if p.Kind == ai.PSeg && p.A.Name == "H" && !(in.Must(ai.EQ(p.Hi.Sub(p.Lo).Plus(-1)))) {
				lo, hi := p.Lo, p.Hi
				rest, _, ok := h.tile(in, a, p.A.Args[0], lo, hi)
				rb, _, okb := h.tile(in, b, p.A.Args[0], lo, hi)
				if !ok || !okb {
					return false
				}
				a, b = rest, rb
				continue
			}
			found := false
			for i, q := range a {
				if in.WordEq(ai.Word{p}, ai.Word{q}) {
					a = append(a[:i:i], a[i+1:]...)
					found = true
					break
				}
			}
			if !found {
				return false
			}
			b = b[1:]
		}
		for _, p := range a {
			if !in.Must(ai.EQ(p.Len())) {
				return false
			}
		}
		return true
	})
}

// window finds the slice a loop works on.
func (h *heap) window(in *In, fr *ai.Frame, l *ai.Loop, arr *ai.Obj) (ai.Slice, bool) {
	return loopWindow(in, fr, l, arr, h.moves(l))
}

// loopWindow finds the slice of an array a loop works on: among its operands, or
// else (if deep) among what is in memory.
func loopWindow(in *In, fr *ai.Frame, l *ai.Loop, arr *ai.Obj, deep bool) (ai.Slice, bool) {
	var found []ai.Slice
	see := func(v Val) {
		if s, ok := v.(ai.Slice); ok && s.Arr == arr && len(s.Path) == 0 {
			found = append(found, s)
		}
	}
	for b := range l.Blocks {
		for _, x := range b.Instrs {
			for _, o := range x.Operands(nil) {
				if *o != nil {
					see(fr.Env[*o])
				}
			}
		}
	}
	if len(found) == 0 && deep {
		for _, v := range in.St.Mem {
			if s, ok := v.(*ai.StructV); ok {
				for _, f := range s.F {
					see(f)
				}
			} else {
				see(v)
			}
		}
	}
	if len(found) == 0 {
		return ai.Slice{}, false
	}
	for _, s := range found[1:] {
		if !in.Must(ai.EQ(s.Off.Sub(found[0].Off))) || !in.Must(ai.EQ(s.Len.Sub(found[0].Len))) {
			return ai.Slice{}, false
		}
	}
	return found[0], true
}

// moves tells whether a loop may store elements.
func (h *heap) moves(l *ai.Loop) bool {
	isT := func(t types.Type) bool {
		_, ok := types.Unalias(t).(*types.TypeParam)
		return ok
	}
	for b := range l.Blocks {
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.Store:
				if isT(x.Val.Type()) {
					return true
				}
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if t, ok := a.Type().Underlying().(*types.Slice); ok && isT(t.Elem()) && x.Call.StaticCallee() != nil {
						return true
					}
					if p, ok := a.Type().Underlying().(*types.Pointer); ok && nodeNamed(p) == nodeNamed(h.t) {
						return true
					}
				}
			}
		}
	}
	return false
}

type hcand struct {
	phi  *ssa.Phi
	what string
	s    func(v Lin) hshape // a shape, or
	b    func(v Lin) ai.Bool
}

func (h *heap) cut(in *In, fr *ai.Frame, l *ai.Loop, inits map[*ssa.Phi]Val) bool {
	ints := map[*ssa.Phi]Lin{}
	for _, p := range l.Phis {
		if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
			if v, ok := inits[p].(Lin); ok {
				ints[p] = v
			}
		}
	}
	var sl ai.Slice
	found := 0
	for o, v := range in.St.Mem {
		if _, ok := v.(*ai.ArrV); ok {
			if x, ok := h.window(in, fr, l, o); ok {
				sl = x
				found++
			}
		}
	}
	if found != 1 {
		return false
	}
	if in.Invariant(fr, l, inits) {
		return true
	}
	w0 := in.Content(sl)
	n := sl.Len
	var cands []hcand
	for _, p := range l.Phis {
		v0, ok := ints[p]
		if !ok {
			continue
		}
		for d := int64(0); d <= 1; d++ {
			cands = append(cands, hcand{phi: p, what: "from", s: func(v Lin) hshape { return hshape{lo: v.Plus(d)} }})
		}
		for _, lo := range []Lin{ai.C(0), v0} {
			cands = append(cands, hcand{phi: p, what: "up", s: func(v Lin) hshape { return hshape{lo: lo, kind: 1, hole: v} }},
				hcand{phi: p, what: "down", s: func(v Lin) hshape { return hshape{lo: lo, kind: 2, hole: v} }})
			if v0.IsConst(0) {
				break
			}
		}
		cands = append(cands, hcand{phi: p, what: "whole", s: func(v Lin) hshape { return hshape{lo: ai.C(0)} }},
			hcand{phi: p, what: ">=-1", b: func(v Lin) ai.Bool { return ai.GE(v.Plus(1)) }},
			hcand{phi: p, what: ">=0", b: func(v Lin) ai.Bool { return ai.GE(v) }},
			hcand{phi: p, what: "<n", b: func(v Lin) ai.Bool { return ai.LT(v, n) }},
			hcand{phi: p, what: "<=init", b: func(v Lin) ai.Bool { return ai.LE(v, v0) }},
			hcand{phi: p, what: ">=init", b: func(v Lin) ai.Bool { return ai.LE(v0, v) }})
	}
	holds := func(in *In, c hcand, v Lin, w ai.Word) bool {
		if c.b != nil {
			return in.Must(c.b(v))
		}
		return h.has(in, w, n, c.s(v))
	}
	perm := true
	arbitrary := func(in *In) (map[*ssa.Phi]Val, Lin) {
		phis := map[*ssa.Phi]Val{}
		for _, p := range l.Phis {
			if _, ok := ints[p]; ok {
				phis[p] = intv(in, p.Comment)
			} else {
				phis[p] = inits[p]
			}
		}
		id := ai.V(ai.NewSym("h"))
		f := hfacts{id: id, n: n, perm: w0, known: perm}
		for _, c := range cands {
			v := phis[c.phi].(Lin)
			if c.b != nil {
				in.Assume(c.b(v))
			} else {
				f.shapes = append(f.shapes, c.s(v))
			}
		}
		h.add(in, f)
		in.WriteRange(sl, ai.C(0), seg(h.atom(id), ai.C(0), n))
		return phis, id
	}
	show := func(what string) {
		if ai.DebugLoops {
			fmt.Fprintf(os.Stderr, "%s loop of %s, perm %v:", what, l.Fn.Name(), perm)
			for _, c := range cands {
				fmt.Fprintf(os.Stderr, " %s(%s)", c.what, c.phi.Comment)
			}
			fmt.Fprintln(os.Stderr)
		}
	}
	type result struct {
		cands []int
		perm  bool
	}
	all := cands
	r := in.Memo(func() any {
		idx := []int{}
		for i := range all {
			if holds(in, all[i], ints[all[i].phi], w0) {
				idx = append(idx, i)
			}
		}
		pick := func() {
			cands = nil
			for _, i := range idx {
				cands = append(cands, all[i])
			}
		}
		pick()
		show("start")
		for changed := true; changed; {
			changed = false
			drop := map[int]bool{}
			dropPerm := false
			in.Scratch(func() {
				phis, id := arbitrary(in)
				in.Iterate(fr, l, phis, func(s ai.Stop) {
					if s.Kind != ai.StopBack {
						return
					}
					for _, p := range l.Phis {
						if _, ok := ints[p]; !ok && !in.ValEq(s.Phis[p], inits[p]) {
							in.Undecided("loop of %s carries %s", l.Fn.Name(), p.Comment)
						}
					}
					w := in.Content(sl)
					for i, c := range cands {
						if !drop[i] && !holds(in, c, in.Lin(s.Phis[c.phi]), w) {
							drop[i] = true
						}
					}
					if perm && !dropPerm && !h.same(in, w, seg(h.atom(id), ai.C(0), n)) {
						dropPerm = true
					}
				})
			})
			if dropPerm {
				perm, changed = false, true
			}
			if len(drop) > 0 {
				changed = true
				var keep []int
				for i := range idx {
					if !drop[i] {
						keep = append(keep, idx[i])
					}
				}
				idx = keep
				pick()
			}
		}
		show("end")
		return result{idx, perm}
	}).(result)
	cands, perm = nil, r.perm
	for _, i := range r.cands {
		cands = append(cands, all[i])
	}
	phis, _ := arbitrary(in)
	for p, v := range phis {
		fr.Env[p] = v
	}
	return true
}

// final checks the heap an operation leaves.
func (h *heap) final(in *In, p *ai.Ptr, what string, want ai.Word, out ...Val) {
	s, ok := in.Load(p).(*ai.StructV)
	if !ok {
		in.Undecided("heap %s", ai.ValString(in.Load(p)))
	}
	d, ok := s.F[h.fdata].(ai.Slice)
	if !ok {
		in.Undecided("heap data %s", ai.ValString(s.F[h.fdata]))
	}
	w := in.Content(d)
	in.Check(h.same(in, w.Cat(items(out...)), want), "content", "%s: the heap holds %s (and gave %s), not a permutation of %s", what, w, items(out...), want)
	in.Check(h.has(in, w, d.Len, hshape{lo: ai.C(0)}), "order", "%s: an element of %s is less than its parent", what, w)
	f, ok := s.F[h.fless].(ai.FnSym)
	in.Check(ok && isFn(f, "less"), "order", "%s: the heap's order is %s, not the one given", what, ai.ValString(s.F[h.fless]))
}

func heapSpec(c *Ctx) {
	c.Run("New is empty", func(in *In) {
		h := newHeap(c, in)
		r := call(in, c.Fn("heap", "New"), h.tp, fnSym(in, "less"))
		h.final(in, in.ObjAt(r, h.t), "New", nil)
	})
	for _, name := range []string{"From", "FromSlice"} {
		c.Run(name+" makes a heap of the elements given", func(in *In) {
			h := newHeap(c, in)
			n := nat(in, "n")
			s, w := h.array(in, n)
			r := call(in, c.Fn("heap", name), h.tp, fnSym(in, "less"), s)
			h.final(in, in.ObjAt(r, h.t), name, w)
		})
	}
	c.Run("Push adds the element", func(in *In) {
		h := newHeap(c, in)
		p, w, _ := h.recv(in)
		v := sym(in, h.tp[0], "v")
		call(in, c.Fn("heap", "Heap.Push"), h.tp, p, v)
		h.final(in, p, "Push", w.Cat(items(v)))
	})
	for _, name := range []string{"Pop", "Peek"} {
		c.Run(name+" gives a minimum", func(in *In) {
			h := newHeap(c, in)
			p, w, n := h.recv(in)
			r := call(in, c.Fn("heap", "Heap."+name), h.tp, p)
			v, ok := res(r, 0), res(r, 1)
			b, isB := ok.(ai.Bool)
			if !isB {
				in.Undecided("%s returns %s", name, ai.ValString(ok))
			}
			if in.Branch(ai.EQ(n)) {
				in.Check(in.Must(b.Not()), name, "%s of an empty heap says it found an element", name)
				in.Check(in.ValEq(v, in.Zero(h.tp[0])), name, "%s of an empty heap returns %s", name, ai.ValString(v))
				h.final(in, p, name, nil)
				return
			}
			in.Check(in.Must(b), name, "%s of a heap that is not empty says it is", name)
			in.Check(h.le(in, v, in.At(w, ai.C(0))), name, "%s returns %s, which may not be a minimum", name, ai.ValString(v))
			if name == "Pop" {
				h.final(in, p, name, w, v)
			} else {
				h.final(in, p, name, w)
			}
		})
	}
	c.Run("Size counts", func(in *In) {
		h := newHeap(c, in)
		p, w, n := h.recv(in)
		r := call(in, c.Fn("heap", "Heap.Size"), h.tp, p)
		in.Check(in.ValEq(r, n), "Size", "Size returns %s, want %s", ai.ValString(r), n)
		h.final(in, p, "Size", w)
	})
}
