package spec

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
	"verif/sa/eff"
)

// Binary search trees, by induction. An arbitrary tree is a sorted sequence S
// of entries cut by its root: the subtree of the entries [a,b) of S is the
// pointer tnode(S,a,b), nil when a = b, its root the entry mid(S,a,b), its
// subtrees those of [a,mid) and [mid+1,b); ht(S,a,b) is its height, mx(S,a,b)
// the highest end point in it. The key of the operation has a position P in S
// and a bit H (present), so that every comparison of keys is a comparison of
// positions. Recursive functions are replaced by their contracts, each of
// which is an obligation of its own.
type bst struct {
	c      *Ctx
	pkg    string
	tp     []types.Type
	treeT  types.Type
	nodeT  types.Type
	entT   *types.Struct
	leaves []leafField
	fl, fr int
	fh, fm int // -1: none
	froot  int

	avl     bool // check the recorded heights and the balance
	content bool // check the content
	max     bool // check the recorded end points
}

type leafField struct {
	name string
	path []int
}

type tregion struct{ S, a, b Lin }

type seqDef struct {
	S, n Lin
	W    ai.Word
}

type keyPos struct{ S, key, P, H Lin }

// tghost is the specification's record of a partition.
type tghost struct {
	defs  []seqDef
	pos   []keyPos
	used  []tregion
	mats  []tregion
	calls []tregion // of an overlap query
	open  []tregion // nodes not yet known to be one higher than which subtree
	// the operation
	q *treeOp
}

type treeOp struct {
	S, n Lin
	key  Lin
	P, H Lin
	high Lin // interval
	val  Val
	fn   *ssa.Function // the function whose contract is being checked
	kind string
}

func (b *bst) gh(in *In) *tghost {
	g, _ := in.St.Ghost.(*tghost)
	if g == nil {
		return &tghost{}
	}
	return g
}

func (b *bst) upd(in *In, f func(g *tghost)) {
	g := *b.gh(in)
	g.defs = g.defs[:len(g.defs):len(g.defs)]
	g.pos = g.pos[:len(g.pos):len(g.pos)]
	g.used = g.used[:len(g.used):len(g.used)]
	g.mats = g.mats[:len(g.mats):len(g.mats)]
	g.open = g.open[:len(g.open):len(g.open)]
	g.calls = g.calls[:len(g.calls):len(g.calls)]
	f(&g)
	in.St.Ghost = &g
}

func newBST(c *Ctx, in *In, pkg string) *bst {
	b := &bst{c: c, pkg: pkg, fh: -1, fm: -1}
	named := c.Type(pkg, "Tree")
	b.tp = params(named)
	b.treeT = inst(named, b.tp...)
	b.froot = fieldIdx(in, b.treeT, "root")
	rt, ok := b.treeT.Underlying().(*types.Struct).Field(b.froot).Type().Underlying().(*types.Pointer)
	if !ok {
		in.Undecided("the representation of %s.Tree is not the one specified", pkg)
	}
	b.nodeT = rt.Elem()
	b.fl, b.fr = fieldIdx(in, b.nodeT, "left"), fieldIdx(in, b.nodeT, "right")
	b.fh = fieldIdx(in, b.nodeT, "height")
	ns := b.nodeT.Underlying().(*types.Struct)
	want := 5
	if pkg == "interval" {
		want = 6
		b.fm = fieldIdx(in, b.nodeT, "max")
		ik := fieldIdx(in, b.nodeT, "key")
		it := ns.Field(ik).Type()
		b.leaves = []leafField{{"low", []int{ik, fieldIdx(in, it, "low")}}, {"high", []int{ik, fieldIdx(in, it, "high")}}, {"val", []int{fieldIdx(in, b.nodeT, "value")}}}
	} else {
		b.leaves = []leafField{{"key", []int{fieldIdx(in, b.nodeT, "key")}}, {"value", []int{fieldIdx(in, b.nodeT, "value")}}}
	}
	if ns.NumFields() != want {
		in.Undecided("the representation of %s nodes is not the one specified", pkg)
	}
	var fs []*types.Var
	for _, l := range b.leaves {
		fs = append(fs, types.NewField(0, nil, l.name, b.leafType(l), false))
	}
	b.entT = types.NewStruct(fs, nil)
	ai.RegisterAtom(&ai.Atom{Name: "ent", Args: []Lin{ai.C(0)}, Elem: b.entT})
	ai.NilFam["tat"] = func(in *In, args []Lin) ai.Bool { return ai.False }
	ai.NilFam["tnode"] = func(in *In, args []Lin) ai.Bool {
		return ai.B(b.isEmpty(in, args[0], args[1], args[2]))
	}
	ai.Nonneg("ht")
	in.Hooks.Materialize = func(in *In, p ai.Sym, t types.Type) (Val, bool) { return b.materialize(in, p) }
	in.Hooks.MayAlias = func(in *In, p, q ai.Sym, t types.Type) bool { return false }
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		if isFn(f, "less") && len(args) == 2 {
			x, ok1 := args[0].(Lin)
			y, ok2 := args[1].(Lin)
			if !ok1 || !ok2 {
				in.Undecided("keys %s, %s", ai.ValString(args[0]), ai.ValString(args[1]))
			}
			c, ok := b.less(in, x, y)
			if !ok {
				in.Undecided("comparison of %s and %s", x, y)
			}
			return c, true
		}
		if isFn(f, "visit") && len(args) == len(b.leaves) {
			in.St.Trace = in.St.Trace.Cat(items(&ai.StructV{Typ: b.entT, F: append([]Val(nil), args...)}))
			return nil, true
		}
		return nil, false
	}
	if pkg == "interval" {
		in.Hooks.Less = b.less
		in.Hooks.EqVal = func(in *In, x, y Lin) (ai.Bool, bool) {
			l, ok := b.less(in, x, y)
			if !ok {
				return ai.Bool{}, false
			}
			if in.Branch(l) {
				return ai.False, true
			}
			g, _ := b.less(in, y, x)
			return ai.B(!in.Branch(g)), true
		}
	}
	in.Hooks.Call = b.call
	in.Hooks.Cut = b.cut
	return b
}

func (b *bst) leafType(l leafField) types.Type {
	t := b.nodeT
	for _, i := range l.path {
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func (b *bst) keyName() string { return "ent." + b.leaves[0].name }

func tnode(S, a, b Lin) Lin { return ai.UFL("tnode", S, a, b) }

func (b *bst) entAtom(S Lin) *ai.Atom { return &ai.Atom{Name: "ent", Args: []Lin{S}, Elem: b.entT} }

func (b *bst) ent(in *In, S, i Lin) *ai.StructV { return in.Elem(b.entAtom(S), i).(*ai.StructV) }

func (b *bst) seg(S, lo, hi Lin) ai.Word { return ai.Word{ai.Seg(b.entAtom(S), lo, hi)} }

func (b *bst) entry(in *In, x Lin) (S, i Lin, ok bool) {
	s, ok := x.Single()
	if !ok {
		return
	}
	fn, a := s.App()
	if fn != b.keyName() || len(a) != 2 {
		return S, i, false
	}
	return a[0], a[1], true
}

// cut replaces a loop that walks down the tree by an arbitrary step of it: the
// walk is at some subtree of the one it started from, with those of the
// candidate invariants that hold at the start and are kept by every iteration.
func (b *bst) cut(in *In, fr *ai.Frame, l *ai.Loop, inits map[*ssa.Phi]Val) bool {
	regions := map[*ssa.Phi]tregion{}
	for _, p := range l.Phis {
		if b.isNodeT(p.Type()) {
			r, ok := b.region(in, inits[p])
			if ok && !b.clean(in, r) {
				return false
			}
			if ok {
				regions[p] = r
			}
		}
	}
	if len(regions) == 0 {
		return false
	}
	if in.Invariant(fr, l, inits) {
		return true
	}
	type cand struct {
		phi  *ssa.Phi
		what int // 0: at the left edge, 1: at the right edge, 2: not left of the key, 3: not right of it, 4: not empty, 5: unchanged
		key  keyPos
	}
	holds := func(in *In, c cand, v Val) bool {
		if c.what == 5 {
			return in.ValEq(v, inits[c.phi])
		}
		r0 := regions[c.phi]
		r, ok := b.region(in, v)
		if !ok || !r.S.Same(r0.S) {
			return false
		}
		switch c.what {
		case 0:
			return in.Must(ai.EQ(r.a.Sub(r0.a)))
		case 1:
			return in.Must(ai.EQ(r.b.Sub(r0.b)))
		case 2:
			return in.Must(ai.LE(r.a, c.key.P))
		case 3:
			return in.Must(ai.LE(c.key.P.Add(c.key.H), r.b))
		default:
			return in.Must(ai.LT(r.a, r.b))
		}
	}
	var cands []cand
	for _, p := range l.Phis {
		r, ok := regions[p]
		if !ok {
			cands = append(cands, cand{phi: p, what: 5})
			continue
		}
		for w := 0; w < 5; w++ {
			if w == 2 || w == 3 {
				for _, k := range b.gh(in).pos {
					if k.S.Same(r.S) {
						if c := (cand{p, w, k}); holds(in, c, inits[p]) {
							cands = append(cands, c)
						}
					}
				}
				continue
			}
			if c := (cand{phi: p, what: w}); holds(in, c, inits[p]) {
				cands = append(cands, c)
			}
		}
	}
	arbitrary := func(in *In) map[*ssa.Phi]Val {
		vals := map[*ssa.Phi]Val{}
		for _, p := range l.Phis {
			r0, ok := regions[p]
			if !ok {
				for _, c := range cands {
					if c.phi == p {
						vals[p] = inits[p]
					}
				}
				if vals[p] == nil {
					in.Undecided("loop of %s carries %s", l.Fn.Name(), p.Comment)
				}
				continue
			}
			a, z := ai.V(ai.NewSym("lo")), ai.V(ai.NewSym("hi"))
			for _, c := range cands {
				if c.phi == p && c.what == 0 {
					a = r0.a
				}
				if c.phi == p && c.what == 1 {
					z = r0.b
				}
			}
			in.Assume(ai.LE(r0.a, a))
			in.Assume(ai.LE(a, z))
			in.Assume(ai.LE(z, r0.b))
			for _, c := range cands {
				if c.phi != p {
					continue
				}
				switch c.what {
				case 2:
					in.Assume(ai.LE(a, c.key.P))
				case 3:
					in.Assume(ai.LE(c.key.P.Add(c.key.H), z))
				case 4:
					in.Assume(ai.LT(a, z))
				}
			}
			vals[p] = tnode(r0.S, a, z)
		}
		return vals
	}
	for changed := true; changed; {
		changed = false
		drop := map[int]bool{}
		in.Scratch(func() {
			phis := arbitrary(in)
			w0 := len(in.St.Writes)
			in.Iterate(fr, l, phis, func(s ai.Stop) {
				if s.Kind != ai.StopBack {
					return
				}
				if len(in.St.Writes) != w0 {
					in.Undecided("loop of %s changes the tree on the way down", l.Fn.Name())
				}
				for p, r0 := range regions {
					r, ok := b.region(in, s.Phis[p])
					was, _ := b.region(in, phis[p])
					if !ok || !r.S.Same(r0.S) || !in.Must(ai.LE(was.a, r.a)) || !in.Must(ai.LE(r.b, was.b)) || !in.Must(ai.LT(r.b.Sub(r.a), was.b.Sub(was.a))) {
						in.Undecided("loop of %s does not step to a smaller subtree", l.Fn.Name())
					}
				}
				for i, c := range cands {
					if !drop[i] && !holds(in, c, s.Phis[c.phi]) {
						drop[i] = true
					}
				}
			})
		})
		if len(drop) > 0 {
			changed = true
			var keep []cand
			for i, c := range cands {
				if !drop[i] {
					keep = append(keep, c)
				}
			}
			cands = keep
		}
	}
	for p, v := range arbitrary(in) {
		fr.Env[p] = v
	}
	return true
}

func (b *bst) isNodeT(t types.Type) bool { return b.isNode(t) }

// keyAt is the position of a key in a sequence.
func (b *bst) keyAt(in *In, key, S Lin) (P, H Lin, ok bool) {
	if T, i, ok := b.entry(in, key); ok && T.Same(S) {
		return i, ai.C(1), true
	}
	for _, p := range b.gh(in).pos {
		if p.S.Same(S) && p.key.Same(key) {
			return p.P, p.H, true
		}
	}
	return
}

func (b *bst) less(in *In, x, y Lin) (ai.Bool, bool) {
	if x.Same(y) {
		return ai.False, true
	}
	S, i, ok1 := b.entry(in, x)
	T, j, ok2 := b.entry(in, y)
	switch {
	case ok1 && ok2:
		if !S.Same(T) {
			return ai.Bool{}, false
		}
		return ai.LT(i, j), true
	case ok1:
		if P, _, ok := b.keyAt(in, y, S); ok {
			return ai.LT(i, P), true
		}
	case ok2:
		if P, H, ok := b.keyAt(in, x, T); ok {
			return ai.LE(P.Add(H), j), true
		}
	}
	return ai.Bool{}, false
}

func setLeaf(v Val, t types.Type, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(*ai.StructV)
	st := t.Underlying().(*types.Struct)
	if !ok {
		s = &ai.StructV{Typ: t, F: make([]Val, st.NumFields())}
	}
	n := &ai.StructV{Typ: t, F: append([]Val(nil), s.F...)}
	n.F[path[0]] = setLeaf(n.F[path[0]], st.Field(path[0]).Type(), path[1:], x)
	return n
}

func (b *bst) materialize(in *In, p ai.Sym) (Val, bool) {
	f, a := p.App()
	var v Val
	switch f {
	case "tnode":
		S, lo, hi := a[0], a[1], a[2]
		if b.stale(in, S, lo, hi) {
			in.Undecided("use of a subtree that was changed")
		}
		in.Assume(ai.LT(lo, hi))
		b.touch(in, S, lo, hi)
		m := ai.UFL("mid", S, lo, hi)
		in.Assume(ai.LE(lo, m))
		in.Assume(ai.LT(m, hi))
		e := b.ent(in, S, m)
		for i, l := range b.leaves {
			v = setLeaf(v, b.nodeT, l.path, e.F[i])
		}
		h, hl, hr := ai.UFL("ht", S, lo, hi), ai.UFL("ht", S, lo, m), ai.UFL("ht", S, m.Plus(1), hi)
		for _, x := range []Lin{h, hl, hr} {
			in.Assume(ai.GE(x))
		}
		for _, x := range []Lin{hl, hr} {
			in.Assume(ai.LE(x, h.Plus(-1)))
			in.Assume(ai.LE(h.Plus(-2), x))
		}
		s := v.(*ai.StructV)
		s.F[b.fl], s.F[b.fr], s.F[b.fh] = tnode(S, lo, m), tnode(S, m.Plus(1), hi), h
		if b.fm >= 0 {
			mx := ai.UFL("mx", S, lo, hi)
			s.F[b.fm] = mx
			in.Assume(ai.LE(e.F[1].(Lin), mx))
			in.Assume(ai.LE(ai.UFL("mx", S, lo, m), mx))
			in.Assume(ai.LE(ai.UFL("mx", S, m.Plus(1), hi), mx))
		}
		b.upd(in, func(g *tghost) {
			g.mats = append(g.mats, tregion{S, lo, hi})
			g.open = append(g.open, tregion{S, lo, hi})
		})
		return s, true
	case "tat":
		e := b.ent(in, a[0], a[1])
		for i, l := range b.leaves {
			v = setLeaf(v, b.nodeT, l.path, e.F[i])
		}
		s := v.(*ai.StructV)
		s.F[b.fl], s.F[b.fr], s.F[b.fh] = ai.UFL("tat.left", a...), ai.UFL("tat.right", a...), ai.UFL("tat.ht", a...)
		if b.fm >= 0 {
			s.F[b.fm] = ai.UFL("tat.mx", a...)
		}
		return s, true
	}
	return nil, false
}

// isEmpty tells whether a subtree is empty.
func (b *bst) isEmpty(in *In, S, lo, hi Lin) bool {
	b.touch(in, S, lo, hi)
	h := ai.UFL("ht", S, lo, hi)
	if !in.Must(ai.GE(h.Plus(-1))) && (in.Must(ai.EQ(h)) || in.Branch(ai.EQ(hi.Sub(lo)))) {
		in.Assume(ai.EQ(hi.Sub(lo)))
		in.Assume(ai.EQ(h))
		return true
	}
	in.Assume(ai.LE(lo.Plus(1), hi))
	in.Assume(ai.GE(h.Plus(-1)))
	return false
}

// touch is called when the height of a subtree may matter: its parent is one
// higher than the higher of its subtrees.
func (b *bst) touch(in *In, S, lo, hi Lin) {
	for k, o := range b.gh(in).open {
		if !o.S.Same(S) {
			continue
		}
		m := ai.UFL("mid", o.S, o.a, o.b)
		if !(lo.Same(o.a) && hi.Same(m)) && !(lo.Same(m.Plus(1)) && hi.Same(o.b)) {
			continue
		}
		b.upd(in, func(g *tghost) { g.open = append(append([]tregion(nil), g.open[:k]...), g.open[k+1:]...) })
		h, hl, hr := ai.UFL("ht", S, o.a, o.b), ai.UFL("ht", S, o.a, m), ai.UFL("ht", S, m.Plus(1), o.b)
		if !in.Branch(ai.EQ(h.Sub(hl).Plus(-1))) {
			in.Assume(ai.EQ(h.Sub(hl).Plus(-2)))
			in.Assume(ai.EQ(h.Sub(hr).Plus(-1)))
		}
		return
	}
}

// stale tells whether the subtree is inside one that a call changed.
func (b *bst) stale(in *In, S, lo, hi Lin) bool {
	for _, u := range b.gh(in).used {
		if u.S.Same(S) && in.Must(ai.LE(u.a, lo)) && in.Must(ai.LE(hi, u.b)) {
			return true
		}
	}
	return false
}

// walked is what a walk over the final tree finds.
type walked struct {
	w    ai.Word
	h    Lin
	mx   []Lin // the highest end point is the highest of these
	none bool
}

func (b *bst) walk(in *In, v Val, what string, seen map[*ai.Obj]bool) walked {
	var obj *ai.Obj
	switch x := v.(type) {
	case *ai.Ptr:
		if len(x.Path) > 0 {
			in.Undecided("tree pointer %s", x)
		}
		obj = x.Obj
	case Lin:
		if x.IsConst(0) {
			return walked{none: true}
		}
		s, ok := x.Single()
		if !ok {
			in.Undecided("tree pointer %s", x)
		}
		obj = in.St.ObjOf[s]
		if obj == nil {
			f, a := s.App()
			if f != "tnode" {
				in.Undecided("tree pointer %s", x)
			}
			if b.isEmpty(in, a[0], a[1], a[2]) {
				return walked{none: true}
			}
			if b.stale(in, a[0], a[1], a[2]) {
				in.Fail("tree", "%s: the tree still refers to the subtree %s as it was before a call changed it", what, x)
			}
			mx := ai.UFL("mx", a...)
			h := ai.UFL("ht", a...)
			return walked{w: b.written(in, tregion{a[0], a[1], a[2]}), h: h, mx: []Lin{mx}}
		}
	default:
		in.Undecided("tree pointer %s", ai.ValString(v))
	}
	if f, _ := obj.Sym.App(); f == "tat" {
		in.Undecided("tree pointer %s", ai.ValString(v))
	}
	if seen[obj] {
		in.Fail("tree", "%s: a node is reached twice", what)
	}
	seen[obj] = true
	if f, a := obj.Sym.App(); f == "tnode" && b.stale(in, a[0], a[1], a[2]) {
		in.Fail("tree", "%s: the tree still refers to the subtree %s as it was before a call changed it", what, obj)
	}
	n, ok := in.Load(&ai.Ptr{Obj: obj}).(*ai.StructV)
	if !ok {
		in.Undecided("node %s", ai.ValString(in.Load(&ai.Ptr{Obj: obj})))
	}
	e := b.nodeEntry(in, n)
	l, r := b.walk(in, n.F[b.fl], what, seen), b.walk(in, n.F[b.fr], what, seen)
	h := in.Lin(n.F[b.fh])
	if b.avl {
		in.Check(b.isMax(in, h.Plus(-1), l.h, r.h), "height", "%s: a node records height %s above subtrees of heights %s and %s", what, h, l.h, r.h)
		in.Check(in.Must(ai.LE(l.h, r.h.Plus(1))) && in.Must(ai.LE(r.h, l.h.Plus(1))), "balance", "%s: a node has subtrees of heights %s and %s", what, l.h, r.h)
	}
	res := walked{w: l.w.Cat(items(e), r.w), h: h}
	if b.fm >= 0 {
		res.mx = append(append([]Lin{in.Lin(e.F[1])}, l.mx...), r.mx...)
		if b.max {
			m := in.Lin(n.F[b.fm])
			in.Check(b.highest(in, m, res.mx), "end point", "%s: a node records the highest end point %s; the end points below it are %v", what, m, res.mx)
		}
	}
	return res
}

// nodeAt is the position of the node an object stands for.
func nodeAt(o *ai.Obj) (S, P Lin, ok bool) {
	switch f, a := o.Sym.App(); {
	case o.Fresh:
	case f == "tat":
		return a[0], a[1], true
	case f == "tnode":
		return a[0], ai.UFL("mid", a...), true
	}
	return
}

// written is the content of a subtree that was not looked into, but for nodes
// that were found there by other means.
func (b *bst) written(in *In, r tregion) ai.Word {
	var at []Lin
	var of []*ai.Obj
	for _, w := range in.St.Writes {
		S, P, ok := nodeAt(w.Obj)
		if !ok || !S.Same(r.S) || in.Must(ai.LT(P, r.a)) || in.Must(ai.LE(r.b, P)) {
			continue
		}
		if !in.Must(ai.LE(r.a, P)) || !in.Must(ai.LT(P, r.b)) {
			in.Undecided("write to a node that may be in another subtree")
		}
		vl := b.leaves[len(b.leaves)-1].path
		if len(w.Path) < len(vl) {
			in.Undecided("write to a node in a subtree")
		}
		for i, x := range vl {
			if w.Path[i].Idx != nil || w.Path[i].F != x {
				in.Undecided("write to a node in a subtree")
			}
		}
		known := false
		for i := range at {
			known = known || of[i] == w.Obj
		}
		if !known {
			at, of = append(at, P), append(of, w.Obj)
		}
	}
	switch len(at) {
	case 0:
		return b.seg(r.S, r.a, r.b)
	case 1:
		n, ok := in.Load(&ai.Ptr{Obj: of[0]}).(*ai.StructV)
		if !ok {
			in.Undecided("node %s", ai.ValString(in.Load(&ai.Ptr{Obj: of[0]})))
		}
		return b.seg(r.S, r.a, at[0]).Cat(items(b.nodeEntry(in, n)), b.seg(r.S, at[0].Plus(1), r.b))
	}
	in.Undecided("writes to nodes in a subtree")
	return nil
}

// alias gives up if a node that was written may also be known by another name.
func (b *bst) alias(in *In) {
	for _, w := range in.St.Writes {
		S, P, ok := nodeAt(w.Obj)
		if !ok {
			continue
		}
		for _, o := range in.St.ObjOf {
			if o == w.Obj || in.St.Mem[o] == nil {
				continue
			}
			if T, Q, ok := nodeAt(o); ok && T.Same(S) && !in.Must(ai.LT(P, Q)) && !in.Must(ai.LT(Q, P)) {
				in.Undecided("write to a node that may be known by another name")
			}
		}
	}
}

// highest tells whether m is the highest of the end points.
func (b *bst) highest(in *In, m Lin, of []Lin) bool {
	var got, want []Lin
	b.expand(in, m, &got)
	for _, x := range of {
		b.expand(in, x, &want)
	}
	return in.Always(func() bool {
		for _, x := range want {
			ok := false
			for _, y := range got {
				ok = ok || x.Same(y)
			}
			if ok {
				continue
			}
			for _, y := range got {
				ok = ok || in.Must(ai.LE(x, y))
			}
			if !ok {
				return false
			}
		}
		for _, x := range got {
			ok := false
			for _, y := range want {
				ok = ok || x.Same(y) || in.Must(ai.LE(x, y))
			}
			if !ok {
				return false
			}
		}
		return true
	})
}

// expand writes a highest end point as that of parts.
func (b *bst) expand(in *In, m Lin, out *[]Lin) {
	add := func() {
		for _, x := range *out {
			if x.Same(m) {
				return
			}
		}
		*out = append(*out, m)
	}
	s, ok := m.Single()
	if !ok {
		add()
		return
	}
	f, a := s.App()
	switch f {
	case "join":
		for _, x := range a {
			b.expand(in, x, out)
		}
		return
	case "mx":
		S, lo, hi := a[0], a[1], a[2]
		if in.Must(ai.LE(hi, lo)) {
			return
		}
		for _, g := range b.gh(in).mats {
			if g.S.Same(S) && g.a.Same(lo) && g.b.Same(hi) {
				i := ai.UFL("mid", S, lo, hi)
				b.expand(in, in.Lin(b.ent(in, S, i).F[1]), out)
				b.expand(in, ai.UFL("mx", S, lo, i), out)
				b.expand(in, ai.UFL("mx", S, i.Plus(1), hi), out)
				return
			}
		}
		for _, g := range b.gh(in).defs {
			if g.S.Same(S) && len(g.W) == 1 && g.W[0].Kind == ai.PSeg && in.Must(ai.EQ(lo)) && in.Must(ai.EQ(hi.Sub(g.n))) {
				b.expand(in, ai.UFL("mx", g.W[0].A.Args[0], g.W[0].Lo, g.W[0].Hi), out)
				return
			}
		}
	}
	add()
}

func (b *bst) isMax(in *In, m, x, y Lin) bool {
	return in.Always(func() bool {
		if in.Branch(ai.LE(x, y)) {
			return in.LinEq(m, y)
		}
		return in.LinEq(m, x)
	})
}

func (b *bst) nodeEntry(in *In, n *ai.StructV) *ai.StructV {
	e := &ai.StructV{Typ: b.entT}
	for _, l := range b.leaves {
		var v Val = n
		for _, i := range l.path {
			s, ok := v.(*ai.StructV)
			if !ok {
				in.Undecided("node field %s", ai.ValString(v))
			}
			v = s.F[i]
		}
		e.F = append(e.F, v)
	}
	return e
}

// flat replaces the sequences made by calls by what they are made of.
func (b *bst) flat(in *In, w ai.Word) ai.Word {
	for n := 0; n < 10; n++ {
		w = in.Norm(w)
		changed := false
		var r ai.Word
		for _, p := range w {
			done := false
			if p.Kind == ai.PSeg && p.A.Name == "ent" {
				for _, d := range b.gh(in).defs {
					if d.S.Same(p.A.Args[0]) {
						if in.Must(ai.EQ(p.Lo)) && in.Must(ai.EQ(p.Hi.Sub(d.n))) {
							r = r.Cat(d.W)
							changed, done = true, true
						}
						break
					}
				}
			}
			if !done {
				r = append(r, p)
			}
		}
		w = r
		if !changed {
			break
		}
	}
	return w
}

// checkTree checks a tree against the content wanted.
func (b *bst) checkTree(in *In, root Val, what string, want ...ai.Word) walked {
	b.alias(in)
	w := b.walk(in, root, what, map[*ai.Obj]bool{})
	if b.content {
		got := b.flat(in, w.w)
		ok := false
		for _, x := range want {
			if in.WordEq(got, x) {
				ok = true
				break
			}
		}
		in.Check(ok, "content", "%s: the tree holds %s, want %s", what, got, want[0])
	}
	return w
}

// unfold turns the argument of a call into a region.
func (b *bst) region(in *In, v Val) (tregion, bool) {
	switch x := v.(type) {
	case Lin:
		if x.IsConst(0) {
			S := ai.V(ai.NewSym("empty"))
			q := b.gh(in).q
			b.upd(in, func(g *tghost) {
				g.defs = append(g.defs, seqDef{S, ai.C(0), nil})
				if q != nil {
					g.pos = append(g.pos, keyPos{S, q.key, ai.C(0), ai.C(0)})
				}
			})
			return tregion{S, ai.C(0), ai.C(0)}, true
		}
		if s, ok := x.Single(); ok {
			if f, a := s.App(); f == "tnode" {
				if o := in.St.ObjOf[s]; o != nil && o.Fresh {
					return tregion{}, false
				}
				return tregion{a[0], a[1], a[2]}, true
			}
		}
	case *ai.Ptr:
		if f, a := x.Obj.Sym.App(); f == "tnode" && len(x.Path) == 0 && !x.Obj.Fresh {
			return tregion{a[0], a[1], a[2]}, true
		}
	}
	return tregion{}, false
}

// clean tells whether nothing inside a region was written.
func (b *bst) clean(in *In, r tregion) bool {
	for _, u := range b.gh(in).used {
		if u.S.Same(r.S) && !in.Must(ai.LE(u.b, r.a)) && !in.Must(ai.LE(r.b, u.a)) && !in.Must(ai.EQ(r.a.Sub(r.b))) {
			return false
		}
	}
	for _, w := range in.St.Writes {
		f, a := w.Obj.Sym.App()
		if f == "tat" && a[0].Same(r.S) {
			return false
		}
		if f != "tnode" || !a[0].Same(r.S) {
			continue
		}
		if in.Must(ai.LE(a[2], r.a)) || in.Must(ai.LE(r.b, a[1])) {
			continue // beside it
		}
		if in.Must(ai.LE(a[1], r.a)) && in.Must(ai.LE(r.b, a[2])) && in.Must(ai.LT(r.b.Sub(r.a), a[2].Sub(a[1]))) {
			continue // above it
		}
		return false
	}
	return true
}

// use marks a region as changed by a call.
func (b *bst) use(in *In, r tregion) {
	b.upd(in, func(g *tghost) { g.used = append(g.used, r) })
}

// contractKind classifies a recursive function by its signature and effects.
func (b *bst) contractKind(in *In, fn *ssa.Function) string {
	if k, ok := b.c.kinds[fn]; ok {
		return k
	}
	k := b.classify(fn)
	if b.c.kinds == nil {
		b.c.kinds = map[*ssa.Function]string{}
	}
	b.c.kinds[fn] = k
	return k
}

func nodeNamed(t types.Type) *types.TypeName {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Origin().Obj()
	}
	return nil
}

func (b *bst) isNode(t types.Type) bool {
	_, ptr := types.Unalias(t).Underlying().(*types.Pointer)
	return ptr && nodeNamed(t) == nodeNamed(b.nodeT)
}

func (b *bst) classify(fn *ssa.Function) string {
	if !recursive(fn) {
		return ""
	}
	nNode, nTP, nFn, nBool, nKey, nSlice, other := 0, 0, 0, 0, 0, 0, 0
	for _, p := range fn.Params {
		t := p.Type()
		switch u := t.Underlying().(type) {
		case *types.Signature:
			nFn++
			continue
		case *types.Slice:
			nSlice++
			continue
		case *types.Basic:
			if u.Kind() == types.Bool {
				nBool++
				continue
			}
		case *types.Struct:
			nKey++
			continue
		}
		if b.isNode(t) {
			nNode++
			continue
		}
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			nTP++
			continue
		}
		other++
	}
	rNode, rInt, rest := 0, 0, 0
	res := fn.Signature.Results()
	rSlice := 0
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Int {
				rInt++
				continue
			}
			if u.Kind() == types.Bool {
				rest++
				continue
			}
		case *types.Struct:
			rest++
			continue
		case *types.Slice:
			rSlice++
			continue
		}
		if b.isNode(t) {
			rNode++
			continue
		}
		other++
	}
	if nNode != 1 || other > 0 {
		return ""
	}
	r := eff.Analyze(effCfg(b.c), fn)
	writes := false
	for _, w := range r.Writes {
		if w.Obj.Kind == eff.Ext && b.isNode(types.NewPointer(w.Obj.Type)) {
			writes = true
		}
	}
	okRest := rest == 0
	if b.pkg == "interval" {
		okRest = rest == 0 || rest == 2
	}
	switch {
	case rNode == 1 && rInt == 0 && rSlice == 0 && okRest && writes && nSlice == 0:
		if b.pkg == "avl" && nTP == 2 && nBool == 0 && nKey == 0 || b.pkg == "interval" && nTP == 1 && nKey == 1 && nBool == 1 {
			return "insert"
		}
		if nTP == 1 && nBool == 0 && nKey == 0 {
			return "remove"
		}
	case rNode == 1 && rInt == 0 && rSlice == 0 && rest == 0 && !writes && nSlice == 0 && nBool == 0 && nKey == 0:
		if nTP == 1 {
			return "search"
		}
		if nTP == 0 {
			return "min"
		}
	case rNode == 0 && rInt == 1 && rest == 0 && rSlice == 0 && !writes && nTP+nKey+nBool+nSlice == 0:
		return "size"
	case res.Len() == 0 && !writes && nFn >= 1 && nTP+nKey+nBool+nSlice == 0:
		return "each"
	case b.pkg == "interval" && rSlice == 1 && res.Len() == 1 && nSlice == 1 && nKey == 1 && nTP == 0 && !writes:
		return "overlaps"
	}
	return ""
}

// recursive tells whether a function may call itself.
func recursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		for _, bl := range f.Blocks {
			for _, x := range bl.Instrs {
				c, ok := x.(ssa.CallInstruction)
				if !ok {
					if mc, ok := x.(*ssa.MakeClosure); ok {
						if g := mc.Fn.(*ssa.Function); !seen[g] {
							seen[g] = true
							if visit(g) {
								return true
							}
						}
					}
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if o := g.Origin(); o != nil {
					g = o
				}
				if g == fn {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// call replaces calls of recursive functions by their contracts.
func (b *bst) call(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
	kind := b.contractKind(in, fn)
	if kind == "join" {
		t := ai.SubstType(fn.Params[0].Type(), tenv)
		if !types.Identical(t, b.leafType(b.leaves[0])) {
			return nil, false
		}
		return b.join(in, in.Lin(args[0]), in.Lin(args[1])), true
	}
	if kind == "" {
		return nil, false
	}
	var node Val
	var tps, keys, bools, slices, fns []Val
	for i, p := range fn.Params {
		t := p.Type()
		switch u := t.Underlying().(type) {
		case *types.Signature:
			fns = append(fns, args[i])
			continue
		case *types.Slice:
			slices = append(slices, args[i])
			continue
		case *types.Basic:
			if u.Kind() == types.Bool {
				bools = append(bools, args[i])
				continue
			}
		case *types.Struct:
			keys = append(keys, args[i])
			continue
		}
		if b.isNode(t) {
			node = args[i]
		} else {
			tps = append(tps, args[i])
		}
	}
	b.c.need(fn, kind)
	r, ok := b.region(in, node)
	if !ok || !b.clean(in, r) {
		in.Undecided("%s is called on a subtree that was changed before", fn.Name())
	}
	g := b.gh(in)
	if g.q != nil && in.InProgress(fn) {
		in.Check(in.Must(ai.LT(r.b.Sub(r.a), g.q.n)), "termination", "%s calls itself on %s, which is not a smaller subtree", fn.Name(), ai.ValString(node))
	}
	n := r.b.Sub(r.a)
	if kind == "insert" || kind == "remove" {
		b.isEmpty(in, r.S, r.a, r.b)
	}
	switch kind {
	case "size":
		return n, true
	case "each":
		for _, f := range fns {
			fs, ok := f.(ai.FnSym)
			if !ok {
				in.Undecided("%s with a function of its own", fn.Name())
			}
			if isFn(fs, "visit") {
				in.St.Trace = in.St.Trace.Cat(b.seg(r.S, r.a, r.b))
			}
		}
		return nil, true
	case "min":
		in.Check(in.Must(ai.LT(r.a, r.b)), "nil", "%s is called on a subtree that may be empty", fn.Name())
		if b.c.kinds2[fn] == "max" {
			return ai.UFL("tat", r.S, r.b.Plus(-1)), true
		}
		return ai.UFL("tat", r.S, r.a), true
	}
	if kind == "overlaps" {
		return b.overlapsCall(in, fn, r, keys[0], slices[0]), true
	}
	// the key
	var key, high Lin
	var kv Val
	switch {
	case kind == "insert" && b.pkg == "avl":
		// the key is compared, the value is not: the key is the one with a position
		kt := fn.Params
		ki := 0
		for _, p := range kt {
			if _, ok := types.Unalias(p.Type()).(*types.TypeParam); ok {
				break
			}
			ki++
		}
		key, kv = in.Lin(tps[0]), tps[1]
		if _, _, ok := b.keyAt(in, key, r.S); !ok {
			key, kv = in.Lin(tps[1]), tps[0]
		}
	case kind == "insert":
		s, ok := keys[0].(*ai.StructV)
		if !ok || len(s.F) != 2 {
			in.Undecided("key %s", ai.ValString(keys[0]))
		}
		// its fields are the key's low and high, in the order of the node's key
		lo, hi := b.leaves[0].path[1], b.leaves[1].path[1]
		key, high = in.Lin(s.F[lo]), in.Lin(s.F[hi])
		kv = tps[0]
	default:
		key = in.Lin(tps[0])
	}
	P, H, ok := b.keyAt(in, key, r.S)
	if !ok {
		in.Undecided("%s with key %s", fn.Name(), key)
	}
	in.Check(in.Must(ai.LE(r.a, P)) && in.Must(ai.LE(P.Add(H), r.b)), "order", "%s is called with key %s on the subtree %s, where keys of that order do not belong", fn.Name(), key, ai.ValString(node))
	hit := in.Branch(ai.EQ(H.Plus(-1)))
	if kind == "search" {
		if hit {
			return ai.UFL("tat", r.S, P), true
		}
		return ai.C(0), true
	}
	S := ai.V(ai.NewSym("S"))
	h0 := ai.UFL("ht", r.S, r.a, r.b)
	var W ai.Word
	var res Val = ai.C(0)
	var old Val
	if hit {
		old = b.ent(in, r.S, P)
	}
	if kind == "insert" {
		e := b.newEntry(key, high, kv)
		n1 := n.Plus(1)
		over := true
		if hit {
			n1 = n
			if len(bools) > 0 {
				over = in.Branch(bools[0].(ai.Bool))
			}
		}
		switch {
		case hit && !over:
			W = b.seg(r.S, r.a, r.b)
		case hit:
			W = b.seg(r.S, r.a, P).Cat(items(b.replaced(in, r.S, P, e)), b.seg(r.S, P.Plus(1), r.b))
		default:
			W = b.seg(r.S, r.a, P).Cat(items(e), b.seg(r.S, P, r.b))
		}
		h1 := ai.UFL("ht", S, ai.C(0), n1)
		in.Assume(ai.LE(h0, h1))
		if hit {
			in.Assume(ai.EQ(h0.Sub(h1)))
		}
		in.Assume(ai.LE(h1, h0.Plus(1)))
		in.Assume(ai.GE(h1.Plus(-1)))
		in.Assume(ai.GE(n1.Plus(-1)))
		res = tnode(S, ai.C(0), n1)
		b.upd(in, func(g *tghost) {
			g.defs = append(g.defs, seqDef{S, n1, W})
			g.pos = append(g.pos, keyPos{S, key, P.Sub(r.a), ai.C(1)})
			g.used = append(g.used, r)
		})
	} else {
		n1 := n
		W = b.seg(r.S, r.a, r.b)
		if hit {
			n1 = n.Plus(-1)
			W = b.seg(r.S, r.a, P).Cat(b.seg(r.S, P.Plus(1), r.b))
		}
		if in.Branch(ai.EQ(n1)) {
			in.Assume(ai.LE(h0, ai.C(1)))
			b.use(in, r)
		} else {
			in.Assume(ai.GE(n1.Plus(-1)))
			h1 := ai.UFL("ht", S, ai.C(0), n1)
			in.Assume(ai.LE(h1, h0))
			if !hit {
				in.Assume(ai.EQ(h0.Sub(h1)))
			}
			in.Assume(ai.LE(h0, h1.Plus(1)))
			in.Assume(ai.GE(h1.Plus(-1)))
			res = tnode(S, ai.C(0), n1)
			b.upd(in, func(g *tghost) {
				g.defs = append(g.defs, seqDef{S, n1, W})
				g.pos = append(g.pos, keyPos{S, key, P.Sub(r.a), ai.C(0)})
				g.used = append(g.used, r)
			})
		}
	}
	return b.results(in, fn, tenv, res, old), true
}

// join is the higher of two end points.
func (b *bst) join(in *In, x, y Lin) Lin {
	var parts []Lin
	for _, v := range []Lin{x, y} {
		l := []Lin{v}
		if s, ok := v.Single(); ok {
			if f, a := s.App(); f == "join" {
				l = a
			}
		}
		for _, p := range l {
			dup := false
			for _, q := range parts {
				dup = dup || p.Same(q)
			}
			if !dup {
				parts = append(parts, p)
			}
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i].String() < parts[j].String() })
	j := ai.UFL("join", parts...)
	for _, p := range parts {
		in.Assume(ai.LE(p, j))
	}
	return j
}

// joins finds the functions that return the higher of their two arguments.
func joins(c *Ctx) {
	c.kinds = map[*ssa.Function]string{}
	for _, pkg := range []string{"", "interval"} {
		sp := c.SSA[pkg]
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fn, ok := sp.Members[n].(*ssa.Function)
			if !ok || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 || recursive(fn) {
				continue
			}
			t, ok := types.Unalias(fn.Params[0].Type()).(*types.TypeParam)
			if !ok || !types.Identical(t, fn.Params[1].Type()) || !types.Identical(t, fn.Signature.Results().At(0).Type()) {
				continue
			}
			in := ai.NewIn(c.Fset)
			in.Explore(func() {
				x, y := in.Lin(sym(in, t, "x")), in.Lin(sym(in, t, "y"))
				v := in.Body(nil, fn, []Val{x, y}, nil, env(fn, t))
				want := y
				if in.Branch(ai.LE(y, x)) {
					want = x
				}
				in.Check(in.ValEq(v, want), "join", "no join")
			})
			if len(in.Viol) == 0 && len(in.Und) == 0 {
				c.kinds[fn] = "join"
			}
		}
	}
}

// replaced is entry P of S once the new entry is put over it: for avl the key
// may stay the old one, which is equal.
func (b *bst) replaced(in *In, S, P Lin, e *ai.StructV) *ai.StructV {
	if b.pkg != "avl" {
		return e
	}
	return &ai.StructV{Typ: b.entT, F: []Val{b.ent(in, S, P).F[0], e.F[1]}}
}

func (b *bst) newEntry(key, high Lin, v Val) *ai.StructV {
	if b.pkg == "avl" {
		return &ai.StructV{Typ: b.entT, F: []Val{key, v}}
	}
	return &ai.StructV{Typ: b.entT, F: []Val{key, high, v}}
}

// kvOf is the KV of an entry, or the zero KV.
func (b *bst) kvOf(in *In, t types.Type, e Val) Val {
	if e == nil {
		return in.Zero(t)
	}
	x := e.(*ai.StructV)
	r := in.Zero(t).(*ai.StructV)
	n := &ai.StructV{Typ: t, F: append([]Val(nil), r.F...)}
	if len(n.F) != 3 {
		in.Undecided("the fields of KV are not the ones specified")
	}
	for i, name := range []string{"Low", "High", "Val"} {
		n.F[fieldIdx(in, t, name)] = x.F[i]
	}
	return n
}

// results makes the results of an insertion or removal: the new subtree, and
// for interval the entry that was there.
func (b *bst) results(in *In, fn *ssa.Function, tenv ai.Tenv, node, old Val) Val {
	res := fn.Signature.Results()
	var out ai.TupleV
	for i := 0; i < res.Len(); i++ {
		t := ai.SubstType(res.At(i).Type(), tenv)
		switch u := t.Underlying().(type) {
		case *types.Basic:
			_ = u
			out = append(out, ai.B(old != nil))
		case *types.Struct:
			out = append(out, b.kvOf(in, t, old))
		default:
			out = append(out, node)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

// ---- obligations ----

// op sets up an arbitrary tree and an operation on it.
func (b *bst) op(in *In) *treeOp {
	q := &treeOp{}
	q.S = ai.V(ai.NewSym("S"))
	q.n = nat(in, "n")
	q.P, q.H = nat(in, "P"), nat(in, "H")
	in.Assume(ai.LE(q.H, ai.C(1)))
	in.Assume(ai.LE(q.P.Add(q.H), q.n))
	kt := b.leafType(b.leaves[0])
	k, ok := sym(in, kt, "k").(Lin)
	if !ok {
		in.Undecided("key type")
	}
	q.key = k
	q.val = sym(in, b.leafType(b.leaves[len(b.leaves)-1]), "v")
	if b.pkg == "interval" {
		q.high = in.Lin(sym(in, kt, "high"))
		in.Assume(ai.LE(q.key, q.high))
	}
	b.upd(in, func(g *tghost) {
		g.q = q
		g.pos = append(g.pos, keyPos{q.S, q.key, q.P, q.H})
	})
	h := ai.UFL("ht", q.S, ai.C(0), q.n)
	in.Assume(ai.GE(h))
	in.Branch(ai.EQ(q.H.Plus(-1)))
	return q
}

func (b *bst) root(q *treeOp) Lin { return tnode(q.S, ai.C(0), q.n) }

func (b *bst) treeObj(in *In, q *treeOp) *ai.Ptr {
	st := b.treeT.Underlying().(*types.Struct)
	v := &ai.StructV{Typ: b.treeT, F: make([]Val, st.NumFields())}
	for i := range v.F {
		switch {
		case i == b.froot:
			v.F[i] = b.root(q)
		case isSig(st.Field(i).Type()):
			v.F[i] = fnSym(in, "less")
		default:
			in.Undecided("the representation of Tree is not the one specified")
		}
	}
	return object(in, b.treeT, "tree", v)
}

func isSig(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

func (b *bst) whole(q *treeOp) ai.Word { return b.seg(q.S, ai.C(0), q.n) }

// inserted are the contents wanted after the operation's entry is put.
func (b *bst) inserted(in *In, q *treeOp, over bool) []ai.Word {
	e := b.newEntry(q.key, q.high, q.val)
	z := ai.C(0)
	if !in.Branch(ai.EQ(q.H.Plus(-1))) {
		return []ai.Word{b.seg(q.S, z, q.P).Cat(items(e), b.seg(q.S, q.P, q.n))}
	}
	if !over {
		return []ai.Word{b.whole(q)}
	}
	r := []ai.Word{b.seg(q.S, z, q.P).Cat(items(e), b.seg(q.S, q.P.Plus(1), q.n))}
	if b.pkg == "avl" {
		r = append(r, b.seg(q.S, z, q.P).Cat(items(b.replaced(in, q.S, q.P, e)), b.seg(q.S, q.P.Plus(1), q.n)))
	}
	return r
}

func (b *bst) removed(in *In, q *treeOp) ai.Word {
	if !in.Branch(ai.EQ(q.H.Plus(-1))) {
		return b.whole(q)
	}
	return b.seg(q.S, ai.C(0), q.P).Cat(b.seg(q.S, q.P.Plus(1), q.n))
}

func (b *bst) old(in *In, q *treeOp) Val {
	if in.Branch(ai.EQ(q.H.Plus(-1))) {
		return b.ent(in, q.S, q.P)
	}
	return nil
}

// heights checks the promise on the height of a changed tree.
func (b *bst) heights(in *In, q *treeOp, w walked, lo, hi int64, what string) {
	if !b.avl {
		return
	}
	h0 := ai.UFL("ht", q.S, ai.C(0), q.n)
	in.Check(in.Must(ai.LE(h0.Plus(lo), w.h)) && in.Must(ai.LE(w.h, h0.Plus(hi))), "height", "%s: the height goes from %s to %s", what, h0, w.h)
}

// contract checks a recursive function against the contract its callers use.
func (b *bst) contract(in *In, fn *ssa.Function, kind string) {
	q := b.op(in)
	q.fn, q.kind = fn, kind
	var args []Val
	tenv := env(fn, b.tp...)
	for i, p := range fn.Params {
		t := ai.SubstType(p.Type(), tenv)
		switch u := t.Underlying().(type) {
		case *types.Signature:
			if kind == "each" && u.Params().Len() == len(b.leaves) && u.Results().Len() == 0 {
				args = append(args, fnSym(in, "visit"))
			} else {
				args = append(args, fnSym(in, "less"))
			}
			continue
		case *types.Slice:
			s, _, _ := seqSlice(in, u.Elem(), "result")
			args = append(args, s)
			continue
		case *types.Basic:
			args = append(args, sym(in, t, "flag"))
			continue
		case *types.Struct:
			if _, ok := t.(*types.TypeParam); !ok {
				n := &ai.StructV{Typ: t, F: make([]Val, u.NumFields())}
				if u.NumFields() != 2 {
					in.Undecided("parameter %s", p.Name())
				}
				n.F[fieldIdx(in, t, "low")], n.F[fieldIdx(in, t, "high")] = q.key, q.high
				args = append(args, n)
				continue
			}
		}
		if b.isNode(t) {
			args = append(args, b.root(q))
			continue
		}
		switch {
		case types.Identical(t, b.leafType(b.leaves[0])):
			args = append(args, q.key)
		case types.Identical(t, b.leafType(b.leaves[len(b.leaves)-1])):
			args = append(args, q.val)
		default:
			in.Undecided("parameter %d of %s", i, fn.Name())
		}
	}
	switch kind {
	case "overlaps":
		b.overlapsBody(in, fn, q, args, tenv)
		return
	case "min":
		in.Assume(ai.LT(ai.C(0), q.n))
	}
	h0 := ai.UFL("ht", q.S, ai.C(0), q.n)
	v := in.Body(nil, fn, args, nil, tenv)
	node := func() Val {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if b.isNode(fn.Signature.Results().At(i).Type()) {
				return res(v, i)
			}
		}
		return nil
	}
	_ = h0
	what := fn.Name()
	switch kind {
	case "insert":
		over := true
		for _, a := range args {
			if f, ok := a.(ai.Bool); ok && in.Branch(ai.EQ(q.H.Plus(-1))) {
				over = in.Branch(f)
			}
		}
		w := b.checkTree(in, node(), what, b.inserted(in, q, over)...)
		in.Check(!w.none, "content", "%s returns an empty tree", what)
		if in.Branch(ai.EQ(q.H.Plus(-1))) {
			b.heights(in, q, w, 0, 0, what)
		} else {
			b.heights(in, q, w, 0, 1, what)
		}
		b.oldResults(in, fn, v, tenv, b.old(in, q))
	case "remove":
		w := b.checkTree(in, node(), what, b.removed(in, q))
		if in.Branch(ai.EQ(q.H.Plus(-1))) {
			b.heights(in, q, w, -1, 0, what)
		} else {
			b.heights(in, q, w, 0, 0, what)
		}
		b.oldResults(in, fn, v, tenv, b.old(in, q))
	case "search":
		b.checkFound(in, q, v, b.old(in, q), what)
		b.unchanged(in, q, what)
	case "min":
		i := ai.C(0)
		if b.c.kinds2[fn] == "max" {
			i = q.n.Plus(-1)
		}
		b.checkFound(in, q, v, b.ent(in, q.S, i), what)
		b.unchanged(in, q, what)
	case "size":
		in.Check(in.ValEq(v, q.n), "size", "%s returns %s for %s entries", what, ai.ValString(v), q.n)
		b.unchanged(in, q, what)
	case "each":
		in.Check(in.WordEq(in.St.Trace, b.whole(q)), "visits", "%s visits %s, want %s", what, in.Norm(in.St.Trace), b.whole(q))
		b.unchanged(in, q, what)
	}
}

func (b *bst) oldResults(in *In, fn *ssa.Function, v Val, tenv ai.Tenv, old Val) {
	rs := fn.Signature.Results()
	if !b.content {
		return
	}
	for i := 0; i < rs.Len(); i++ {
		t := ai.SubstType(rs.At(i).Type(), tenv)
		if b.isNode(t) {
			continue
		}
		switch t.Underlying().(type) {
		case *types.Basic:
			in.Check(in.ValEq(res(v, i), ai.B(old != nil)), "result", "%s returns %s, want %v", fn.Name(), ai.ValString(res(v, i)), old != nil)
		case *types.Struct:
			want := b.kvOf(in, t, old)
			in.Check(in.ValEq(res(v, i), want), "result", "%s returns %s, want %s", fn.Name(), ai.ValString(res(v, i)), ai.ValString(want))
		}
	}
}

func (b *bst) checkFound(in *In, q *treeOp, v Val, want Val, what string) {
	if want == nil {
		in.Check(in.ValEq(v, ai.C(0)) || isNil(in, v), "search", "%s finds %s, want none", what, ai.ValString(v))
		return
	}
	if isNil(in, v) {
		in.Fail("search", "%s finds nothing, want %s", what, ai.ValString(want))
	}
	p := in.ObjAt(v, b.nodeT)
	n, ok := in.Load(p).(*ai.StructV)
	if !ok {
		in.Undecided("node %s", ai.ValString(in.Load(p)))
	}
	e := b.nodeEntry(in, n)
	in.Check(in.ValEq(e, want), "search", "%s finds %s, want %s", what, ai.ValString(e), ai.ValString(want))
}

// isNil decides whether a pointer is nil.
func isNil(in *In, v Val) bool { return in.Branch(in.PtrEq(v, ai.C(0))) }

func (b *bst) unchanged(in *In, q *treeOp, what string) {
	for _, w := range in.St.Writes {
		if !w.Obj.Fresh {
			in.Fail("read-only", "%s writes %s", what, w.Obj)
		}
	}
	_ = q
}

// rootOf is the root of the tree after an operation.
func (b *bst) rootOf(in *In, t *ai.Ptr) Val { return get(in, t, "root") }

func treeSpec(c *Ctx, pkg string, mode func(b *bst)) {
	if pkg == "interval" {
		joins(c)
	}
	ob := func(name string, f func(in *In, b *bst, q *treeOp, t *ai.Ptr)) {
		c.Run(pkg+" "+name, func(in *In) {
			b := newBST(c, in, pkg)
			mode(b)
			q := b.op(in)
			f(in, b, q, b.treeObj(in, q))
		})
	}
	m := func(n string) *ssa.Function { return c.Fn(pkg, "Tree."+n) }
	c.Run(pkg+" New", func(in *In) {
		b := newBST(c, in, pkg)
		mode(b)
		fn := c.Fn(pkg, "New")
		var args []Val
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			args = append(args, fnSym(in, "less"))
		}
		t := in.ObjAt(call(in, fn, b.tp, args...), b.treeT)
		in.Check(t.Obj.Fresh, "fresh", "New returns a shared tree")
		in.Check(isNil(in, b.rootOf(in, t)), "content", "New returns a tree that is not empty")
		s := in.Load(t).(*ai.StructV)
		for i, f := range s.F {
			if _, ok := f.(ai.FnSym); ok && i != b.froot {
				in.Check(in.ValEq(f, fnSym(in, "less")), "order", "New keeps %s instead of the function given", ai.ValString(f))
			}
		}
	})
	if pkg == "avl" {
		ob("Put", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
			call(in, m("Put"), b.tp, t, q.key, q.val)
			b.checkTree(in, b.rootOf(in, t), "Put", b.inserted(in, q, true)...)
		})
		ob("Remove", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
			call(in, m("Remove"), b.tp, t, q.key)
			b.checkTree(in, b.rootOf(in, t), "Remove", b.removed(in, q))
		})
		ob("Get", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
			v := call(in, m("Get"), b.tp, t, q.key)
			old := b.old(in, q)
			in.Check(in.ValEq(res(v, 1), ai.B(old != nil)), "get", "Get reports %s, want %v", ai.ValString(res(v, 1)), old != nil)
			want := in.Zero(b.leafType(b.leaves[1]))
			if old != nil {
				want = old.(*ai.StructV).F[1]
			}
			in.Check(in.ValEq(res(v, 0), want), "get", "Get returns %s, want %s", ai.ValString(res(v, 0)), ai.ValString(want))
			b.unchanged(in, q, "Get")
		})
	} else {
		for _, x := range []struct {
			name string
			over bool
		}{{"Add", false}, {"Put", true}} {
			x := x
			ob(x.name, func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
				fn := m(x.name)
				v := call(in, fn, b.tp, t, q.key, q.high, q.val)
				b.checkTree(in, b.rootOf(in, t), x.name, b.inserted(in, q, x.over)...)
				b.oldResults(in, fn, v, env(fn, b.tp...), b.old(in, q))
			})
		}
		ob("Remove", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
			fn := m("Remove")
			v := call(in, fn, b.tp, t, q.key)
			b.checkTree(in, b.rootOf(in, t), "Remove", b.removed(in, q))
			b.oldResults(in, fn, v, env(fn, b.tp...), b.old(in, q))
		})
		ob("Get", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
			fn := m("Get")
			v := call(in, fn, b.tp, t, q.key)
			b.oldResults(in, fn, v, env(fn, b.tp...), b.old(in, q))
			b.unchanged(in, q, "Get")
		})
	}
	ob("Each", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
		call(in, m("Each"), b.tp, t, fnSym(in, "visit"))
		in.Check(in.WordEq(in.St.Trace, b.whole(q)), "visits", "Each visits %s, want %s", in.Norm(in.St.Trace), b.whole(q))
		b.unchanged(in, q, "Each")
	})
	ob("Size", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
		v := call(in, m("Size"), b.tp, t)
		in.Check(in.ValEq(v, q.n), "size", "Size returns %s for %s entries", ai.ValString(v), q.n)
		b.unchanged(in, q, "Size")
	})
	ob("Height", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
		v := call(in, m("Height"), b.tp, t)
		h := ai.UFL("ht", q.S, ai.C(0), q.n)
		in.Check(in.ValEq(v, h), "height", "Height returns %s for a tree of height %s", ai.ValString(v), h)
		b.unchanged(in, q, "Height")
	})
	if pkg == "interval" {
		overlapsSpec(c, ob, m)
	}
	// the contracts the operations above rely on, and those these rely on
	done := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, n := range append([]need(nil), c.needs...) {
			if done[n.fn] {
				continue
			}
			done[n.fn] = true
			changed = true
			n := n
			run := func() *Ob {
				return c.Run(pkg+" contract of "+n.fn.Name()+" ("+n.kind+")", func(in *In) {
					b := newBST(c, in, pkg)
					mode(b)
					b.contract(in, n.fn, n.kind)
				})
			}
			if n.kind == "min" {
				// the leftmost or the rightmost node: whichever it is
				k := len(c.Obs)
				if o := run(); o != nil && len(o.Viol) > 0 {
					first := c.Obs[k]
					c.Obs = c.Obs[:k]
					if c.kinds2 == nil {
						c.kinds2 = map[*ssa.Function]string{}
					}
					c.kinds2[n.fn] = "max"
					if o := run(); o != nil && len(o.Viol) > 0 {
						delete(c.kinds2, n.fn)
						c.Obs[k] = first
					} else {
						// the users of the function were analysed with the wrong contract
						for _, o := range c.Obs[:k] {
							if !strings.Contains(o.Name, "contract") {
								o.Viol = nil
								o.Und["analysed with another contract of "+n.fn.Name()]++
							}
						}
					}
				}
				continue
			}
			run()
		}
	}
}

type need struct {
	fn   *ssa.Function
	kind string
}

// need records that a contract was used.
func (c *Ctx) need(fn *ssa.Function, kind string) {
	for _, n := range c.needs {
		if n.fn == fn {
			return
		}
	}
	c.needs = append(c.needs, need{fn, kind})
}

func init() {
	reg("C03", func(c *Ctx) { treeSpec(c, "avl", func(b *bst) { b.content = true }) })
	reg("C04", func(c *Ctx) { treeSpec(c, "avl", func(b *bst) { b.avl = true }) })
	reg("C13", func(c *Ctx) { treeSpec(c, "interval", func(b *bst) { b.content, b.avl = true, true }) })
	reg("C14", func(c *Ctx) { treeSpec(c, "interval", func(b *bst) { b.max = true }) })
}

// ---- overlap queries ----

func (b *bst) flt(S, lo, hi Lin, elem types.Type) ai.Piece {
	return ai.Seg(&ai.Atom{Name: "flt", Args: []Lin{S, lo, hi}, Elem: elem}, ai.C(0), ai.UFL("flt.n", S, lo, hi))
}

func (b *bst) overlapsCall(in *In, fn *ssa.Function, r tregion, key, slice Val) Val {
	q := b.gh(in).q
	s, ok := key.(*ai.StructV)
	if !ok || len(s.F) != 2 {
		in.Undecided("query %s", ai.ValString(key))
	}
	lo, hi := fieldIdx(in, s.Typ, "low"), fieldIdx(in, s.Typ, "high")
	in.Check(in.ValEq(s.F[lo], q.key) && in.ValEq(s.F[hi], q.high), "query", "%s is called with another query: %s", fn.Name(), ai.ValString(key))
	if in.Branch(ai.EQ(r.b.Sub(r.a))) {
		return slice
	}
	in.Assume(ai.LT(r.a, r.b))
	sl, ok := slice.(ai.Slice)
	if !ok {
		in.Undecided("result %s", ai.ValString(slice))
	}
	kv := b.c.Type("interval", "KV")
	elem := inst(kv, b.tp...)
	ai.Nonneg("flt.n")
	b.upd(in, func(g *tghost) { g.calls = append(g.calls, r) })
	return in.Append(sl, ai.Word{b.flt(r.S, r.a, r.b, elem)}, elem)
}

// covered checks that a result lists exactly the overlapping entries of [0,n).
func (b *bst) covered(in *In, q *treeOp, w ai.Word, what string) {
	cur := ai.C(0)
	elem := inst(b.c.Type("interval", "KV"), b.tp...)
	for _, p := range w {
		switch {
		case p.Kind == ai.PSeg && p.A.Name == "flt":
			a := p.A.Args
			in.Check(a[0].Same(q.S) && in.Must(ai.LE(cur, a[1])) && b.excluded(in, q, cur, a[1], 0), "overlaps", "%s: the results go from entry %s to those of %s..%s, though entries between may overlap", what, cur, a[1], a[2])
			in.Check(in.Must(ai.EQ(p.Lo)) && in.LinEq(p.Hi, ai.UFL("flt.n", a...)), "overlaps", "%s: only part of the results of a subtree is kept", what)
			cur = a[2]
		case p.Kind == ai.PItem || p.Kind == ai.PSeg && p.A.Name == "ent" && p.A.Args[0].Same(q.S) && in.Must(ai.EQ(p.Len().Plus(-1))):
			// an entry
			var hit *Lin
			if p.Kind == ai.PSeg {
				hit = &p.Lo
			}
			for _, m := range b.gh(in).mats {
				i := ai.UFL("mid", m.S, m.a, m.b)
				if p.Kind == ai.PItem && m.S.Same(q.S) && in.ValEq(p.V, b.kvOf(in, elem, b.ent(in, q.S, i))) {
					hit = &i
				}
			}
			if hit == nil {
				in.Fail("overlaps", "%s: the results hold %s, which is no entry of the tree", what, ai.ValString(p.V))
			}
			e := b.ent(in, q.S, *hit)
			in.Check(in.Must(ai.LT(in.Lin(e.F[0]), q.high)) && in.Must(ai.LT(q.key, in.Lin(e.F[1]))), "overlaps", "%s: entry %s is listed though it does not overlap", what, *hit)
			in.Check(in.Must(ai.LE(cur, *hit)) && b.excluded(in, q, cur, *hit, 0), "overlaps", "%s: the results go from entry %s to entry %s, though entries between may overlap", what, cur, *hit)
			cur = hit.Plus(1)
		default:
			if in.Must(ai.EQ(p.Len())) {
				continue
			}
			in.Undecided("result %s", w)
		}
	}
	in.Check(b.excluded(in, q, cur, q.n, 0), "overlaps", "%s: the results end at entry %s, though later entries may overlap (%s)", what, cur, w)
}

// excluded tells whether no entry of [lo,hi) can overlap the query.
func (b *bst) excluded(in *In, q *treeOp, lo, hi Lin, depth int) bool {
	if in.Must(ai.LE(hi, lo)) {
		return true
	}
	for _, m := range b.gh(in).calls {
		if m.S.Same(q.S) && in.Must(ai.LE(m.a, lo)) && in.Must(ai.LE(hi, m.b)) && in.Must(ai.EQ(ai.UFL("flt.n", m.S, m.a, m.b))) {
			return true
		}
	}
	mats := b.gh(in).mats
	for _, m := range mats {
		if !m.S.Same(q.S) {
			continue
		}
		// nothing below a node ends after the end point recorded
		if in.Must(ai.LE(m.a, lo)) && in.Must(ai.LE(hi, m.b)) && in.Must(ai.LE(ai.UFL("mx", m.S, m.a, m.b), q.key)) {
			return true
		}
		// later entries start later
		i := ai.UFL("mid", m.S, m.a, m.b)
		if in.Must(ai.LE(i, lo)) && in.Must(ai.LE(q.high, in.Lin(b.ent(in, q.S, i).F[0]))) {
			return true
		}
	}
	if in.Must(ai.EQ(hi.Sub(lo).Plus(-1))) {
		e := b.ent(in, q.S, lo)
		if in.Must(ai.LE(q.high, in.Lin(e.F[0]))) || in.Must(ai.LE(in.Lin(e.F[1]), q.key)) {
			return true
		}
	}
	if depth > 3 {
		return false
	}
	for _, m := range mats {
		i := ai.UFL("mid", m.S, m.a, m.b)
		if m.S.Same(q.S) && in.Must(ai.LE(lo, i)) && in.Must(ai.LT(i, hi)) && !(in.Must(ai.EQ(i.Sub(lo))) && in.Must(ai.EQ(hi.Sub(i).Plus(-1)))) {
			if b.excluded(in, q, lo, i, depth+1) && b.excluded(in, q, i, i.Plus(1), depth+1) && b.excluded(in, q, i.Plus(1), hi, depth+1) {
				return true
			}
		}
	}
	return false
}

func (b *bst) overlapsBody(in *In, fn *ssa.Function, q *treeOp, args []Val, tenv ai.Tenv) {
	var before ai.Word
	for _, a := range args {
		if s, ok := a.(ai.Slice); ok {
			before = in.Content(s)
		}
	}
	v := in.Body(nil, fn, args, nil, tenv)
	s, ok := v.(ai.Slice)
	if !ok {
		in.Undecided("result %s", ai.ValString(v))
	}
	n := before.Len()
	w := in.Content(s)
	pre, post := in.Split(w, n)
	in.Check(in.WordEq(pre, before), "overlaps", "%s loses earlier results: %s", fn.Name(), pre)
	b.covered(in, q, post, fn.Name())
	b.unchangedTree(in, fn.Name())
}

func (b *bst) unchangedTree(in *In, what string) {
	for _, w := range in.St.Writes {
		if f, _ := w.Obj.Sym.App(); !w.Obj.Fresh && (f == "tnode" || f == "tat") {
			in.Fail("read-only", "%s writes %s", what, w.Obj)
		}
	}
}

func overlapsSpec(c *Ctx, ob func(string, func(in *In, b *bst, q *treeOp, t *ai.Ptr)), m func(string) *ssa.Function) {
	ob("Overlaps", func(in *In, b *bst, q *treeOp, t *ai.Ptr) {
		v := call(in, m("Overlaps"), b.tp, t, q.key, q.high)
		s, ok := v.(ai.Slice)
		if !ok {
			in.Undecided("result %s", ai.ValString(v))
		}
		b.covered(in, q, in.Content(s), "Overlaps")
		b.unchangedTree(in, "Overlaps")
	})
}
