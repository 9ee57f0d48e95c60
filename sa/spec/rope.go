package spec

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// Ropes, by induction. An arbitrary rope with the content S[a:b) is the pointer
// rnode(S,a,b): a leaf with an array of its own, or a node cut at rmid(S,a,b).
// Recursive functions are replaced by their contracts, which are the
// obligations themselves for smaller ropes.
type ropes struct {
	c             *Ctx
	pkg           string
	persistent    bool
	tp            []types.Type
	nodeT         types.Type
	fk, fv, fn    int
	fl, fr        int
	leafC, interC int64
	elem          types.Type
	domain        map[*ssa.Function]bool // clamps its range itself
	total         bool
}

type rdef struct {
	S, n Lin
	W    ai.Word
	stor []rstore // the storage its leaves may use, beside fresh one
}

// rstore is storage: that of the leaves of a region, or a part of an array.
type rstore struct {
	S      Lin
	obj    *ai.Obj
	lo, hi Lin
}

type rnow struct {
	sym     ai.Sym
	S, a, b Lin
}

type robj struct {
	obj  *ai.Obj
	stor []rstore
}

type rghost struct {
	defs []rdef
	now  []rnow
	objs []robj // arrays that are storage of a region
	used []tregion
	kids []ai.Sym
	seen ai.Word // what was visited
	badV bool
	n    Lin // size of the argument of the function analysed
	root ai.Sym
	fn   *ssa.Function
}

func (b *ropes) gh(in *In) *rghost {
	g, _ := in.St.Ghost.(*rghost)
	if g == nil {
		return &rghost{}
	}
	return g
}

func (b *ropes) upd(in *In, f func(g *rghost)) {
	g := *b.gh(in)
	g.defs = g.defs[:len(g.defs):len(g.defs)]
	g.now = g.now[:len(g.now):len(g.now)]
	g.objs = g.objs[:len(g.objs):len(g.objs)]
	g.used = g.used[:len(g.used):len(g.used)]
	g.kids = g.kids[:len(g.kids):len(g.kids)]
	f(&g)
	in.St.Ghost = &g
}

func newRopes(c *Ctx, in *In, pkg string) *ropes {
	b := &ropes{c: c, pkg: pkg, persistent: pkg == "prope", domain: map[*ssa.Function]bool{}}
	named := c.Type(pkg, "Node")
	b.tp = params(named)
	b.nodeT = inst(named, b.tp...)
	b.elem = b.tp[0]
	b.fk, b.fv, b.fn = fieldIdx(in, b.nodeT, "kind"), fieldIdx(in, b.nodeT, "value"), fieldIdx(in, b.nodeT, "length")
	b.fl, b.fr = fieldIdx(in, b.nodeT, "left"), fieldIdx(in, b.nodeT, "right")
	if b.nodeT.Underlying().(*types.Struct).NumFields() != 5 {
		in.Undecided("the representation of %s nodes is not the one specified", pkg)
	}
	k := func(name string) int64 {
		if sp := c.SSA[pkg]; sp != nil {
			if o, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if v, ok := constant.Int64Val(o.Val()); ok {
					return v
				}
			}
		}
		in.Undecided("the representation of %s nodes is not the one specified: no %s", pkg, name)
		return 0
	}
	b.leafC, b.interC = k("tLeaf"), k("tNode")
	ai.RegisterAtom(&ai.Atom{Name: "rc", Args: []Lin{ai.C(0)}, Elem: b.elem})
	ai.NilFam["rnode"] = func(in *In, args []Lin) ai.Bool { return ai.False }
	in.Hooks.Materialize = b.materialize
	in.Hooks.MayAlias = func(in *In, p, q ai.Sym, t types.Type) bool { return false }
	in.Hooks.Call = b.call
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		if isFn(f, "visit") && len(args) == 1 {
			w, ok := b.walk(in, args[0])
			if !ok.ok {
				in.Undecided("visit of %s: %s", ai.ValString(args[0]), ok.why)
			}
			n := in.Load(in.ObjAt(args[0], b.nodeT)).(*ai.StructV)
			in.Check(in.Must(ai.EQ(in.Lin(n.F[b.fk]).Plus(-b.leafC))), "each", "a node that is no leaf is visited")
			b.upd(in, func(g *rghost) { g.seen = g.seen.Cat(w.w) })
			return nil, true
		}
		return nil, false
	}
	in.Hooks.Global = func(in *In, g *ssa.Global) (Val, bool) {
		if g.Pkg == nil || g.Pkg != c.SSA[pkg] {
			return nil, false
		}
		t := g.Type().(*types.Pointer).Elem()
		v := sym(in, t, g.Name())
		if g.Name() == "SplitLength" {
			in.Assume(ai.GE(in.Lin(v).Plus(-1)))
		}
		return v, true
	}
	return b
}

func rnode(S, a, b Lin) Lin { return ai.UFL("rnode", S, a, b) }

func (b *ropes) seg(S, lo, hi Lin) ai.Word {
	return ai.Word{ai.Seg(&ai.Atom{Name: "rc", Args: []Lin{S}, Elem: b.elem}, lo, hi)}
}

func (b *ropes) regionOf(in *In, s ai.Sym) (tregion, bool) {
	g := b.gh(in)
	for i := len(g.now) - 1; i >= 0; i-- {
		if g.now[i].sym == s {
			return tregion{g.now[i].S, g.now[i].a, g.now[i].b}, true
		}
	}
	if f, a := s.App(); f == "rnode" {
		return tregion{a[0], a[1], a[2]}, true
	}
	return tregion{}, false
}

func (b *ropes) stale(in *In, s ai.Sym, r tregion) bool {
	for _, u := range b.gh(in).used {
		if u.S.Same(r.S) && !in.Must(ai.LE(u.b, r.a)) && !in.Must(ai.LE(r.b, u.a)) {
			return true
		}
	}
	return false
}

func (b *ropes) materialize(in *In, s ai.Sym, t types.Type) (Val, bool) {
	r, ok := b.regionOf(in, s)
	if !ok {
		return nil, false
	}
	now := false
	for _, x := range b.gh(in).now {
		now = now || x.sym == s
	}
	if !now && b.stale(in, s, r) {
		in.Undecided("use of a part that was changed")
	}
	n := r.b.Sub(r.a)
	in.Assume(ai.GE(n))
	v := &ai.StructV{Typ: b.nodeT, F: make([]Val, 5)}
	v.F[b.fn] = n
	if in.Branch(ai.EQ(ai.UFL("rkind", r.S, r.a, r.b))) {
		c := ai.UFL("rcap", r.S, r.a, r.b)
		in.Assume(ai.LE(n, c))
		slack := &ai.Atom{Name: "slack", Args: []Lin{r.S, r.a, r.b}, Elem: b.elem}
		o := in.PreObj(b.elem, "leaf", &ai.ArrV{W: b.seg(r.S, r.a, r.b).Cat(ai.Word{ai.Seg(slack, n, c)}), Elem: b.elem})
		v.F[b.fk], v.F[b.fl], v.F[b.fr] = ai.C(b.leafC), ai.C(0), ai.C(0)
		v.F[b.fv] = ai.Slice{Arr: o, Off: ai.C(0), Len: n, Cap: c, NilB: ai.BoolSym(ai.UFL("rnil", r.S, r.a, r.b))}
		b.upd(in, func(g *rghost) { g.objs = append(g.objs, robj{o, []rstore{{S: r.S, lo: r.a, hi: r.b}}}) })
		return v, true
	}
	m := ai.UFL("rmid", r.S, r.a, r.b)
	in.Assume(ai.LE(r.a, m))
	in.Assume(ai.LE(m, r.b))
	l, rr := rnode(r.S, r.a, m), rnode(r.S, m, r.b)
	v.F[b.fk], v.F[b.fl], v.F[b.fr] = ai.C(b.interC), l, rr
	v.F[b.fv] = in.Zero(b.nodeT.Underlying().(*types.Struct).Field(b.fv).Type())
	ls, _ := l.Single()
	rs, _ := rr.Single()
	b.upd(in, func(g *rghost) {
		if s == g.root || func() bool {
			for _, k := range g.kids {
				if k == s {
					return true
				}
			}
			return false
		}() {
			g.kids = append(g.kids, ls, rs)
		}
	})
	return v, true
}

// rwalk is what a walk over a rope finds.
type rwalk struct {
	w    ai.Word
	n    Lin
	stor []rstore
	syms []ai.Sym
}

type rok struct {
	ok   bool
	why  string
	rule string
	und  bool
}

func (b *ropes) walk(in *In, v Val) (rwalk, rok) {
	seen := map[ai.Sym]bool{}
	return b.walk1(in, v, seen)
}

func (b *ropes) walk1(in *In, v Val, seen map[ai.Sym]bool) (rwalk, rok) {
	bad := func(rule, why string) (rwalk, rok) { return rwalk{}, rok{why: why, rule: rule} }
	und := func(why string) (rwalk, rok) { return rwalk{}, rok{why: why, und: true} }
	var s ai.Sym
	var obj *ai.Obj
	switch x := v.(type) {
	case *ai.Ptr:
		if len(x.Path) > 0 {
			return und("pointer " + x.String())
		}
		s, obj = x.Obj.Sym, x.Obj
	case Lin:
		if x.IsConst(0) {
			return bad("nil", "a node has no child")
		}
		var ok bool
		if s, ok = x.Single(); !ok {
			return und("pointer " + x.String())
		}
		obj = in.St.ObjOf[s]
	default:
		return und("pointer " + ai.ValString(v))
	}
	if seen[s] && !b.persistent {
		return bad("shared", "a node is reached twice")
	}
	seen[s] = true
	_, lazy := ai.Val(nil), false
	if obj != nil {
		_, lazy = in.St.Mem[obj].(ai.Lazy)
	}
	if obj == nil || lazy {
		r, ok := b.regionOf(in, s)
		if !ok {
			return und("pointer " + ai.ValString(v))
		}
		now := false
		for _, x := range b.gh(in).now {
			now = now || x.sym == s
		}
		if !now && b.stale(in, s, r) {
			return und("a part that was changed is used")
		}
		return rwalk{w: b.seg(r.S, r.a, r.b), n: r.b.Sub(r.a), stor: []rstore{{S: r.S, lo: r.a, hi: r.b}}}, rok{ok: true}
	}
	n, ok := in.Load(&ai.Ptr{Obj: obj}).(*ai.StructV)
	if !ok {
		return und("node " + ai.ValString(in.Load(&ai.Ptr{Obj: obj})))
	}
	length := in.Lin(n.F[b.fn])
	kind := in.Lin(n.F[b.fk])
	if in.Must(ai.EQ(kind.Plus(-b.leafC))) {
		sl, ok := n.F[b.fv].(ai.Slice)
		if !ok {
			return und("leaf " + ai.ValString(n.F[b.fv]))
		}
		if l, r := n.F[b.fl], n.F[b.fr]; !isNilV(l) || !isNilV(r) {
			return und("a leaf has children")
		}
		if !in.Must(ai.EQ(length.Sub(sl.Len))) {
			return bad("length", "a leaf of "+sl.Len.String()+" elements records length "+length.String())
		}
		res := rwalk{n: sl.Len}
		if sl.Arr != nil {
			res.w = in.Content(sl)
			res.stor = []rstore{{obj: sl.Arr, lo: sl.Off, hi: sl.Off.Add(sl.Cap)}}
		}
		return res, rok{ok: true}
	}
	if !in.Must(ai.EQ(kind.Plus(-b.interC))) {
		return bad("kind", "a node is of kind "+kind.String())
	}
	l, o := b.walk1(in, n.F[b.fl], seen)
	if !o.ok {
		return l, o
	}
	r, o := b.walk1(in, n.F[b.fr], seen)
	if !o.ok {
		return r, o
	}
	if sl, ok := n.F[b.fv].(ai.Slice); !ok || sl.Arr != nil {
		return und("a node with children has a value")
	}
	if !in.Must(ai.EQ(length.Sub(l.n).Sub(r.n))) {
		return bad("length", "a node over "+l.n.String()+" and "+r.n.String()+" elements records length "+length.String())
	}
	return rwalk{w: l.w.Cat(r.w), n: length, stor: append(append([]rstore(nil), l.stor...), r.stor...)}, rok{ok: true}
}

func isNilV(v Val) bool {
	x, ok := v.(Lin)
	return ok && x.IsConst(0)
}

// flat replaces the contents made by calls by what they are made of.
func (b *ropes) flat(in *In, w ai.Word) ai.Word {
	for n := 0; n < 10; n++ {
		w = in.Norm(w)
		changed := false
		var r ai.Word
		for _, p := range w {
			done := false
			if p.Kind == ai.PSeg && p.A.Name == "rc" {
				for _, d := range b.gh(in).defs {
					if d.S.Same(p.A.Args[0]) {
						x := in.Sub(d.W, p.Lo, p.Hi)
						r = r.Cat(x)
						changed, done = true, true
						break
					}
				}
			}
			if !done {
				r = append(r, p)
			}
		}
		w = r
		if !changed {
			break
		}
	}
	return w
}

// ---- storage ----

func (b *ropes) expandStor(in *In, x rstore) ([]rstore, bool) {
	g := b.gh(in)
	if x.obj != nil {
		for _, o := range g.objs {
			if o.obj == x.obj {
				return o.stor, true
			}
		}
		return nil, false
	}
	for _, d := range g.defs {
		if d.S.Same(x.S) {
			return d.stor, true
		}
	}
	return nil, false
}

func (b *ropes) apart(in *In, x, y rstore) bool {
	if in.Must(ai.LE(x.hi, x.lo)) || in.Must(ai.LE(y.hi, y.lo)) {
		return true
	}
	if x.obj == y.obj && (x.obj != nil || x.S.Same(y.S)) {
		return in.Must(ai.LE(x.hi, y.lo)) || in.Must(ai.LE(y.hi, x.lo))
	}
	// what is further away from the elements is known less precisely
	xs, ok1 := b.expandStor(in, x)
	ys, ok2 := b.expandStor(in, y)
	if !ok1 && !ok2 {
		return true // the leaves of different ropes, and arrays of the caller
	}
	all := func(l []rstore, y rstore) bool {
		for _, s := range l {
			if !b.apart(in, s, y) {
				return false
			}
		}
		return true
	}
	return ok1 && all(xs, y) || ok2 && all(ys, x)
}

func (b *ropes) storName(x rstore) string {
	if x.obj != nil {
		return x.obj.String() + "[" + x.lo.String() + ":" + x.hi.String() + "]"
	}
	return "that of the elements " + x.lo.String() + " to " + x.hi.String()
}

// checkRope checks a rope against the content wanted. Nothing in it may use
// storage the caller has a hold of.
func (b *ropes) checkRope(in *In, v Val, what string, want ai.Word, foreign ...rstore) rwalk {
	w, o := b.walk(in, v)
	if o.und {
		in.Undecided("%s: %s", what, o.why)
	}
	in.Check(o.ok, o.rule, "%s: %s", what, o.why)
	got := b.flat(in, w.w)
	want = b.flat(in, want)
	in.Check(in.WordEq(got, want), "content", "%s: the rope holds %s, want %s", what, got, want)
	if !b.persistent {
		b.storage(in, what, w.stor, foreign)
	}
	return w
}

func (b *ropes) storage(in *In, what string, stor, foreign []rstore) {
	for i, x := range stor {
		for j := 0; j < i; j++ {
			in.Check(b.apart(in, x, stor[j]), "storage", "%s: two leaves share growable storage: %s and %s", what, b.storName(stor[j]), b.storName(x))
		}
		for _, f := range foreign {
			in.Check(b.apart(in, x, f), "storage", "%s: a leaf uses %s, which belongs to the caller", what, b.storName(f))
		}
	}
}

// ---- contracts ----

func (b *ropes) isNode(t types.Type) bool {
	_, ptr := types.Unalias(t).Underlying().(*types.Pointer)
	return ptr && nodeNamed(t) == nodeNamed(b.nodeT)
}

// kind tells which contract a recursive function has.
func (b *ropes) kind(fn *ssa.Function) string {
	if fn.Pkg != b.c.SSA[b.pkg] || !recursive(fn) {
		return ""
	}
	sig := fn.Signature
	var ps string
	for _, p := range fn.Params {
		switch u := types.Unalias(p.Type()).Underlying().(type) {
		case *types.Slice:
			ps += "s"
		case *types.Basic:
			if u.Kind() == types.Int {
				ps += "i"
			} else {
				ps += "?"
			}
		case *types.Signature:
			ps += "f"
		default:
			if b.isNode(p.Type()) {
				ps += "n"
			} else {
				ps += "?"
			}
		}
	}
	ps += ":"
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Slice:
			ps += "s"
		case *types.Basic:
			if u.Kind() == types.Int {
				ps += "i"
			} else {
				ps += "?"
			}
		default:
			if b.isNode(t) {
				ps += "n"
			} else if _, ok := types.Unalias(t).(*types.TypeParam); ok {
				ps += "v"
			} else {
				ps += "?"
			}
		}
	}
	name := fn.Name()
	if token.IsExported(name) {
		switch name + " " + ps {
		case "New s:n", "Value n:s", "Slice nii:s", "At ni:v", "Len n:i", "Insert nis:", "Insert nis:n", "Remove nii:", "Remove nii:n", "SplitAt ni:nn", "Rebuild n:", "Rebalance n:", "Each nf:":
			return name
		}
		return ""
	}
	switch ps {
	case "ns:":
		return "copy"
	case "nsii:":
		return "copySlice"
	case "ns:s":
		return "append"
	case "nsii:s":
		return "appendSlice"
	case "nf:":
		return "Each"
	case "nii:s":
		return "Slice"
	case "n:s":
		return "Value"
	case "ni:v":
		return "At"
	case "n:i":
		return "Len"
	}
	return ""
}

// byKind sorts the arguments of a call by what they are.
type rargs struct {
	node   Val
	slices []Val
	ints   []Lin
	fns    []Val
}

func (b *ropes) args(in *In, fn *ssa.Function, args []Val) rargs {
	var r rargs
	for i, p := range fn.Params {
		switch types.Unalias(p.Type()).Underlying().(type) {
		case *types.Slice:
			r.slices = append(r.slices, args[i])
		case *types.Basic:
			r.ints = append(r.ints, in.Lin(args[i]))
		case *types.Signature:
			r.fns = append(r.fns, args[i])
		default:
			r.node = args[i]
		}
	}
	return r
}

func (b *ropes) slice(in *In, v Val) ai.Slice {
	s, ok := v.(ai.Slice)
	if !ok {
		in.Undecided("slice %s", ai.ValString(v))
	}
	return s
}

// fresh is a new rope with a content.
func (b *ropes) fresh(in *In, w ai.Word, stor []rstore) Lin {
	S := ai.V(ai.NewSym("S"))
	n := w.Len()
	b.upd(in, func(g *rghost) { g.defs = append(g.defs, rdef{S, n, w, stor}) })
	return rnode(S, ai.C(0), n)
}

// change gives a node a new content.
func (b *ropes) change(in *In, v Val, w ai.Word, stor []rstore) {
	var s ai.Sym
	var o *ai.Obj
	switch x := v.(type) {
	case *ai.Ptr:
		s, o = x.Obj.Sym, x.Obj
	case Lin:
		s, _ = x.Single()
		o = in.St.ObjOf[s]
	}
	r, isRegion := b.regionOf(in, s)
	S := ai.V(ai.NewSym("S"))
	n := w.Len()
	b.upd(in, func(g *rghost) {
		g.defs = append(g.defs, rdef{S, n, w, stor})
		g.now = append(g.now, rnow{s, S, ai.C(0), n})
		if isRegion {
			g.used = append(g.used, r)
		}
	})
	if o != nil {
		in.St.Mem[o] = ai.Lazy{}
	}
}

func (b *ropes) call(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
	k := b.kind(fn)
	if k == "" {
		return nil, false
	}
	a := b.args(in, fn, args)
	g := b.gh(in)
	busy := in.InProgress(fn)
	if k == "New" {
		s := b.slice(in, a.slices[0])
		if busy && fn == g.fn {
			in.Check(in.Must(ai.LT(s.Len, g.n)), "termination", "%s calls itself on %s elements", fn.Name(), s.Len)
		}
		var stor []rstore
		if s.Arr != nil {
			stor = []rstore{{obj: s.Arr, lo: s.Off, hi: s.Off.Add(s.Len)}}
		}
		return b.fresh(in, in.Content(s), stor), true
	}
	w, o := b.walk(in, a.node)
	if o.und {
		in.Undecided("call of %s: %s", fn.Name(), o.why)
	}
	if !o.ok {
		if busy {
			in.Fail(o.rule, "%s is called on a broken rope: %s", fn.Name(), o.why)
		}
		return nil, false // follow it
	}
	if busy && fn == g.fn {
		smaller := false
		if x, ok := a.node.(Lin); ok {
			s, _ := x.Single()
			for _, k := range g.kids {
				smaller = smaller || k == s
			}
		}
		if p, ok := a.node.(*ai.Ptr); ok {
			for _, k := range g.kids {
				smaller = smaller || k == p.Obj.Sym
			}
		}
		in.Check(smaller, "termination", "%s calls itself on %s, which is no part of what it was called on", fn.Name(), ai.ValString(a.node))
	}
	b.c.need(fn, k)
	n := w.n
	arr := func(x ai.Word) Val {
		l := x.Len()
		if b.persistent {
			return in.NewArr(b.elem, x, l, l)
		}
		c := ai.V(ai.NewSym("cap"))
		in.Assume(ai.LE(l, c))
		slack := &ai.Atom{Name: "slack", Args: []Lin{c}, Elem: b.elem}
		o := in.PreObj(b.elem, "part", &ai.ArrV{W: x.Cat(ai.Word{ai.Seg(slack, ai.C(0), c.Sub(l))}), Elem: b.elem})
		b.upd(in, func(g *rghost) { g.objs = append(g.objs, robj{o, w.stor}) })
		return ai.Slice{Arr: o, Off: ai.C(0), Len: l, Cap: c, NilB: ai.BoolSym(ai.V(ai.NewSym("nil")))}
	}
	ranged := func(s, e Lin) (Lin, Lin) {
		if b.clamps(fn) {
			clamp := func(x Lin) Lin {
				if in.Branch(ai.LE(x, ai.C(0))) {
					return ai.C(0)
				}
				if in.Branch(ai.LE(n, x)) {
					return n
				}
				return x
			}
			s, e = clamp(s), clamp(e)
			if in.Branch(ai.LE(e, s)) {
				return s, s
			}
			return s, e
		}
		if (k == "Slice" || k == "copySlice" || k == "appendSlice") && in.Branch(ai.LE(e, s)) {
			return ai.C(0), ai.C(0)
		}
		in.Check(in.Must(ai.GE(s)) && in.Must(ai.LE(s, e)) && in.Must(ai.LE(e, n)), "range", "%s is called with the range %s to %s of %s elements", fn.Name(), s, e, n)
		return s, e
	}
	at := func(i Lin) {
		in.Check(in.Must(ai.GE(i)) && in.Must(ai.LE(i, n)), "range", "%s is called with position %s of %s elements", fn.Name(), i, n)
	}
	switch k {
	case "Len":
		return n, true
	case "Value":
		return arr(w.w), true
	case "Slice":
		s, e := ranged(a.ints[0], a.ints[1])
		return arr(in.Sub(w.w, s, e)), true
	case "At":
		at(a.ints[0].Plus(1))
		return in.At(w.w, a.ints[0]), true
	case "copy":
		d := b.slice(in, a.slices[0])
		if !in.Must(ai.LE(n, d.Len)) {
			in.Undecided("%s of %s elements to %s", fn.Name(), n, d.Len)
		}
		in.WriteRange(d, ai.C(0), w.w)
		return nil, true
	case "copySlice":
		s, e := ranged(a.ints[0], a.ints[1])
		d := b.slice(in, a.slices[0])
		if !in.Must(ai.LE(e.Sub(s), d.Len)) {
			in.Undecided("%s of %s elements to %s", fn.Name(), e.Sub(s), d.Len)
		}
		in.WriteRange(d, ai.C(0), in.Sub(w.w, s, e))
		return nil, true
	case "append":
		return in.Append(b.slice(in, a.slices[0]), w.w, b.elem), true
	case "appendSlice":
		s, e := ranged(a.ints[0], a.ints[1])
		return in.Append(b.slice(in, a.slices[0]), in.Sub(w.w, s, e), b.elem), true
	case "Each":
		for _, f := range a.fns {
			fs, ok := f.(ai.FnSym)
			if !ok || !isFn(fs, "visit") {
				in.Undecided("%s with a function of its own", fn.Name())
			}
			b.upd(in, func(g *rghost) { g.seen = g.seen.Cat(w.w) })
		}
		return nil, true
	case "Rebuild", "Rebalance":
		b.change(in, a.node, w.w, w.stor)
		return nil, true
	case "Insert":
		at(a.ints[0])
		pre, post := in.Split(w.w, a.ints[0])
		x := pre.Cat(in.Content(b.slice(in, a.slices[0])), post)
		if b.persistent {
			return b.fresh(in, x, nil), true
		}
		b.change(in, a.node, x, w.stor)
		return nil, true
	case "Remove":
		s, e := ranged(a.ints[0], a.ints[1])
		pre, post := in.Split(w.w, s)
		_, post = in.Split(post, e.Sub(s))
		x := pre.Cat(post)
		if b.persistent {
			return b.fresh(in, x, nil), true
		}
		b.change(in, a.node, x, w.stor)
		return nil, true
	case "SplitAt":
		at(a.ints[0])
		U := b.fresh(in, w.w, w.stor)
		us, _ := U.Single()
		_, ua := us.App()
		i := a.ints[0]
		pre, post := in.Split(w.w, i)
		l := b.fresh(in, pre, []rstore{{S: ua[0], lo: ai.C(0), hi: i}})
		r := b.fresh(in, post, []rstore{{S: ua[0], lo: i, hi: n}})
		return ai.TupleV{l, r}, true
	}
	return nil, false
}

// clamps tells whether a function with a range takes any, and clamps it.
func (b *ropes) clamps(fn *ssa.Function) bool { return b.c.kinds2[fn] == "clamps" }

// ---- obligations ----

type ropeOp struct {
	S, n Lin
	root Lin
	w    ai.Word
}

func (b *ropes) start(in *In, fn *ssa.Function) *ropeOp {
	S := ai.V(ai.NewSym("S"))
	n := nat(in, "n")
	root := rnode(S, ai.C(0), n)
	s, _ := root.Single()
	b.upd(in, func(g *rghost) { g.fn, g.root, g.n = fn, s, n })
	return &ropeOp{S, n, root, b.seg(S, ai.C(0), n)}
}

// input is a slice of the caller.
func (b *ropes) input(in *In, name string) (ai.Slice, ai.Word, rstore) {
	s, a, n := seqSlice(in, b.elem, name)
	return s, seg(a, ai.C(0), n), rstore{obj: s.Arr, lo: ai.C(0), hi: s.Cap}
}

func (b *ropes) checkSlice(in *In, v Val, what string, want ai.Word) {
	s := b.slice(in, v)
	got := b.flat(in, in.Content(s))
	want = b.flat(in, want)
	in.Check(in.WordEq(got, want), "content", "%s returns %s, want %s", what, got, want)
}

func (b *ropes) rng(in *In, n Lin) (s, e Lin) {
	s, e = intv(in, "start"), intv(in, "end")
	in.Assume(ai.GE(s))
	in.Assume(ai.LE(s, e))
	in.Assume(ai.LE(e, n))
	return
}

// op checks one function of kind k.
func (b *ropes) op(in *In, fn *ssa.Function, k string, total bool) {
	what := fn.Name()
	if k == "New" {
		s, w, _ := b.input(in, "b")
		b.upd(in, func(g *rghost) { g.fn, g.n = fn, s.Len })
		v := call(in, fn, b.tp, s)
		r := b.checkRope(in, v, what, w)
		if !b.persistent {
			for _, x := range r.stor {
				if x.obj == s.Arr {
					in.Check(in.Must(ai.LE(x.hi, s.Len)), "storage", "%s: a leaf can grow into %s, past the end of the slice given", what, b.storName(x))
				}
			}
		}
		return
	}
	q := b.start(in, fn)
	var args []Val
	var ints []Lin
	var sl ai.Slice
	var sw ai.Word
	var store rstore
	k2 := 0
	for _, p := range fn.Params {
		switch types.Unalias(p.Type()).Underlying().(type) {
		case *types.Slice:
			switch k {
			case "copy", "copySlice", "append", "appendSlice":
				sl, sw, store = b.input(in, "dst")
			default:
				sl, sw, store = b.input(in, "v")
			}
			args = append(args, sl)
		case *types.Basic:
			x := intv(in, []string{"i", "j"}[k2])
			k2++
			ints = append(ints, x)
			args = append(args, x)
		case *types.Signature:
			args = append(args, fnSym(in, "visit"))
		default:
			args = append(args, q.root)
		}
	}
	clamp := func(x Lin) Lin {
		if in.Branch(ai.LE(x, ai.C(0))) {
			return ai.C(0)
		}
		if in.Branch(ai.LE(q.n, x)) {
			return q.n
		}
		return x
	}
	var s, e Lin
	if len(ints) == 2 {
		s, e = ints[0], ints[1]
		if total {
			s, e = clamp(s), clamp(e)
			if in.Branch(ai.LE(e, s)) {
				e = s
			}
		} else {
			in.Assume(ai.GE(s))
			in.Assume(ai.LE(s, q.n))
			in.Assume(ai.GE(e))
			in.Assume(ai.LE(e, q.n))
			if k == "Slice" && !b.persistent || k == "copySlice" || k == "appendSlice" {
				if in.Branch(ai.LE(e, s)) {
					e = s
				}
			} else {
				in.Assume(ai.LE(s, e))
			}
		}
	}
	if len(ints) == 1 {
		in.Assume(ai.GE(ints[0]))
		in.Assume(ai.LE(ints[0], q.n))
		if k == "At" {
			in.Assume(ai.LT(ints[0], q.n))
		}
	}
	switch k {
	case "copy":
		in.Assume(ai.LE(q.n, sl.Len))
	case "copySlice":
		in.Assume(ai.LE(e.Sub(s), sl.Len))
	}
	v := call(in, fn, b.tp, args...)
	sub := func() ai.Word { return in.Sub(q.w, s, e) }
	rest := func() ai.Word {
		pre, post := in.Split(q.w, s)
		_, post = in.Split(post, e.Sub(s))
		return pre.Cat(post)
	}
	same := func() { b.checkRope(in, q.root, what, q.w) }
	switch k {
	case "Len":
		in.Check(in.ValEq(v, q.n), "length", "%s returns %s, want %s", what, ai.ValString(v), q.n)
		same()
	case "Value":
		b.checkSlice(in, v, what, q.w)
		same()
	case "Slice":
		b.checkSlice(in, v, what, sub())
		same()
	case "At":
		x := in.At(q.w, ints[0])
		in.Check(in.ValEq(v, x), "content", "%s returns %s, want %s", what, ai.ValString(v), ai.ValString(x))
		same()
	case "copy", "copySlice":
		w := q.w
		if k == "copySlice" {
			w = sub()
		}
		_, tail := in.Split(sw, w.Len())
		b.checkSlice(in, sl, what, w.Cat(tail))
		same()
	case "append", "appendSlice":
		w := q.w
		if k == "appendSlice" {
			w = sub()
		}
		b.checkSlice(in, v, what, sw.Cat(w))
		same()
	case "Each":
		got := b.flat(in, b.gh(in).seen)
		in.Check(in.WordEq(got, q.w), "each", "%s visits leaves that hold %s", what, got)
		same()
	case "Rebuild", "Rebalance":
		same()
	case "Insert", "Remove":
		var w ai.Word
		if k == "Insert" {
			pre, post := in.Split(q.w, ints[0])
			w = pre.Cat(sw, post)
		} else {
			w = rest()
		}
		if b.persistent {
			b.checkRope(in, v, what, w)
			same()
			break
		}
		if k == "Insert" {
			b.checkRope(in, q.root, what, w, store)
			b.checkSlice(in, sl, what+"'s argument", sw)
			break
		}
		b.checkRope(in, q.root, what, w)
	case "SplitAt":
		pre, post := in.Split(q.w, ints[0])
		l := b.checkRope(in, res(v, 0), what+", first part", pre)
		r := b.checkRope(in, res(v, 1), what+", second part", post)
		if b.persistent {
			same()
		} else {
			b.storage(in, what, append(append([]rstore(nil), l.stor...), r.stor...), nil)
		}
	}
}

func ropeSpec(c *Ctx, pkg string) {
	kinds := []string{"New", "Len", "Value", "Slice", "At", "Insert", "Remove", "SplitAt", "Rebuild", "Rebalance"}
	if pkg == "rope" {
		kinds = append(kinds, "Each")
	}
	fnOf := func(k string) *ssa.Function {
		if k == "New" {
			return c.Fn(pkg, k)
		}
		return c.Fn(pkg, "Node."+k)
	}
	c.kinds2 = map[*ssa.Function]string{}
	done := map[*ssa.Function]bool{}
	one := func(fn *ssa.Function, k string) {
		if done[fn] {
			return
		}
		done[fn] = true
		ob := c.Run(pkg+" "+fn.Name(), func(in *In) {
			b := newRopes(c, in, pkg)
			b.op(in, fn, k, b.clamps(fn))
		})
		if ob != nil && !token.IsExported(fn.Name()) && !(pkg == "prope" && (fn.Name() == "copy" || fn.Name() == "copySlice")) {
			// a helper need not be what its signature suggests
			for _, v := range ob.Viol {
				ob.Und["not the function its signature suggests: "+v.Msg+" at "+v.Pos]++
			}
			ob.Viol = nil
		}
	}
	// which functions with a range take any
	probe := func(fn *ssa.Function, k string) {
		in := ai.NewIn(c.Fset)
		c.kinds2[fn] = "clamps"
		in.Explore(func() {
			b := newRopes(c, in, pkg)
			b.op(in, fn, k, true)
		})
		if len(in.Viol) > 0 || len(in.Und) > 0 {
			delete(c.kinds2, fn)
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(missing); !ok {
					panic(r)
				}
			}
		}()
		in := ai.NewIn(c.Fset)
		in.Explore(func() {
			b := newRopes(c, in, pkg)
			sp := c.SSA[pkg]
			var fns []*ssa.Function
			for _, k := range []string{"Slice", "Remove"} {
				fns = append(fns, fnOf(k))
			}
			named := c.Type(pkg, "Node")
			for i := 0; i < named.NumMethods(); i++ {
				if !named.Method(i).Exported() {
					fns = append(fns, c.Prog.FuncValue(named.Method(i)))
				}
			}
			_ = sp
			for _, fn := range fns {
				switch k := b.kind(fn); k {
				case "Slice", "Remove", "copySlice", "appendSlice":
					probe(fn, k)
				}
			}
		})
	}()
	for _, k := range kinds {
		var fn *ssa.Function
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(missing); !ok {
						panic(r)
					}
				}
			}()
			fn = fnOf(k)
		}()
		if fn == nil {
			c.Run(pkg+" "+k, func(in *In) { fnOf(k) })
			continue
		}
		one(fn, k)
	}
	for _, n := range []int{0, 1, 2, 3, 4} {
		if pkg == "rope" && n < 2 {
			continue
		}
		n := n
		c.Run(pkg+" Join of "+string(rune('0'+n)), func(in *In) {
			b := newRopes(c, in, pkg)
			fn := c.Fn(pkg, "Join")
			b.upd(in, func(g *rghost) { g.fn = fn })
			var parts []Val
			var w ai.Word
			for i := 0; i < n; i++ {
				S := ai.V(ai.NewSym("S"))
				l := nat(in, "n")
				parts = append(parts, rnode(S, ai.C(0), l))
				w = w.Cat(b.seg(S, ai.C(0), l))
			}
			rest := parts
			var args []Val
			if pkg == "rope" {
				args = append(args, parts[0], parts[1])
				rest = parts[2:]
			}
			t := fn.Params[len(fn.Params)-1].Type().Underlying().(*types.Slice).Elem()
			var more ai.Word
			for _, p := range rest {
				more = append(more, ai.Item(p))
			}
			et := ai.SubstType(t, env(fn, b.tp...))
			if len(rest) == 0 {
				args = append(args, in.Zero(types.NewSlice(et)))
			} else {
				args = append(args, in.NewArr(et, more, ai.C(int64(len(rest))), ai.C(int64(len(rest)))))
			}
			v := call(in, fn, b.tp, args...)
			b.checkRope(in, v, "Join", w)
		})
	}
	// the helpers the operations rely on
	for changed := true; changed; {
		changed = false
		for _, n := range append([]need(nil), c.needs...) {
			if !done[n.fn] {
				one(n.fn, n.kind)
				changed = true
			}
		}
	}
}

func init() {
	reg("C18", func(c *Ctx) { ropeSpec(c, "rope") })
	reg("C19", func(c *Ctx) { ropeSpec(c, "prope") })
}
