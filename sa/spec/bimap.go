package spec

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() { reg("C05", bimapSpec) }

// A bimapRep is an arbitrary bidirectional map: two maps with unknown contents
// F and R that are inverse to each other.
type bimapRep struct {
	t      types.Type
	tp     []types.Type
	ff, fr int
	F, R   Lin
	mf, mr *types.Map
	p      *ai.Ptr
	n      Lin
	isNil  bool
}

// bpairs is what a partition knows of the contents: pairs, and keys and values
// without a partner.
type bpairs struct {
	k, v       []Lin
	nok, nov   []Lin
	fwdN, revN int
}

func (b *bpairs) clone() *bpairs {
	n := *b
	n.k, n.v, n.nok, n.nov = b.k[:len(b.k):len(b.k)], b.v[:len(b.v):len(b.v)], b.nok[:len(b.nok):len(b.nok)], b.nov[:len(b.nov):len(b.nov)]
	return &n
}

func newBimap(c *Ctx, in *In) *bimapRep {
	r := &bimapRep{}
	n := c.Type("bimap", "Bimap")
	r.tp = params(n)
	r.t = inst(n, r.tp...)
	s, ok := r.t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 2 {
		in.Undecided("the representation of Bimap is not the one specified")
	}
	r.ff, r.fr = -1, -1
	for i := 0; i < 2; i++ {
		m, ok := s.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			in.Undecided("the representation of Bimap is not the one specified")
		}
		if types.Identical(m.Key(), r.tp[0]) {
			r.ff, r.mf = i, m
		} else if types.Identical(m.Key(), r.tp[1]) {
			r.fr, r.mr = i, m
		}
	}
	if r.ff < 0 || r.fr < 0 {
		in.Undecided("the representation of Bimap is not the one specified")
	}
	f := make([]Val, 2)
	if in.Branch(ai.EQ(ai.V(ai.NewSym("nil")))) {
		r.isNil = true
		r.F, r.R, r.n = ai.C(0), ai.C(0), ai.C(0)
		f[0], f[1] = ai.C(0), ai.C(0)
	} else {
		r.F, r.R = ai.V(ai.NewSym("F")), ai.V(ai.NewSym("R"))
		r.n = nat(in, "n")
		f[r.ff] = object(in, s.Field(r.ff).Type(), "forward", &ai.MapC{Base: r.F, Len: r.n, K: r.mf.Key(), V: r.mf.Elem()})
		f[r.fr] = object(in, s.Field(r.fr).Type(), "reverse", &ai.MapC{Base: r.R, Len: r.n, K: r.mr.Key(), V: r.mr.Elem()})
	}
	r.p = object(in, r.t, "bimap", &ai.StructV{Typ: r.t, F: f})
	in.St.Ghost = &bpairs{}
	in.Hooks.MapHas = func(in *In, base, key Lin, k Val) (Val, bool, bool) {
		switch {
		case base.Same(r.F):
			v, ok := r.fwd(in, key)
			return v, ok, true
		case base.Same(r.R):
			v, ok := r.rev(in, key)
			return v, ok, true
		}
		return nil, false, false
	}
	return r
}

// fwd looks a key up in the original content.
func (r *bimapRep) fwd(in *In, k Lin) (Val, bool) {
	return r.look(in, k, r.F, "bimap.v", "bimap.k", func(b *bpairs) (*[]Lin, *[]Lin, *[]Lin, *[]Lin) { return &b.k, &b.v, &b.nok, &b.nov })
}

// rev looks a value up in the original content.
func (r *bimapRep) rev(in *In, v Lin) (Val, bool) {
	return r.look(in, v, r.R, "bimap.k", "bimap.v", func(b *bpairs) (*[]Lin, *[]Lin, *[]Lin, *[]Lin) { return &b.v, &b.k, &b.nov, &b.nok })
}

func (r *bimapRep) look(in *In, x, base Lin, fam, inv string, sel func(*bpairs) (*[]Lin, *[]Lin, *[]Lin, *[]Lin)) (Val, bool) {
	if base.IsConst(0) {
		return nil, false
	}
	b := in.St.Ghost.(*bpairs)
	xs, ys, nox, _ := sel(b)
	for i, k := range *xs {
		if in.Branch(ai.EQ(k.Sub(x))) {
			return (*ys)[i], true
		}
	}
	for _, k := range *nox {
		if in.Branch(ai.EQ(k.Sub(x))) {
			return nil, false
		}
	}
	has := ai.BoolSym(ai.UFL("map.has", base, x))
	b = b.clone()
	xs, ys, nox, noy := sel(b)
	if !in.Branch(has) {
		in.Assume(ai.LT(ai.C(int64(len(*xs))-1), r.n))
		*nox = append(*nox, x)
		in.St.Ghost = b
		return nil, false
	}
	y := ai.UFL(fam, x)
	// the contents are inverse to each other: the partner is a new one
	for _, o := range *ys {
		in.Assume(ai.NE(o.Sub(y)))
	}
	for _, o := range *noy {
		in.Assume(ai.NE(o.Sub(y)))
	}
	in.Assume(ai.EQ(ai.UFL(inv, y).Sub(x)))
	*xs, *ys = append(*xs, x), append(*ys, y)
	in.St.Ghost = b
	in.Assume(ai.LE(ai.C(int64(len(*xs))), r.n))
	return y, true
}

func (r *bimapRep) base(b Lin) *ai.MapC {
	m := r.mf
	if b.Same(r.R) {
		m = r.mr
	}
	return &ai.MapC{Base: b, Len: r.n, K: m.Key(), V: m.Elem()}
}

// contents are the two maps of a bimap now.
func (r *bimapRep) contents(in *In, p *ai.Ptr) (f, g *ai.MapC) {
	s, ok := in.Load(p).(*ai.StructV)
	if !ok {
		in.Undecided("bimap %s", ai.ValString(in.Load(p)))
	}
	get := func(v Val, m *types.Map) *ai.MapC {
		if l, ok := v.(Lin); ok && in.Must(ai.EQ(l)) {
			return &ai.MapC{Base: ai.C(0), Len: ai.C(0), K: m.Key(), V: m.Elem()}
		}
		c, ok := in.Load(in.ObjAt(v, m)).(*ai.MapC)
		if !ok {
			in.Undecided("map content")
		}
		return in.NormMap(c)
	}
	return get(s.F[r.ff], r.mf), get(s.F[r.fr], r.mr)
}

// check compares lookups of an arbitrary key and an arbitrary value with the
// expected ones, and the sizes.
func (r *bimapRep) check(in *In, p *ai.Ptr, what string, fwd, rev func(x Lin) (Val, bool), n Lin) {
	f, g := r.contents(in, p)
	in.Check(in.LinEq(f.Len, n), "size", "%s: %s keys, want %s", what, f.Len, n)
	in.Check(in.LinEq(g.Len, n), "size", "%s: %s values, want %s", what, g.Len, n)
	one := func(m *ai.MapC, t types.Type, want func(x Lin) (Val, bool), dir string) {
		x := sym(in, t, "probe").(Lin)
		w, has := want(x)
		v, h := in.MapContentGet(m, x)
		if !has {
			in.Check(h.K == ai.BFalse, "inverse", "%s: the %s lookup finds an entry that should not be there", what, dir)
			return
		}
		in.Check(h.K == ai.BTrue, "inverse", "%s: the %s lookup misses an entry", what, dir)
		in.Check(in.ValEq(v, w), "inverse", "%s: the %s lookup gives %s, want %s", what, dir, ai.ValString(v), ai.ValString(w))
	}
	if in.Choose(2) == 0 {
		one(f, r.mf.Key(), fwd, "forward")
	} else {
		one(g, r.mr.Key(), rev, "reverse")
	}
}

func bimapSpec(c *Ctx) {
	m := func(n string) *ssa.Function { return c.Fn("bimap", "Bimap."+n) }
	same := func(in *In, r *bimapRep, p *ai.Ptr, what string) {
		r.check(in, p, what, func(x Lin) (Val, bool) { return r.fwd(in, x) }, func(x Lin) (Val, bool) { return r.rev(in, x) }, r.n)
	}
	eq := func(in *In, a, b Lin) bool { return in.Branch(ai.EQ(a.Sub(b))) }
	c.Run("Add", func(in *In) {
		r := newBimap(c, in)
		k, v := sym(in, r.tp[0], "k").(Lin), sym(in, r.tp[1], "v").(Lin)
		call(in, m("Add"), r.tp, r.p, k, v)
		n := r.n.Plus(1)
		ov, had := r.fwd(in, k)
		if had {
			n = n.Plus(-1)
		}
		if _, hadv := r.rev(in, v); hadv && !(had && eq(in, ov.(Lin), v)) {
			n = n.Plus(-1)
		}
		r.check(in, r.p, "Add", func(x Lin) (Val, bool) {
			if eq(in, x, k) {
				return v, true
			}
			w, has := r.fwd(in, x)
			if has && eq(in, w.(Lin), v) {
				return nil, false
			}
			return w, has
		}, func(x Lin) (Val, bool) {
			if eq(in, x, v) {
				return k, true
			}
			w, has := r.rev(in, x)
			if has && eq(in, w.(Lin), k) {
				return nil, false
			}
			return w, has
		}, n)
	})
	c.Run("RemoveForward", func(in *In) {
		r := newBimap(c, in)
		k := sym(in, r.tp[0], "k").(Lin)
		call(in, m("RemoveForward"), r.tp, r.p, k)
		n := r.n
		if _, has := r.fwd(in, k); has {
			n = n.Plus(-1)
		}
		r.check(in, r.p, "RemoveForward", func(x Lin) (Val, bool) {
			if eq(in, x, k) {
				return nil, false
			}
			return r.fwd(in, x)
		}, func(x Lin) (Val, bool) {
			w, has := r.rev(in, x)
			if has && eq(in, w.(Lin), k) {
				return nil, false
			}
			return w, has
		}, n)
	})
	c.Run("RemoveReverse", func(in *In) {
		r := newBimap(c, in)
		v := sym(in, r.tp[1], "v").(Lin)
		call(in, m("RemoveReverse"), r.tp, r.p, v)
		n := r.n
		if _, has := r.rev(in, v); has {
			n = n.Plus(-1)
		}
		r.check(in, r.p, "RemoveReverse", func(x Lin) (Val, bool) {
			w, has := r.fwd(in, x)
			if has && eq(in, w.(Lin), v) {
				return nil, false
			}
			return w, has
		}, func(x Lin) (Val, bool) {
			if eq(in, x, v) {
				return nil, false
			}
			return r.rev(in, x)
		}, n)
	})
	c.Run("lookups", func(in *In) {
		r := newBimap(c, in)
		k, v := sym(in, r.tp[0], "k").(Lin), sym(in, r.tp[1], "v").(Lin)
		look := func(get, has string, x Lin, want Val, present bool, t types.Type) {
			g := call(in, m(get), r.tp, r.p, x)
			h := call(in, m(has), r.tp, r.p, x)
			if !present {
				want = in.Zero(t)
			}
			in.Check(in.ValEq(res(g, 1), ai.B(present)), "lookup", "%s reports %s", get, ai.ValString(res(g, 1)))
			in.Check(in.ValEq(h, ai.B(present)), "lookup", "%s reports %s", has, ai.ValString(h))
			in.Check(in.ValEq(res(g, 0), want), "lookup", "%s gives %s, want %s", get, ai.ValString(res(g, 0)), ai.ValString(want))
		}
		w, has := r.fwd(in, k)
		look("GetForward", "ContainsForward", k, w, has, r.tp[1])
		w, has = r.rev(in, v)
		look("GetReverse", "ContainsReverse", v, w, has, r.tp[0])
		l := call(in, m("Len"), r.tp, r.p)
		in.Check(in.ValEq(l, r.n), "size", "Len returns %s, want %s", ai.ValString(l), r.n)
		same(in, r, r.p, "a lookup")
	})
	c.Run("Len of nil", func(in *In) {
		n := c.Type("bimap", "Bimap")
		l := call(in, m("Len"), params(n), ai.C(0))
		in.Check(in.ValEq(l, ai.C(0)), "size", "Len of a nil map returns %s", ai.ValString(l))
	})
	c.Run("Clear", func(in *In) {
		r := newBimap(c, in)
		call(in, m("Clear"), r.tp, r.p)
		none := func(x Lin) (Val, bool) { return nil, false }
		r.check(in, r.p, "Clear", none, none, ai.C(0))
	})
	c.Run("Each", func(in *In) {
		r := newBimap(c, in)
		traceHook(in)
		call(in, m("Each"), r.tp, r.p, fnSym(in, "visit"))
		t := in.Norm(in.St.Trace)
		in.Check(in.LinEq(t.Len(), r.n), "visits", "Each makes %s visits, want %s", t.Len(), r.n)
		if in.Must(ai.EQ(r.n)) {
			return
		}
		// visit number j is of key number j of an enumeration, with its partner
		j := nat(in, "j")
		in.Assume(ai.LT(j, t.Len()))
		e, ok := in.At(t, j).(ai.TupleV)
		if !ok || len(e) != 2 {
			in.Undecided("visit %s", ai.ValString(in.At(t, j)))
		}
		kv, ok1 := e[0].(Lin)
		vv, ok2 := e[1].(Lin)
		if !ok1 || !ok2 {
			in.Undecided("visit %s", ai.ValString(e))
		}
		if i, x, ok := ai.MapKey(kv); ok {
			_ = i
			in.Check(in.LinEq(x, j), "visits", "visit %s is of key %s", j, x)
			w, has := in.MapContentGet(r.base(r.F), kv)
			in.Check(has.K == ai.BTrue && in.ValEq(w, vv), "visits", "Each visits %s with %s", kv, vv)
		} else if i, x, ok := ai.MapKey(vv); ok {
			_ = i
			in.Check(in.LinEq(x, j), "visits", "visit %s is of value %s", j, x)
			w, has := in.MapContentGet(r.base(r.R), vv)
			in.Check(has.K == ai.BTrue && in.ValEq(w, kv), "visits", "Each visits %s with %s", kv, vv)
		} else {
			in.Undecided("visit %s", ai.ValString(e))
		}
		same(in, r, r.p, "Each")
	})
	c.Run("Copy", func(in *In) {
		r := newBimap(c, in)
		v := call(in, m("Copy"), r.tp, r.p)
		q := &ai.Ptr{Obj: in.Alloc(r.t, "copy", v)}
		same(in, r, r.p, "Copy (the original)")
		same(in, r, q, "Copy")
	})
	c.Run("Of adds every pair", func(in *In) {
		r := newBimap(c, in)
		B := ai.V(ai.NewSym("M"))
		n := nat(in, "m")
		mt := types.NewMap(r.tp[0], r.tp[1])
		src := object(in, mt, "map", &ai.MapC{Base: B, Len: n, K: r.tp[0], V: r.tp[1]})
		add := m("Add")
		in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
			if fn != add {
				return nil, false
			}
			p := in.ObjAt(args[0], r.t)
			g, ok := in.Load(p).(ai.StrV)
			if !ok {
				f, b := r.contents(in, p)
				in.Check(in.LinEq(f.Len, ai.C(0)) && in.LinEq(b.Len, ai.C(0)), "of", "Of does not start from an empty map")
				g = ai.StrV{}
			}
			in.StoreAt(p, ai.StrV{W: g.W.Cat(items(ai.TupleV{args[1], args[2]}))})
			return nil, true
		}
		v := call(in, c.Fn("bimap", "Of"), r.tp, src)
		g, ok := v.(ai.StrV)
		if !ok {
			if in.Must(ai.EQ(n)) {
				q := &ai.Ptr{Obj: in.Alloc(r.t, "result", v)}
				none := func(x Lin) (Val, bool) { return nil, false }
				r.check(in, q, "Of an empty map", none, none, ai.C(0))
				return
			}
			in.Undecided("result %s", ai.ValString(v))
		}
		w := in.Norm(g.W)
		in.Check(in.LinEq(w.Len(), n), "of", "Of adds %s pairs of %s", w.Len(), n)
		j := nat(in, "j")
		in.Assume(ai.LT(j, w.Len()))
		e, ok := in.At(w, j).(ai.TupleV)
		if !ok || len(e) != 2 {
			in.Undecided("pair %s", ai.ValString(in.At(w, j)))
		}
		kv, ok := e[0].(Lin)
		if !ok {
			in.Undecided("pair %s", ai.ValString(e))
		}
		_, x, ok := ai.MapKey(kv)
		if !ok {
			in.Undecided("pair %s", ai.ValString(e))
		}
		in.Check(in.LinEq(x, j), "of", "pair %s is of key %s", j, x)
		want, _ := in.MapContentGet(in.Load(src).(*ai.MapC), kv)
		in.Check(in.ValEq(want, e[1]), "of", "Of adds %s", ai.ValString(e))
	})
}
