package spec

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	reg("C08", func(c *Ctx) { cacheSpec(c, false) })
	reg("C09", func(c *Ctx) { cacheSpec(c, true) })
}

// A cacheRep is an arbitrary cache: n entries in the recency list, the table
// mapping the key of entry i to node i, n <= capacity.
type cacheRep struct {
	c              *Ctx
	d              *dl
	t              types.Type
	tp             []types.Type
	q              *ai.Ptr
	tab            *ai.Obj
	base           Lin
	cap            Lin
	fc, fl, ft, fe int
	cb             ai.FnSym
	k              Lin // the key argument
	kv             types.Type
	mapT           *types.Map
}

func newCache(c *Ctx, in *In) *cacheRep {
	r := &cacheRep{c: c}
	n := c.Type("cache", "Cache")
	r.tp = params(n)
	r.t = inst(n, r.tp...)
	kvn := c.Type("cache", "KV")
	r.kv = inst(kvn, r.tp...)
	r.d = newDL(c, in, r.kv, "node")
	st := r.t.Underlying().(*types.Struct)
	if st.NumFields() != 4 {
		in.Undecided("the representation of Cache is not the one specified")
	}
	r.fc, r.fl, r.ft, r.fe = fieldIdx(in, r.t, "capacity"), fieldIdx(in, r.t, "lru"), fieldIdx(in, r.t, "table"), fieldIdx(in, r.t, "evictCb")
	mt, ok := st.Field(r.ft).Type().Underlying().(*types.Map)
	if !ok || !types.Identical(st.Field(r.fl).Type(), r.d.listT) {
		in.Undecided("the representation of Cache is not the one specified")
	}
	r.mapT = mt
	r.base = ai.V(ai.NewSym("table"))
	in.Assume(ai.NE(r.base))
	r.tab = in.PreObj(mt, "table", &ai.MapC{Base: r.base, Len: r.d.n, K: mt.Key(), V: mt.Elem()})
	r.cap = nat(in, "capacity")
	in.Assume(ai.LE(r.d.n, r.cap))
	r.cb = ai.FnSym{L: ai.UFL("fn:visit")}
	f := make([]Val, 4)
	f[r.fc], f[r.fl], f[r.ft], f[r.fe] = r.cap, r.d.list(), &ai.Ptr{Obj: r.tab}, r.cb
	r.q = object(in, r.t, "cache", &ai.StructV{Typ: r.t, F: f})
	r.k = ai.V(ai.NewSym("k"))
	in.Hooks.MapHas = func(in *In, base, key Lin, k Val) (Val, bool, bool) {
		if !base.Same(r.base) {
			return nil, false, false
		}
		i, ok := r.index(in, key)
		if !ok {
			return nil, false, true
		}
		return r.d.node(i), true, true
	}
	in.Hooks.EqVal = func(in *In, a, b Lin) (ai.Bool, bool) {
		if !r.isKey(a) || !r.isKey(b) {
			return ai.Bool{}, false
		}
		if a.Same(b) {
			return ai.True, true
		}
		i, ok1 := r.index(in, a)
		j, ok2 := r.index(in, b)
		if !ok1 || !ok2 {
			return ai.False, true
		}
		return ai.EQ(i.Sub(j)), true
	}
	traceHook(in)
	return r
}

func (r *cacheRep) key(i Lin) Lin { return ai.UFL("node.val.Key", r.d.A, i) }
func (r *cacheRep) val(in *In, i Lin) Val {
	return r.d.val(in, r.d.A, i).(*ai.StructV).F[1]
}

func (r *cacheRep) isKey(l Lin) bool {
	if l.Same(r.k) {
		return true
	}
	s, ok := l.Single()
	if !ok {
		return false
	}
	f, _ := s.App()
	return f == "node.val.Key"
}

// index finds where a key is in the list: the keys of a cache are distinct.
func (r *cacheRep) index(in *In, key Lin) (Lin, bool) {
	if s, ok := key.Single(); ok {
		if f, a := s.App(); f == "node.val.Key" {
			return a[1], true
		}
	}
	if !key.Same(r.k) {
		in.Undecided("key %s", key)
	}
	i := ai.UFL("idx", key)
	if !in.Branch(ai.GE(i)) {
		return i, false
	}
	in.Assume(ai.LT(i, r.d.n))
	return i, true
}

// agree checks that the table and the list hold the same entries.
func (r *cacheRep) agree(in *In, what string) (nodes, vals ai.Word) {
	s := in.Load(r.q).(*ai.StructV)
	l, ok := s.F[r.fl].(*ai.StructV)
	if !ok {
		in.Undecided("list %s", ai.ValString(s.F[r.fl]))
	}
	r.d.check(in, l, nil, nil, what)
	nodes, vals = r.d.walk(in, l.F[r.d.ff], false)
	m := in.Load(in.ObjAt(s.F[r.ft], r.mapT)).(*ai.MapC)
	in.Check(in.LinEq(m.Len, vals.Len()), "agree", "%s: the table has %s entries, the list %s", what, m.Len, vals.Len())
	for p := range vals {
		ok := in.Always(func() bool {
			var k, n Val
			switch vals[p].Kind {
			case ai.PItem:
				k, n = vals[p].V.(*ai.StructV).F[0], nodes[p].V
			default:
				j := ai.V(ai.NewSym("j"))
				in.Assume(ai.LE(vals[p].Lo, j))
				in.Assume(ai.LT(j, vals[p].Hi))
				k, n = r.key(j), r.d.node(j)
			}
			v, has := in.MapContentGet(m, k)
			return has.K == ai.BTrue && in.ValEq(v, n)
		})
		in.Check(ok, "agree", "%s: the table does not lead to the entries %s of the list", what, vals[p:p+1])
	}
	c := s.F[r.fc].(Lin)
	in.Check(in.Must(ai.LE(vals.Len(), c)), "bound", "%s: %s entries exceed the capacity %s", what, vals.Len(), c)
	return
}

// finds checks that a lookup of key finds val in the new state.
func (r *cacheRep) finds(in *In, k Val, val Val, what string) {
	s := in.Load(r.q).(*ai.StructV)
	m := in.Load(in.ObjAt(s.F[r.ft], r.mapT)).(*ai.MapC)
	v, has := in.MapContentGet(m, k)
	in.Check(has.K == ai.BTrue, "entry", "%s: the key %s is gone", what, ai.ValString(k))
	n := in.Load(in.ObjAt(v, r.d.nodeT)).(*ai.StructV).F[r.d.fv].(*ai.StructV)
	in.Check(in.ValEq(n.F[1], val), "entry", "%s: the key %s has the value %s, want %s", what, ai.ValString(k), ai.ValString(n.F[1]), ai.ValString(val))
}

// others checks that every old entry but those at skip is as before.
func (r *cacheRep) others(in *In, what string, skip ...Lin) {
	j := nat(in, "other")
	in.Assume(ai.LT(j, r.d.n))
	for _, s := range skip {
		in.Assume(ai.NE(j.Sub(s)))
	}
	r.finds(in, r.key(j), r.val(in, j), what)
}

func cacheSpec(c *Ctx, order bool) {
	z := ai.C(0)
	m := func(n string) *ssa.Function { return c.Fn("cache", "Cache."+n) }
	kv := func(r *cacheRep, k, v Val) Val {
		return &ai.StructV{Typ: r.kv, F: []Val{k, v}}
	}
	// list checks order and announcements, if that is what is to be decided.
	list := func(in *In, r *cacheRep, what string, want, trace ai.Word) {
		_, vals := r.agree0(in)
		in.Check(in.WordEq(vals, want), "order", "%s: the entries are %s, want %s", what, vals, want)
		if trace == nil {
			trace = ai.Word{}
		}
		in.Check(in.WordEq(in.St.Trace, trace), "announce", "%s: announced evictions %s, want %s", what, in.St.Trace, trace)
	}
	c.Run("New is empty", func(in *In) {
		r := newCache(c, in)
		cp := nat(in, "cap")
		q := in.ObjAt(call(in, c.Fn("cache", "New"), r.tp, cp), r.t)
		r.q = q
		s := in.Load(q).(*ai.StructV)
		if !order {
			_, vals := r.agree(in, "New")
			in.Check(in.WordEq(vals, nil), "empty", "New returns a cache with %s", vals)
			in.Check(in.LinEq(s.F[r.fc].(Lin), cp), "capacity", "New sets the capacity to %s", ai.ValString(s.F[r.fc]))
			return
		}
		in.Check(in.ValEq(s.F[r.fe], ai.FnSym{L: z}), "announce", "New sets an eviction callback")
	})
	c.Run("Get", func(in *In) {
		r := newCache(c, in)
		i, has := r.index(in, r.k)
		v := call(in, m("Get"), r.tp, r.q, r.k)
		if !order {
			if has {
				in.Check(in.ValEq(res(v, 1), ai.True) && in.ValEq(res(v, 0), r.val(in, i)), "result", "Get of a present key returns %s", ai.ValString(v))
			} else {
				in.Check(in.ValEq(res(v, 1), ai.False) && in.ValEq(res(v, 0), in.Zero(r.tp[1])), "result", "Get of an absent key returns %s", ai.ValString(v))
			}
			_, vals := r.agree(in, "Get")
			in.Check(in.LinEq(vals.Len(), r.d.n), "size", "Get changes the number of entries")
			r.others(in, "Get")
			return
		}
		want := r.d.vals(z, r.d.n)
		if has {
			want = r.d.vals(i, i.Plus(1)).Cat(r.d.vals(z, i), r.d.vals(i.Plus(1), r.d.n))
		}
		list(in, r, "Get", want, nil)
	})
	c.Run("Put", func(in *In) {
		r := newCache(c, in)
		i, has := r.index(in, r.k)
		e := sym(in, r.tp[1], "e")
		call(in, m("Put"), r.tp, r.q, r.k, e)
		n := r.d.n
		switch {
		case has:
			if !order {
				_, vals := r.agree(in, "Put of a present key")
				in.Check(in.LinEq(vals.Len(), n), "size", "Put of a present key changes the number of entries")
				r.finds(in, r.k, e, "Put of a present key")
				r.others(in, "Put of a present key", i)
				return
			}
			list(in, r, "Put of a present key", items(kv(r, r.key(i), e)).Cat(r.d.vals(z, i), r.d.vals(i.Plus(1), n)), nil)
		case in.Branch(ai.EQ(r.cap)):
			if !order {
				_, vals := r.agree(in, "Put without room")
				in.Check(in.LinEq(vals.Len(), z), "size", "Put into a cache of capacity 0 stores something")
				return
			}
			list(in, r, "Put without room", ai.Word{}, nil)
		case in.Branch(ai.LT(n, r.cap)):
			if !order {
				_, vals := r.agree(in, "Put of a new key")
				in.Check(in.LinEq(vals.Len(), n.Plus(1)), "size", "Put of a new key leaves %s of %s entries", vals.Len(), n)
				r.finds(in, r.k, e, "Put of a new key")
				r.others(in, "Put of a new key")
				return
			}
			list(in, r, "Put of a new key", items(kv(r, r.k, e)).Cat(r.d.vals(z, n)), nil)
		default:
			if !order {
				_, vals := r.agree(in, "Put into a full cache")
				in.Check(in.LinEq(vals.Len(), n), "size", "Put into a full cache leaves %s of %s entries", vals.Len(), n)
				r.finds(in, r.k, e, "Put into a full cache")
				return
			}
			var tr ai.Word
			if in.Branch(ai.NE(r.cb.L)) {
				tr = items(ai.TupleV{r.key(n.Plus(-1)), r.val(in, n.Plus(-1))})
			}
			list(in, r, "Put into a full cache", items(kv(r, r.k, e)).Cat(r.d.vals(z, n.Plus(-1))), tr)
		}
	})
	c.Run("Remove", func(in *In) {
		r := newCache(c, in)
		i, has := r.index(in, r.k)
		call(in, m("Remove"), r.tp, r.q, r.k)
		want := r.d.vals(z, r.d.n)
		if has {
			want = r.d.vals(z, i).Cat(r.d.vals(i.Plus(1), r.d.n))
		}
		if !order {
			_, vals := r.agree(in, "Remove")
			in.Check(in.LinEq(vals.Len(), want.Len()), "size", "Remove leaves %s entries, want %s", vals.Len(), want.Len())
			if has {
				r.others(in, "Remove", i)
				s := in.Load(r.q).(*ai.StructV)
				_, still := in.MapContentGet(in.Load(in.ObjAt(s.F[r.ft], r.mapT)).(*ai.MapC), r.k)
				in.Check(still.K == ai.BFalse, "entry", "Remove leaves the key in the cache")
			} else {
				r.others(in, "Remove")
			}
			return
		}
		list(in, r, "Remove", want, nil)
	})
	c.Run("Each", func(in *In) {
		r := newCache(c, in)
		call(in, m("Each"), r.tp, r.q, fnSym(in, "visit"))
		j := ai.NewSym("j")
		n := r.d.n
		want := ai.Word{}
		want = append(want, ai.Piece{Kind: ai.PComp, K: j, N: n, LenL: n, Cases: []ai.Case{{Items: items(ai.TupleV{r.key(ai.V(j)), r.val(in, ai.V(j))})}}})
		in.Check(in.WordEq(in.St.Trace, want), "visits", "Each visits %s", in.St.Trace)
		in.St.Trace = nil
		list(in, r, "Each", r.d.vals(z, n), nil)
	})
	c.Run("Size, Capacity", func(in *In) {
		r := newCache(c, in)
		s := call(in, m("Size"), r.tp, r.q)
		k := call(in, m("Capacity"), r.tp, r.q)
		if !order {
			in.Check(in.ValEq(s, r.d.n), "size", "Size returns %s", ai.ValString(s))
			in.Check(in.ValEq(k, r.cap), "size", "Capacity returns %s", ai.ValString(k))
		}
		list(in, r, "Size", r.d.vals(z, r.d.n), nil)
	})
	if order {
		c.Run("SetEvictCallback", func(in *In) {
			r := newCache(c, in)
			f := fnSym(in, "other")
			call(in, m("SetEvictCallback"), r.tp, r.q, f)
			s := in.Load(r.q).(*ai.StructV)
			in.Check(in.ValEq(s.F[r.fe], f), "announce", "SetEvictCallback does not set the callback")
			list(in, r, "SetEvictCallback", r.d.vals(z, r.d.n), nil)
		})
	}
	// Resize, by the contract of the helper that evicts one entry.
	var helpers []*ssa.Function
	if fn := c.TryFn("cache", "Cache.Resize"); fn != nil {
		helpers = methodCallees(fn)
	}
	for _, h := range helpers {
		c.Run("Resize's "+h.Name()+" evicts the last", func(in *In) {
			r := newCache(c, in)
			n := r.d.n
			in.Assume(ai.GE(n.Plus(-1)))
			// the capacity was lowered already
			in.StoreAt(&ai.Ptr{Obj: r.q.Obj, Path: []ai.Step{{F: r.fc}}}, intv(in, "anycap"))
			call(in, h, r.tp, r.q)
			if !order {
				in.StoreAt(&ai.Ptr{Obj: r.q.Obj, Path: []ai.Step{{F: r.fc}}}, r.cap)
				_, vals := r.agree(in, h.Name())
				in.Check(in.LinEq(vals.Len(), n.Plus(-1)), "size", "%s leaves %s of %s entries", h.Name(), vals.Len(), n)
				return
			}
			var tr ai.Word
			if in.Branch(ai.NE(r.cb.L)) {
				tr = items(ai.TupleV{r.key(n.Plus(-1)), r.val(in, n.Plus(-1))})
			}
			list(in, r, h.Name(), r.d.vals(z, n.Plus(-1)), tr)
		})
	}
	c.Run("Resize evicts what exceeds", func(in *In) {
		r := newCache(c, in)
		n := r.d.n
		newcap := nat(in, "newcap")
		setCb := in.Branch(ai.NE(r.cb.L))
		in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
			is := false
			for _, h := range helpers {
				is = is || h == fn
			}
			if !is {
				return nil, false
			}
			// one eviction: the list is the nodes [0,b], as Back tells
			s := in.Load(r.q).(*ai.StructV)
			sy, ok := s.F[r.fl].(*ai.StructV).F[r.d.fb].(Lin).Single()
			if !ok {
				in.Undecided("cache state")
			}
			f, as := sy.App()
			if f != "node" {
				in.Undecided("cache state")
			}
			b := as[1]
			if !in.Branch(ai.GE(b)) {
				in.Panic("eviction from an empty cache")
			}
			if setCb {
				in.St.Trace = append(in.St.Trace[:len(in.St.Trace):len(in.St.Trace)], ai.Item(ai.TupleV{r.key(b), r.val(in, b)}))
			}
			in.StoreAt(&ai.Ptr{Obj: r.q.Obj, Path: []ai.Step{{F: r.fl}, {F: r.d.fb}}}, r.d.node(b.Plus(-1)))
			in.MapDelete(&ai.Ptr{Obj: r.tab}, r.key(b), r.mapT)
			return nil, true
		}
		call(in, m("Resize"), r.tp, r.q, newcap)
		left := n
		if in.Branch(ai.LT(newcap, n)) {
			left = newcap
		}
		s := in.Load(r.q).(*ai.StructV)
		if !order {
			mc := in.Load(&ai.Ptr{Obj: r.tab}).(*ai.MapC)
			in.Check(in.LinEq(mc.Len, left), "size", "Resize leaves %s entries, want %s", mc.Len, left)
			in.Check(in.LinEq(s.F[r.fc].(Lin), newcap), "capacity", "Resize sets the capacity to %s", ai.ValString(s.F[r.fc]))
			return
		}
		in.Check(in.ValEq(s.F[r.fl].(*ai.StructV).F[r.d.fb], r.d.node(left.Plus(-1))), "order", "after Resize the last entry is %s", ai.ValString(s.F[r.fl].(*ai.StructV).F[r.d.fb]))
		want := ai.Word{}
		if setCb && !in.Must(ai.EQ(n.Sub(left))) {
			j := ai.NewSym("j")
			e := n.Plus(-1).Sub(ai.V(j))
			k := n.Sub(left)
			want = append(want, ai.Piece{Kind: ai.PComp, K: j, N: k, LenL: k, Cases: []ai.Case{{Items: items(ai.TupleV{r.key(e), r.val(in, e)})}}})
		}
		in.Check(in.WordEq(in.St.Trace, want), "announce", "Resize announces %s, want %s", in.St.Trace, want)
	})
}

// agree0 reads the list only.
func (r *cacheRep) agree0(in *In) (nodes, vals ai.Word) {
	s := in.Load(r.q).(*ai.StructV)
	l, ok := s.F[r.fl].(*ai.StructV)
	if !ok {
		in.Undecided("list %s", ai.ValString(s.F[r.fl]))
	}
	return r.d.walk(in, l.F[r.d.ff], false)
}

// methodCallees are the methods with no arguments a method calls on its receiver type.
func methodCallees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			call, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			f := call.Call.StaticCallee()
			if f == nil {
				continue
			}
			if o := f.Origin(); o != nil {
				f = o
			}
			if f.Signature.Recv() == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 0 || f.Pkg != fn.Pkg {
				continue
			}
			dup := false
			for _, g := range r {
				dup = dup || g == f
			}
			if !dup {
				r = append(r, f)
			}
		}
	}
	return r
}
