package spec

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() { reg("C33", setsSpec) }

// hmGhost gives the operations of hashmap.Map their meaning (property C10) on
// an abstract map content, for the analysis of what is built on them.
type hmGhost struct {
	c  *Ctx
	fn map[*ssa.Function]string
	n  *types.Named
}

func newHMGhost(c *Ctx) *hmGhost {
	g := &hmGhost{c: c, fn: map[*ssa.Function]string{}, n: c.Type("hashmap", "Map")}
	for _, m := range []string{"New", "Map.Get", "Map.Put", "Map.Remove", "Map.Clear", "Map.Size", "Map.Copy", "Map.Each"} {
		g.fn[c.Fn("hashmap", m)] = m
	}
	return g
}

// call gives the meaning of a call, if it is one of the operations.
func (g *hmGhost) call(in *In, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
	m, ok := g.fn[fn]
	if !ok {
		return nil, false
	}
	sig := fn.Signature
	tp := sig.RecvTypeParams()
	if tp.Len() == 0 {
		tp = sig.TypeParams()
	}
	k, v := ai.SubstType(tp.At(0), tenv), ai.SubstType(tp.At(1), tenv)
	mt := types.NewMap(k, v)
	t := inst(g.n, k, v)
	var p *ai.Ptr
	if m != "New" {
		p = in.ObjAt(args[0], t)
	}
	switch m {
	case "New":
		return &ai.Ptr{Obj: in.Alloc(t, "hashmap", &ai.MapC{Base: ai.C(0), Len: ai.C(0), K: k, V: v})}, true
	case "Map.Get":
		w, has := in.MapGet(p, args[1], mt)
		return ai.TupleV{w, has}, true
	case "Map.Put":
		in.MapSet(p, args[1], args[2], mt)
		return nil, true
	case "Map.Remove":
		in.MapDelete(p, args[1], mt)
		return nil, true
	case "Map.Clear":
		in.MapClear(p, mt)
		return nil, true
	case "Map.Size":
		return in.MapLen(in.Load(p).(*ai.MapC)), true
	case "Map.Copy":
		return &ai.Ptr{Obj: in.Alloc(t, "copy", in.Load(p))}, true
	}
	// Each
	return in.Body(nil, g.c.Fn("zzmodel", "Each"), []Val{p, args[1]}, nil, env(g.c.Fn("zzmodel", "Each"), k, v)), true
}

func setsSpec(c *Ctx) {
	for _, pkg := range []string{"mapset", "hashset"} {
		setSpec(c, pkg)
	}
}

func setSpec(c *Ctx, pkg string) {
	m := func(n string) *ssa.Function { return c.Fn(pkg, "Set."+n) }
	type rep struct {
		tp   []types.Type
		recv Val
		B, n Lin
		old  *ai.MapC
		mt   types.Type
	}
	// store finds the map of a set value
	store := func(in *In, r *rep, v Val) *ai.Ptr {
		named := c.Type(pkg, "Set")
		t := inst(named, r.tp...)
		if _, ok := v.(*ai.StructV); !ok {
			v = in.Load(in.ObjAt(v, t))
		}
		s, ok := v.(*ai.StructV)
		if !ok || len(s.F) != 1 {
			in.Undecided("the representation of Set is not the one specified")
		}
		return in.ObjAt(s.F[0], r.mt)
	}
	setup := func(in *In) *rep {
		named := c.Type(pkg, "Set")
		r := &rep{tp: params(named)}
		t := inst(named, r.tp...)
		s, ok := t.Underlying().(*types.Struct)
		if !ok || s.NumFields() != 1 {
			in.Undecided("the representation of Set is not the one specified")
		}
		ft := s.Field(0).Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		r.mt = ft
		val := types.Type(types.NewStruct(nil, nil))
		switch u := ft.(type) {
		case *types.Map:
			val = u.Elem()
		case *types.Named:
			if a := u.TypeArgs(); a.Len() == 2 {
				val = a.At(1)
			}
		}
		r.B, r.n = ai.V(ai.NewSym("B")), nat(in, "n")
		r.old = &ai.MapC{Base: r.B, Len: r.n, K: r.tp[0], V: val}
		f := object(in, ft, "elements", r.old)
		sv := &ai.StructV{Typ: t, F: []Val{f}}
		if _, ok := m("Put").Signature.Recv().Type().(*types.Pointer); ok {
			r.recv = object(in, t, "set", sv)
		} else {
			r.recv = sv
		}
		if pkg == "hashset" {
			g := newHMGhost(c)
			in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
				return g.call(in, fn, args, tenv)
			}
		}
		return r
	}
	has := func(in *In, c *ai.MapC, x Val) bool {
		_, h := in.MapContentGet(c, x)
		return h.K == ai.BTrue
	}
	check := func(in *In, r *rep, set Val, what string, want func(x Lin) bool, n *Lin) {
		p := store(in, r, set)
		mc, ok := in.Load(p).(*ai.MapC)
		if !ok {
			in.Undecided("content %s", ai.ValString(in.Load(p)))
		}
		mc = in.NormMap(mc)
		if n != nil {
			in.Check(in.LinEq(mc.Len, *n), "size", "%s: %s elements, want %s", what, mc.Len, *n)
		}
		x := sym(in, r.tp[0], "probe").(Lin)
		w, h := want(x), has(in, mc, x)
		in.Check(w == h, "membership", "%s: an arbitrary value is in the set: %v, want %v", what, h, w)
	}
	same := func(in *In, r *rep, what string) {
		check(in, r, r.recv, what, func(x Lin) bool { return has(in, r.old, x) }, &r.n)
	}
	eq := func(in *In, a, b Lin) bool { return in.Branch(ai.EQ(a.Sub(b))) }
	c.Run(pkg+" New", func(in *In) {
		r := setup(in)
		fn := c.Fn(pkg, "New")
		var args []Val
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			args = append(args, sym(in, ai.SubstType(fn.Signature.Params().At(i).Type(), env(fn, r.tp...)), "arg"))
		}
		v := call(in, fn, r.tp, args...)
		z := ai.C(0)
		check(in, r, v, "New", func(Lin) bool { return false }, &z)
		in.Check(store(in, r, v).Obj.Fresh, "fresh", "New returns shared storage")
	})
	c.Run(pkg+" Of", func(in *In) {
		r := setup(in)
		in.Hooks.MapLen = func(in *In, m *ai.MapC) (Lin, bool) {
			if m.Base.IsConst(0) && len(m.Over)+len(m.Bulk) == 0 {
				return ai.C(0), true
			}
			return ai.V(ai.NewSym("size")), true
		}
		fn := c.Fn(pkg, "Of")
		var args []Val
		np := fn.Signature.Params().Len()
		for i := 0; i < np-1; i++ {
			args = append(args, sym(in, ai.SubstType(fn.Signature.Params().At(i).Type(), env(fn, r.tp...)), "arg"))
		}
		s, a, n := seqSlice(in, r.tp[0], "vals")
		v := call(in, fn, r.tp, append(args, s)...)
		check(in, r, v, "Of", func(x Lin) bool {
			return in.Branch(ai.GE(in.LastIdx(a, ai.C(0), n, x)))
		}, nil)
		in.Check(store(in, r, v).Obj.Fresh, "fresh", "Of returns shared storage")
	})
	c.Run(pkg+" Put", func(in *In) {
		r := setup(in)
		k := sym(in, r.tp[0], "k").(Lin)
		call(in, m("Put"), r.tp, r.recv, k)
		n := r.n
		if !has(in, r.old, k) {
			n = n.Plus(1)
		}
		check(in, r, r.recv, "Put", func(x Lin) bool { return eq(in, x, k) || has(in, r.old, x) }, &n)
	})
	c.Run(pkg+" Remove", func(in *In) {
		r := setup(in)
		k := sym(in, r.tp[0], "k").(Lin)
		call(in, m("Remove"), r.tp, r.recv, k)
		n := r.n
		if has(in, r.old, k) {
			n = n.Plus(-1)
		}
		check(in, r, r.recv, "Remove", func(x Lin) bool { return !eq(in, x, k) && has(in, r.old, x) }, &n)
	})
	c.Run(pkg+" Clear", func(in *In) {
		r := setup(in)
		call(in, m("Clear"), r.tp, r.recv)
		z := ai.C(0)
		check(in, r, r.recv, "Clear", func(x Lin) bool { return false }, &z)
	})
	c.Run(pkg+" Has, Size", func(in *In) {
		r := setup(in)
		k := sym(in, r.tp[0], "k").(Lin)
		v := call(in, m("Has"), r.tp, r.recv, k)
		in.Check(in.ValEq(v, ai.B(has(in, r.old, k))), "has", "Has returns %s", ai.ValString(v))
		v = call(in, m("Size"), r.tp, r.recv)
		in.Check(in.ValEq(v, r.n), "size", "Size returns %s, want %s", ai.ValString(v), r.n)
		same(in, r, "a query")
	})
	c.Run(pkg+" Each", func(in *In) {
		r := setup(in)
		traceHook(in)
		call(in, m("Each"), r.tp, r.recv, fnSym(in, "visit"))
		t := in.Norm(in.St.Trace)
		in.Check(in.LinEq(t.Len(), r.n), "visits", "Each makes %s visits, want %s", t.Len(), r.n)
		same(in, r, "Each")
		if in.Must(ai.EQ(r.n)) {
			return
		}
		j := nat(in, "j")
		in.Assume(ai.LT(j, t.Len()))
		v := in.At(t, j)
		if tv, ok := v.(ai.TupleV); ok && len(tv) == 1 {
			v = tv[0]
		}
		l, ok := v.(Lin)
		if !ok {
			in.Undecided("visit %s", ai.ValString(v))
		}
		_, x, ok := ai.MapKey(l)
		if !ok {
			in.Undecided("visit %s", ai.ValString(v))
		}
		in.Check(in.LinEq(x, j), "visits", "visit %s is of element %s", j, x)
		in.Check(has(in, r.old, l), "visits", "Each visits a value that is not in the set")
	})
	if c.TryFn(pkg, "Set.Copy") != nil {
		c.Run(pkg+" Copy", func(in *In) {
			r := setup(in)
			v := call(in, m("Copy"), r.tp, r.recv)
			same(in, r, "Copy (the original)")
			check(in, r, v, "Copy", func(x Lin) bool { return has(in, r.old, x) }, &r.n)
			in.Check(store(in, r, v).Obj != store(in, r, r.recv).Obj, "fresh", "Copy shares the elements with the original")
		})
	}
}
