package spec

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() { reg("C17", queueSpec) }

type qrep struct {
	d      *dl
	q      *ai.Ptr
	l      *ai.Ptr
	t      types.Type
	tp     []types.Type
	fl, fn int
}

func newQueue(c *Ctx, in *In) *qrep {
	r := &qrep{}
	n := c.Type("queue", "Queue")
	r.tp = params(n)
	r.t = inst(n, r.tp...)
	r.d = newDL(c, in, r.tp[0], "node")
	if r.t.Underlying().(*types.Struct).NumFields() != 2 {
		in.Undecided("the representation of Queue is not the one specified")
	}
	r.fl, r.fn = fieldIdx(in, r.t, "list"), fieldIdx(in, r.t, "length")
	if p, ok := r.t.Underlying().(*types.Struct).Field(r.fl).Type().(*types.Pointer); !ok || !types.Identical(p.Elem(), r.d.listT) {
		in.Undecided("the representation of Queue is not the one specified")
	}
	r.l = object(in, r.d.listT, "list", r.d.list())
	f := make([]Val, 2)
	f[r.fl], f[r.fn] = r.l, r.d.n
	r.q = object(in, r.t, "queue", &ai.StructV{Typ: r.t, F: f})
	return r
}

// check compares a queue with the expected values.
func (r *qrep) check(in *In, q *ai.Ptr, vals ai.Word, what string) {
	s, ok := in.Load(q).(*ai.StructV)
	if !ok {
		in.Undecided("queue %s", q)
	}
	l := in.ObjAt(s.F[r.fl], r.d.listT)
	r.d.check(in, in.Load(l), nil, vals, what)
	in.Check(in.LinEq(s.F[r.fn].(Lin), vals.Len()), "length", "%s: the length is %s, want %s", what, ai.ValString(s.F[r.fn]), vals.Len())
}

func queueSpec(c *Ctx) {
	z := ai.C(0)
	m := func(n string) *ssa.Function { return c.Fn("queue", "Queue."+n) }
	c.Run("New is empty", func(in *In) {
		r := newQueue(c, in)
		q := in.ObjAt(call(in, c.Fn("queue", "New"), r.tp), r.t)
		r.check(in, q, ai.Word{}, "New")
		l := in.ObjAt(in.Load(q).(*ai.StructV).F[r.fl], r.d.listT)
		in.Check(q.Obj.Fresh && l.Obj.Fresh, "fresh", "New returns shared storage")
	})
	c.Run("Enqueue appends", func(in *In) {
		r := newQueue(c, in)
		v := sym(in, r.tp[0], "v")
		call(in, m("Enqueue"), r.tp, r.q, v)
		r.check(in, r.q, r.d.vals(z, r.d.n).Cat(items(v)), "Enqueue")
	})
	for _, try := range []bool{true, false} {
		for _, peek := range []bool{true, false} {
			name := map[bool]string{true: "Peek", false: "Dequeue"}[peek]
			if try {
				name = "Try" + name
			}
			c.Run(name, func(in *In) {
				r := newQueue(c, in)
				empty := in.Branch(ai.EQ(r.d.n))
				var v Val
				p := in.TryPanic(func() { v = call(in, m(name), r.tp, r.q) })
				if empty && !try {
					in.Check(p != nil, "panic", "%s of an empty queue does not panic", name)
					return
				}
				in.Check(p == nil, "panic", "%s panics", name)
				if empty {
					in.Check(in.ValEq(res(v, 0), in.Zero(r.tp[0])) && in.ValEq(res(v, 1), ai.False), "empty", "%s of an empty queue returns %s", name, ai.ValString(v))
					r.check(in, r.q, ai.Word{}, name)
					return
				}
				if try {
					in.Check(in.ValEq(res(v, 1), ai.True), "ok", "%s of a non-empty queue returns %s", name, ai.ValString(v))
				}
				in.Check(in.ValEq(res(v, 0), r.d.val(in, r.d.A, z)), "oldest", "%s returns %s, want the oldest element", name, ai.ValString(v))
				lo := z
				if !peek {
					lo = ai.C(1)
				}
				r.check(in, r.q, r.d.vals(lo, r.d.n), name)
			})
		}
	}
	c.Run("Len and Empty", func(in *In) {
		r := newQueue(c, in)
		n := call(in, m("Len"), r.tp, r.q)
		in.Check(in.ValEq(n, r.d.n), "Len", "Len returns %s, want %s", ai.ValString(n), r.d.n)
		e := call(in, m("Empty"), r.tp, r.q)
		in.Check(in.ValEq(e, ai.EQ(r.d.n)), "Empty", "Empty returns %s", ai.ValString(e))
		r.check(in, r.q, r.d.vals(z, r.d.n), "Len")
	})
	c.Run("Each", func(in *In) {
		r := newQueue(c, in)
		traceHook(in)
		call(in, m("Each"), r.tp, r.q, fnSym(in, "visit"))
		in.Check(in.WordEq(in.St.Trace, r.d.vals(z, r.d.n)), "visits", "Each visits %s", in.St.Trace)
		r.check(in, r.q, r.d.vals(z, r.d.n), "Each")
	})
	c.Run("PeekAll", func(in *In) {
		r := newQueue(c, in)
		v := call(in, m("PeekAll"), r.tp, r.q)
		w := in.Content(v.(ai.Slice))
		in.Check(in.WordEq(w, r.d.vals(z, r.d.n)), "content", "PeekAll returns %s", w)
		in.Check(in.Must(ai.EQ(r.d.n)) || v.(ai.Slice).Arr.Fresh, "fresh", "PeekAll returns shared storage")
		r.check(in, r.q, r.d.vals(z, r.d.n), "PeekAll")
	})
	c.Run("Clear", func(in *In) {
		r := newQueue(c, in)
		call(in, m("Clear"), r.tp, r.q)
		r.check(in, r.q, ai.Word{}, "Clear")
	})
	// DequeueAll, by the contract of the (just verified) single dequeue on a
	// list whose first f nodes are gone: Front moves to the next node.
	c.Run("DequeueAll", func(in *In) {
		r := newQueue(c, in)
		// the last node of a list whose first i nodes are gone
		back := func(i Lin) Lin { return ai.UFL("node.back", r.d.A, i) }
		ai.RegisterAtom(&ai.Atom{Name: "node.back", Args: []Lin{r.d.A}, Elem: types.NewPointer(r.d.nodeT)})
		ai.NilFam["node.back"] = func(in *In, args []Lin) ai.Bool { return ai.EQ(args[1].Sub(r.d.n)) }
		in.StoreAt(&ai.Ptr{Obj: r.l.Obj, Path: []ai.Step{{F: r.d.fb}}}, back(z))
		in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
			try := fn == m("TryDequeue")
			if !try && fn != m("Dequeue") {
				return nil, false
			}
			q := in.ObjAt(args[0], r.t)
			s := in.Load(q).(*ai.StructV)
			l := in.ObjAt(s.F[r.fl], r.d.listT)
			ls := in.Load(l).(*ai.StructV)
			f, ok := ls.F[r.d.ff].(Lin)
			sy, ok2 := f.Single()
			if !ok || !ok2 {
				in.Undecided("queue state %s", ai.ValString(ls))
			}
			fam, as := sy.App()
			if fam != "node" || !in.LinEq(s.F[r.fn].(Lin), r.d.n.Sub(as[1])) || !in.ValEq(ls.F[r.d.fb], back(as[1])) {
				in.Undecided("queue state %s", ai.ValString(ls))
			}
			i := as[1]
			in.Assume(ai.LE(i, r.d.n))
			if in.Branch(ai.EQ(r.d.n.Sub(i))) {
				if !try {
					in.Panic("queue: tried to dequeue from an empty queue")
				}
				return ai.TupleV{in.Zero(r.tp[0]), ai.False}, true
			}
			v := r.d.val(in, r.d.A, i)
			in.StoreAt(&ai.Ptr{Obj: l.Obj, Path: append(l.Path, ai.Step{F: r.d.ff})}, r.d.node(i.Plus(1)))
			in.StoreAt(&ai.Ptr{Obj: l.Obj, Path: append(l.Path, ai.Step{F: r.d.fb})}, back(i.Plus(1)))
			in.StoreAt(&ai.Ptr{Obj: q.Obj, Path: append(q.Path, ai.Step{F: r.fn})}, s.F[r.fn].(Lin).Plus(-1))
			if try {
				return ai.TupleV{v, ai.True}, true
			}
			return v, true
		}
		v := call(in, m("DequeueAll"), r.tp, r.q)
		w := in.Content(v.(ai.Slice))
		in.Check(in.WordEq(w, r.d.vals(z, r.d.n)), "content", "DequeueAll returns %s", w)
		s := in.Load(r.q).(*ai.StructV)
		l := in.ObjAt(s.F[r.fl], r.d.listT)
		in.Check(in.Must(in.PtrEq(in.Load(l).(*ai.StructV).F[r.d.ff], z)), "empty", "DequeueAll leaves elements in the queue")
		in.Check(in.Must(in.PtrEq(in.Load(l).(*ai.StructV).F[r.d.fb], z)), "empty", "DequeueAll leaves the list with a last node")
		in.Check(in.LinEq(s.F[r.fn].(Lin), z), "length", "DequeueAll leaves the length at %s", ai.ValString(s.F[r.fn]))
	})
	// Of and Copy, by the contracts of New, Enqueue and PeekAll on the sequence
	// a queue stands for.
	c.Run("Of", func(in *In) {
		r := newQueue(c, in)
		r.ghost(c, in)
		s, a, n := seqSlice(in, r.tp[0], "slice")
		fn := c.Fn("queue", "Of")
		v := call(in, fn, []types.Type{types.NewSlice(r.tp[0]), r.tp[0]}, s)
		p := in.ObjAt(v, r.t)
		g, ok := in.Load(p).(ai.StrV)
		if !ok {
			in.Undecided("queue %s", ai.ValString(in.Load(p)))
		}
		in.Check(in.WordEq(g.W, seg(a, z, n)), "content", "Of returns a queue of %s", g.W)
	})
	c.Run("Copy", func(in *In) {
		r := newQueue(c, in)
		r.ghost(c, in)
		a := &ai.Atom{Name: "Q", Args: []Lin{z}, Elem: r.tp[0]}
		n := nat(in, "n")
		src := object(in, r.t, "source", ai.StrV{W: seg(a, z, n)})
		v := call(in, m("Copy"), r.tp, src)
		p := in.ObjAt(v, r.t)
		g, ok := in.Load(p).(ai.StrV)
		if !ok {
			in.Undecided("queue %s", ai.ValString(in.Load(p)))
		}
		in.Check(p.Obj != src.Obj, "fresh", "Copy returns the queue itself")
		in.Check(in.WordEq(g.W, seg(a, z, n)), "content", "Copy returns a queue of %s", g.W)
		in.Check(in.WordEq(in.Load(src).(ai.StrV).W, seg(a, z, n)), "content", "Copy changes the queue")
	})
}

// ghost makes the operations act on the sequence a queue stands for.
func (r *qrep) ghost(c *Ctx, in *In) {
	in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
		if fn == c.Fn("queue", "New") {
			return &ai.Ptr{Obj: in.Alloc(r.t, "queue", ai.StrV{})}, true
		}
		if fn.Signature.Recv() == nil || len(args) == 0 || ai.PkgName(fn) != "queue" {
			return nil, false
		}
		p, ok := args[0].(*ai.Ptr)
		if !ok {
			return nil, false
		}
		g, ok := in.St.Mem[p.Obj].(ai.StrV)
		if !ok || len(p.Path) > 0 {
			return nil, false
		}
		z := ai.C(0)
		switch fn.Name() {
		case "Enqueue":
			in.StoreAt(p, ai.StrV{W: g.W.Cat(items(args[1]))})
			return nil, true
		case "PeekAll", "DequeueAll":
			if fn.Name() == "DequeueAll" {
				in.StoreAt(p, ai.StrV{})
			}
			n := g.W.Len()
			return in.NewArr(r.tp[0], g.W, n, n), true
		case "Len":
			return g.W.Len(), true
		case "Empty":
			return ai.EQ(g.W.Len()), true
		case "TryDequeue", "Dequeue", "TryPeek", "Peek":
			try := fn.Name()[:3] == "Try"
			if in.Branch(ai.EQ(g.W.Len())) {
				if !try {
					in.Panic("queue is empty")
				}
				return ai.TupleV{in.Zero(r.tp[0]), ai.False}, true
			}
			v := in.At(g.W, z)
			if fn.Name() == "Dequeue" || fn.Name() == "TryDequeue" {
				in.StoreAt(p, ai.StrV{W: in.Sub(g.W, ai.C(1), g.W.Len())})
			}
			if try {
				return ai.TupleV{v, ai.True}, true
			}
			return v, true
		case "Clear":
			in.StoreAt(p, ai.StrV{})
			return nil, true
		}
		return nil, false
	}
}
