package spec

import (
	"go/types"

	"verif/sa/ai"
)

func init() { reg("C15", listSpec) }

func listSpec(c *Ctx) {
	setup := func(in *In) (*dl, *ai.Ptr, []types.Type) {
		tp := params(c.Type("list", "List"))
		d := newDL(c, in, tp[0], "node")
		return d, object(in, d.listT, "list", d.list()), tp
	}
	z := ai.C(0)
	newNode := func(in *In, d *dl, v Val) *ai.Ptr {
		// a node that is in no list; its links may hold anything
		s := &ai.StructV{Typ: d.nodeT, F: make([]Val, 3)}
		s.F[d.fv] = v
		s.F[d.fp] = ai.UFL("stale.prev")
		s.F[d.fn] = ai.UFL("stale.next")
		return &ai.Ptr{Obj: in.Alloc(d.nodeT, "new", s)}
	}
	c.Run("New is empty", func(in *In) {
		d, _, tp := setup(in)
		r := call(in, c.Fn("list", "New"), tp)
		p := in.ObjAt(r, d.listT)
		d.check(in, in.Load(p), ai.Word{}, ai.Word{}, "New")
	})
	for _, back := range []bool{true, false} {
		for _, node := range []bool{true, false} {
			name := map[bool]string{true: "Back", false: "Front"}[back]
			name = "Push" + name
			if node {
				name += "Node"
			}
			c.Run(name, func(in *In) {
				d, l, tp := setup(in)
				v := sym(in, tp[0], "v")
				var arg Val = v
				if node {
					arg = newNode(in, d, v)
				}
				call(in, c.Fn("list", "List."+name), tp, l, arg)
				vals := d.vals(z, d.n).Cat(items(v))
				var nodes ai.Word
				if node {
					nodes = d.nodes(z, d.n).Cat(items(arg))
				}
				if !back {
					vals = items(v).Cat(d.vals(z, d.n))
					if node {
						nodes = items(arg).Cat(d.nodes(z, d.n))
					}
				}
				d.check(in, in.Load(l), nodes, vals, name)
			})
		}
	}
	for _, after := range []bool{true, false} {
		name := map[bool]string{true: "InsertAfter", false: "InsertBefore"}[after]
		c.Run(name, func(in *In) {
			d, l, tp := setup(in)
			i := nat(in, "i")
			in.Assume(ai.LT(i, d.n))
			v := sym(in, tp[0], "v")
			nn := newNode(in, d, v)
			r := call(in, c.Fn("list", "List."+name), tp, l, d.node(i), nn)
			in.Check(in.ValEq(r, nn), "result", "%s returns %s, want the new node", name, ai.ValString(r))
			at := i
			if after {
				at = i.Plus(1)
			}
			d.check(in, in.Load(l), d.nodes(z, at).Cat(items(nn), d.nodes(at, d.n)), d.vals(z, at).Cat(items(v), d.vals(at, d.n)), name)
		})
	}
	c.Run("Remove", func(in *In) {
		d, l, tp := setup(in)
		i := nat(in, "i")
		in.Assume(ai.LT(i, d.n))
		call(in, c.Fn("list", "List.Remove"), tp, l, d.node(i))
		d.check(in, in.Load(l), d.nodes(z, i).Cat(d.nodes(i.Plus(1), d.n)), d.vals(z, i).Cat(d.vals(i.Plus(1), d.n)), "Remove")
	})
	for _, x := range []struct {
		name       string
		rev, nodes bool
	}{{"Each", false, false}, {"EachReverse", true, false}, {"EachNode", false, true}, {"EachReverseNode", true, true}} {
		c.Run(x.name, func(in *In) {
			d, l, tp := setup(in)
			i := intv(in, "i")
			in.Assume(ai.GE(i.Plus(1)))
			in.Assume(ai.LE(i, d.n))
			if x.rev {
				in.Assume(ai.LT(i, d.n))
			} else {
				in.Assume(ai.GE(i))
			}
			traceHook(in)
			call(in, c.Fn("list", "Node."+x.name), tp, d.node(i), fnSym(in, "visit"))
			w := d.vals
			if x.nodes {
				w = d.nodes
			}
			want := w(i, d.n)
			got := in.St.Trace
			if x.rev {
				want = revWord(in, w(z, i.Plus(1)))
			}
			in.Check(in.WordEq(got, want), "visits", "%s visits %s, want %s", x.name, got, want)
			d.check(in, in.Load(l), d.nodes(z, d.n), d.vals(z, d.n), x.name)
		})
	}
}

// traceHook records the calls of the function called "visit" in the trace.
func traceHook(in *In) {
	old := in.Hooks.CallSym
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		if isFn(f, "visit") {
			in.St.Trace = append(in.St.Trace[:len(in.St.Trace):len(in.St.Trace)], ai.Item(visitArg(args)))
			return nil, true
		}
		if old != nil {
			return old(in, f, args, sig)
		}
		return nil, false
	}
}

func visitArg(args []Val) Val {
	if len(args) == 1 {
		return args[0]
	}
	return ai.TupleV(args)
}

// revWord is the reverse of a word of segments.
func revWord(in *In, w ai.Word) ai.Word {
	var r ai.Word
	for _, p := range w {
		if p.Kind == ai.PSeg {
			k := ai.NewSym("r")
			n := p.Hi.Sub(p.Lo)
			p = ai.Piece{Kind: ai.PComp, K: k, N: n, LenL: n, Cases: []ai.Case{{Items: items(in.Elem(p.A, p.Hi.Plus(-1).Sub(ai.V(k))))}}}
		} else if p.Kind != ai.PItem {
			in.Undecided("reverse of %s", w)
		}
		r = ai.Word{p}.Cat(r)
	}
	return r
}
