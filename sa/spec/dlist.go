package spec

import (
	"fmt"
	"go/types"

	"verif/sa/ai"
)

// A dl is an arbitrary doubly linked list of package list: n nodes, a pointer
// family indexed by position, the positions -1 and n standing for nil.
type dl struct {
	c      *Ctx
	A      Lin
	n      Lin
	nodeT  types.Type // list.Node[V]
	listT  types.Type
	elem   types.Type
	fv     int
	fp, fn int
	ff, fb int
	fam    string
	val    func(in *In, a, i Lin) Val
}

func (d *dl) node(i Lin) Lin { return ai.UFL(d.fam, d.A, i) }

// newDL sets up list values of element type elem; fam names the family.
func newDL(c *Ctx, in *In, elem types.Type, fam string) *dl {
	d := &dl{c: c, elem: elem, fam: fam}
	ln, nn := c.Type("list", "List"), c.Type("list", "Node")
	d.listT, d.nodeT = inst(ln, elem), inst(nn, elem)
	d.fv, d.fp, d.fn = fieldIdx(in, d.nodeT, "Value"), fieldIdx(in, d.nodeT, "Prev"), fieldIdx(in, d.nodeT, "Next")
	d.ff, d.fb = fieldIdx(in, d.listT, "Front"), fieldIdx(in, d.listT, "Back")
	if d.nodeT.Underlying().(*types.Struct).NumFields() != 3 || d.listT.Underlying().(*types.Struct).NumFields() != 2 {
		in.Undecided("the representation of list is not the one specified")
	}
	d.A = ai.V(ai.NewSym(fam + ".list"))
	d.n = nat(in, fam+".n")
	ai.InjectivePtr[fam] = true
	ai.NilFam[fam] = func(in *In, args []Lin) ai.Bool {
		i := args[1]
		// pointers of the family come from its members: they are in range
		in.Assume(ai.GE(i.Plus(1)))
		in.Assume(ai.LE(i, d.n))
		if in.Must(ai.GE(i)) {
			return ai.EQ(i.Sub(d.n))
		}
		if in.Must(ai.LT(i, d.n)) {
			return ai.EQ(i.Plus(1))
		}
		return ai.B(in.Branch(ai.EQ(i.Sub(d.n))) || in.Branch(ai.EQ(i.Plus(1))))
	}
	d.val = func(in *In, a, i Lin) Val { return in.SymVal(elem, fam+".val", a, i) }
	ai.RegisterAtom(&ai.Atom{Name: fam, Args: []Lin{d.A}, Elem: types.NewPointer(d.nodeT)})
	ai.RegisterAtom(&ai.Atom{Name: fam + ".val", Args: []Lin{d.A}, Elem: elem})
	oldM, oldA := in.Hooks.Materialize, in.Hooks.MayAlias
	in.Hooks.Materialize = func(in *In, p ai.Sym, t types.Type) (Val, bool) {
		if f, args := p.App(); f == fam {
			v := &ai.StructV{Typ: d.nodeT, F: make([]Val, 3)}
			v.F[d.fv] = d.val(in, args[0], args[1])
			v.F[d.fp] = ai.UFL(fam, args[0], args[1].Plus(-1))
			v.F[d.fn] = ai.UFL(fam, args[0], args[1].Plus(1))
			return v, true
		}
		if oldM != nil {
			return oldM(in, p, t)
		}
		return nil, false
	}
	in.Hooks.MayAlias = func(in *In, p, q ai.Sym, t types.Type) bool {
		f, a := p.App()
		g, b := q.App()
		if f == fam || g == fam {
			return f == g && a[0].Same(b[0])
		}
		return oldA != nil && oldA(in, p, q, t)
	}
	return d
}

// list is the list value.
func (d *dl) list() *ai.StructV {
	v := &ai.StructV{Typ: d.listT, F: make([]Val, 2)}
	v.F[d.ff], v.F[d.fb] = d.node(ai.C(0)), d.node(d.n.Plus(-1))
	return v
}

func (d *dl) empty() *ai.StructV {
	return &ai.StructV{Typ: d.listT, F: []Val{ai.C(0), ai.C(0)}}
}

// nodes is the word of the nodes [lo,hi) of the original list.
func (d *dl) nodes(lo, hi Lin) ai.Word {
	return seg(&ai.Atom{Name: d.fam, Args: []Lin{d.A}, Elem: types.NewPointer(d.nodeT)}, lo, hi)
}

// vals is the word of the values [lo,hi) of the original list.
func (d *dl) vals(lo, hi Lin) ai.Word {
	return seg(&ai.Atom{Name: d.fam + ".val", Args: []Lin{d.A}, Elem: d.elem}, lo, hi)
}

// walk reads a list from the pointer from, forwards or backwards, and returns
// the nodes and the values met (in list order).
func (d *dl) walk(in *In, from Val, back bool) (nodes, vals ai.Word) {
	next, dir := d.fn, int64(1)
	if back {
		next, dir = d.fp, -1
	}
	add := func(n, v ai.Piece) {
		if back {
			nodes, vals = ai.Word{n}.Cat(nodes), ai.Word{v}.Cat(vals)
		} else {
			nodes, vals = append(nodes, n), append(vals, v)
		}
	}
	seen := map[*ai.Obj]bool{}
	p := from
	for steps := 0; ; steps++ {
		if steps > 12 {
			in.Fail("list-links", "the links of the list do not end: %s", nodes)
		}
		var obj *ai.Obj
		switch x := p.(type) {
		case *ai.Ptr:
			obj = x.Obj
		case Lin:
			if x.IsConst(0) {
				return
			}
			s, ok := x.Single()
			if !ok {
				in.Undecided("list pointer %s", x)
			}
			obj = in.St.ObjOf[s]
			if obj == nil {
				f, args := s.App()
				if len(f) > 5 && f[:5] == "stale" {
					in.Fail("list-links", "the list goes on to a node outside it: %s", x)
				}
				if f != d.fam || !args[0].Same(d.A) {
					in.Undecided("list pointer %s", x)
				}
				i := args[1]
				if in.Branch(in.PtrEq(x, ai.C(0))) {
					return
				}
				// 0 <= i < n: the run up to the next node already touched
				var best *Lin
				var bobj *ai.Obj
				hit := false
				for _, o := range in.Touched(d.fam) {
					_, a := o.Sym.App()
					j := a[1]
					if in.Branch(ai.EQ(i.Sub(j))) {
						obj, hit = o, true
						break
					}
					ahead := ai.LT(i, j)
					if back {
						ahead = ai.LT(j, i)
					}
					if !in.Branch(ahead) {
						continue
					}
					if best == nil {
						best, bobj = &j, o
						continue
					}
					closer := ai.LT(j, *best)
					if back {
						closer = ai.LT(*best, j)
					}
					if in.Branch(closer) {
						best, bobj = &j, o
					}
				}
				_ = bobj
				if !hit {
					lo, hi := i, d.n
					if best != nil {
						hi = *best
					}
					if back {
						lo, hi = ai.C(0), i.Plus(1)
						if best != nil {
							lo = best.Plus(1)
						}
					}
					add(d.nodes(lo, hi)[0], d.vals(lo, hi)[0])
					if back {
						p = d.node(lo.Plus(-1))
					} else {
						p = d.node(hi)
					}
					_ = dir
					continue
				}
			}
		default:
			in.Undecided("list pointer %s", ai.ValString(p))
		}
		if seen[obj] {
			in.Fail("list-links", "the links of the list form a cycle")
		}
		seen[obj] = true
		v, ok := in.St.Mem[obj].(*ai.StructV)
		if !ok {
			in.Undecided("node %s", obj)
		}
		var pv Val = &ai.Ptr{Obj: obj}
		if !obj.Fresh {
			pv = ai.V(obj.Sym)
		}
		add(ai.Item(pv), ai.Item(v.F[d.fv]))
		p = v.F[next]
	}
}

// check verifies that the list is well linked in both directions and consists
// of the given nodes (if any are given) and values.
func (d *dl) check(in *In, l Val, nodes, vals ai.Word, what string) {
	s, ok := l.(*ai.StructV)
	if !ok {
		in.Undecided("list value %s", ai.ValString(l))
	}
	fnodes, fvals := d.walk(in, s.F[d.ff], false)
	bnodes, _ := d.walk(in, s.F[d.fb], true)
	in.Check(in.WordEq(fnodes, bnodes), "list-links", "%s: forwards the list is %s, backwards %s", what, fnodes, bnodes)
	if nodes != nil {
		in.Check(in.WordEq(fnodes, nodes), "list-nodes", "%s: the nodes are %s, want %s", what, fnodes, nodes)
	}
	if vals != nil {
		in.Check(in.WordEq(fvals, vals), "list-values", "%s: the values are %s, want %s", what, fvals, vals)
	}
}

var _ = fmt.Sprint
