package spec

import (
	"fmt"
	"go/types"
	"time"

	"verif/sa/ai"
)

// Structures of any representation, decided on every small content: the public
// operations, applied to each abstract structure that they reach from the new one,
// against what they mean. The keys are unknown but for their order, the values
// unknown, and a structure is the graph of the memory it reaches, so that one
// analysis stands for all keys and values. What these find is decided without any
// knowledge of the representation.

// act is an operation with the numbers of its arguments.
type act struct {
	n    string
	a, b int
}

// Small are the checks on small structures by property, after those of Specs.
var Small = map[string][]func(c *Ctx){}

func small(id string, f func(c *Ctx)) { Small[id] = append(Small[id], f) }

// Decide runs the checks of a property.
func Decide(c *Ctx, id string) {
	Specs[id](c)
	for _, f := range Small[id] {
		f(c)
	}
}

// sut is a structure under its operations.
type sut struct {
	c      *Ctx
	in     *In
	v      *ai.IfaceV // the structure, or its address
	more   []Val      // other roots of the state
	pos    map[ai.Sym]float64
	names  map[string]string
	done   string
	rounds int
	hash   []int64 // of the keys by place
}

// machine is a structure with operations and what they mean.
type machine[M any] struct {
	name   string
	pkgs   []string // of the analysed loops and recursions
	rounds int      // beyond which a loop does not end
	steps  int      // operations in a row, any number if 0
	first  M
	setup  func(s *sut)
	ops    func(m M) []act
	// apply analyses an operation, checks its results and gives the next model.
	apply func(s *sut, m M, o act) M
	show  func(o act) string
	// roots are the values of the model and label names what keeps its name.
	roots func(s *sut, m M) []Val
}

func (s *sut) String() string {
	if s.done == "" {
		return "a new one"
	}
	return "one after " + s.done
}

func (x *machine[M]) run(c *Ctx) {
	show := x.show
	if show == nil {
		show = func(o act) string { return fmt.Sprintf("%s(%d, %d)", o.n, o.a, o.b) }
	}
	n := x.rounds
	if n == 0 {
		n = 60
	}
	fixpoint(c, x.name, x.first, x.ops, func(in *In, hist []act, o act) (M, string) {
		s := &sut{c: c, in: in, pos: map[ai.Sym]float64{}, names: map[string]string{}}
		in.Exact = true
		in.MoreSteps = 10 * x.rounds
		unrolled(in, c, n, s.String, x.pkgs...)
		in.Hooks.CallSym = s.callSym
		x.setup(s)
		m := x.first
		for _, h := range append(hist[:len(hist):len(hist)], o) {
			if s.done != "" {
				s.done += ", "
			}
			s.done += show(h)
			m = x.apply(s, m, h)
		}
		rs := append([]Val{s.v.V}, s.more...)
		if x.roots != nil {
			rs = append(rs, x.roots(s, m)...)
		}
		return m, graphOf(in, s.names, rs...)
	}, x.steps)
}

// callSym gives the meaning of the functions passed in.
func (s *sut) callSym(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
	switch {
	case isFn(f, "less"):
		a, ok1 := s.posOf(args[0])
		b, ok2 := s.posOf(args[1])
		if !ok1 || !ok2 {
			in.Undecided("order of %s and %s", ai.ValString(args[0]), ai.ValString(args[1]))
		}
		return ai.B(a < b), true
	case isFn(f, "equals"):
		a, ok1 := s.posOf(args[0])
		b, ok2 := s.posOf(args[1])
		if !ok1 || !ok2 {
			in.Undecided("equality of %s and %s", ai.ValString(args[0]), ai.ValString(args[1]))
		}
		return ai.B(a == b), true
	case isFn(f, "hash"):
		p, ok := s.posOf(args[0])
		if !ok {
			in.Undecided("hash of %s", ai.ValString(args[0]))
		}
		return ai.C(s.hash[int(p)]), true
	case isFn(f, "visit"):
		w, _ := in.St.Ghost.(ai.Word)
		in.St.Ghost = w.Cat(items(args...))
		return nil, true
	}
	return nil, false
}

func (s *sut) posOf(v Val) (float64, bool) {
	l, ok := v.(Lin)
	if !ok {
		return 0, false
	}
	y, ok := l.Single()
	if !ok {
		return 0, false
	}
	p, ok := s.pos[y]
	return p, ok
}

// key makes an unknown value at a place in the order that less gives.
func (s *sut) key(pos float64) Lin {
	y := ai.NewSym("k")
	s.pos[y] = pos
	return ai.V(y)
}

// fresh makes an unknown value.
func (s *sut) fresh(name string) Lin { return ai.V(ai.NewSym(name)) }

// on makes v the structure.
func (s *sut) on(t types.Type, v Val) {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		v = &ai.Ptr{Obj: s.in.Alloc(t, "it", v)}
		t = types.NewPointer(t)
	}
	s.v = &ai.IfaceV{T: t, V: v}
}

func (s *sut) call(name string, args ...Val) Val { return s.in.Method(s.v, name, args...) }

// eq checks a result.
func (s *sut) eq(what string, got, want Val) {
	s.in.Check(s.in.ValEq(got, want), what, "%s of %s is %s, want %s", what, s, ai.ValString(got), ai.ValString(want))
}

func (s *sut) size(what string, got Val, n int) { s.eq(what, got, ai.C(int64(n))) }

// visits are the arguments of the calls of a callback in order.
func (s *sut) visits(f func(fn Val)) ai.Word {
	s.in.St.Ghost = nil
	f(fnSym(s.in, "visit"))
	w, _ := s.in.St.Ghost.(ai.Word)
	return w
}

// word checks a sequence of values.
func (s *sut) word(what string, got, want ai.Word) {
	s.in.Check(s.in.WordEq(got, want), what, "%s of %s is %s, want %s", what, s, got, want)
}

// elems checks a slice.
func (s *sut) elems(what string, got Val, want ai.Word) {
	sl, ok := got.(ai.Slice)
	if !ok {
		s.in.Undecided("%s gives %s", what, ai.ValString(got))
	}
	n, ok := sl.Len.Const()
	if !ok {
		s.in.Undecided("%s gives %s values", what, sl.Len)
	}
	var w ai.Word
	if n > 0 {
		w = s.in.Content(sl)
	}
	s.word(what, w, want)
}

// panics checks whether f panics.
func (s *sut) panics(what string, want bool, f func()) (did bool) {
	p := s.in.TryPanic(f)
	if p != nil && !want {
		s.in.Check(false, "panic", "%s of %s panics: %s", what, s, p.Msg)
	}
	s.in.Check(p != nil || !want, "panic", "%s of %s does not panic", what, s)
	return p != nil
}

// A sorted map with keys of any order, where an operation is on the key at place a
// in the order of those held: 2i+1 is the i-th key held, 2i what lies before it.
type sortedModel struct {
	keys []Lin
	vals []Val
}

func (m sortedModel) at(s *sut, a int) (k Lin, i int, held bool) {
	i = a / 2
	if a%2 == 1 {
		// A key that is equal in the order, not the same one.
		p, _ := s.posOf(m.keys[i])
		return s.key(p), i, true
	}
	var lo, hi float64 = 0, 1
	if i > 0 {
		lo, _ = s.posOf(m.keys[i-1])
	}
	if i < len(m.keys) {
		hi, _ = s.posOf(m.keys[i])
	}
	return s.key((lo + hi) / 2), i, false
}

func (m sortedModel) put(i int, held bool, k Lin, v Val) sortedModel {
	r := sortedModel{append([]Lin(nil), m.keys...), append([]Val(nil), m.vals...)}
	if held {
		r.vals[i] = v
		return r
	}
	r.keys = append(r.keys[:i:i], append([]Lin{k}, r.keys[i:]...)...)
	r.vals = append(r.vals[:i:i], append([]Val{v}, r.vals[i:]...)...)
	return r
}

func (m sortedModel) without(i int) sortedModel {
	return sortedModel{
		append(append([]Lin(nil), m.keys[:i]...), m.keys[i+1:]...),
		append(append([]Val(nil), m.vals[:i]...), m.vals[i+1:]...),
	}
}

// roots names the keys by their places.
func (m sortedModel) roots(s *sut) []Val {
	for k := range s.names {
		delete(s.names, k)
	}
	for y, p := range s.pos {
		i := 0
		for i < len(m.keys) {
			if q, _ := s.posOf(m.keys[i]); q >= p {
				break
			}
			i++
		}
		n := fmt.Sprintf("<%d", i)
		if i < len(m.keys) {
			if q, _ := s.posOf(m.keys[i]); q == p {
				n = fmt.Sprintf("=%d", i)
			}
		}
		s.names[ai.V(y).String()] = n
	}
	r := []Val{ai.C(int64(len(m.keys)))}
	return append(r, m.vals...)
}

func (m sortedModel) ops(max int, ins, at, all []string) []act {
	var r []act
	for a := 0; a <= 2*len(m.keys); a++ {
		for _, n := range ins {
			if a%2 == 1 || len(m.keys) < max {
				r = append(r, act{n: n, a: a})
			}
		}
		for _, n := range at {
			r = append(r, act{n: n, a: a})
		}
	}
	for _, n := range all {
		r = append(r, act{n: n})
	}
	return r
}

func showPlace(o act) string {
	switch o.n {
	case "Put", "Add", "Remove", "Get":
		if o.a%2 == 1 {
			return fmt.Sprintf("%s(the key at %d)", o.n, o.a/2)
		}
		return fmt.Sprintf("%s(a new key at %d)", o.n, o.a/2)
	}
	return o.n
}

func init() {
	small("C03", func(c *Ctx) { smallMap(c, "avl", false) })
	small("C04", func(c *Ctx) { smallMap(c, "avl", true) })
}

// smallMap decides a sorted map.
func smallMap(c *Ctx, pkg string, shape bool) {
	max := 9
	if c.Thorough {
		max = 14
	}
	all := []string{"Each", "Size"}
	if shape {
		all = []string{"Height"}
	}
	x := &machine[sortedModel]{
		name: fmt.Sprintf("every tree of up to %d keys", max),
		pkgs: []string{pkg},
		setup: func(s *sut) {
			n := c.Type(pkg, "Tree")
			p := params(n)
			s.on(types.NewPointer(inst(n, p...)), call(s.in, c.Fn(pkg, "New"), p, fnSym(s.in, "less")))
		},
		ops: func(m sortedModel) []act {
			if shape {
				return m.ops(max, []string{"Put"}, []string{"Remove"}, all)
			}
			return m.ops(max, []string{"Put"}, []string{"Remove", "Get"}, all)
		},
		show:  showPlace,
		roots: func(s *sut, m sortedModel) []Val { return m.roots(s) },
		apply: func(s *sut, m sortedModel, o act) sortedModel {
			switch o.n {
			case "Put":
				k, i, held := m.at(s, o.a)
				v := s.fresh("v")
				s.call("Put", k, v)
				m = m.put(i, held, k, v)
			case "Remove":
				k, i, held := m.at(s, o.a)
				s.call("Remove", k)
				if held {
					m = m.without(i)
				}
			case "Get":
				k, i, held := m.at(s, o.a)
				r := s.call("Get", k)
				s.eq("Get", res(r, 1), ai.B(held))
				if held {
					s.eq("Get", res(r, 0), m.vals[i])
				}
			case "Size":
				s.size("Size", s.call("Size"), len(m.keys))
			case "Each":
				s.sortedVisits("Each", m)
			case "Height":
				h := s.balanced("left", "right")
				s.size("Height", s.call("Height"), h)
			}
			return m
		},
	}
	x.run(c)
}

// sortedVisits checks the calls of a traversal of a sorted map, whose keys may be
// any that are equal in the order.
func (s *sut) sortedVisits(what string, m sortedModel) {
	w := s.visits(func(fn Val) { s.call(what, fn) })
	s.in.Check(len(w) == 2*len(m.keys), what, "%s of %s visits %s, want %d entries", what, s, w, len(m.keys))
	if len(w) != 2*len(m.keys) {
		return
	}
	for i := range m.keys {
		p, ok := s.posOf(w[2*i].V)
		if !ok {
			s.in.Undecided("%s visits %s", what, ai.ValString(w[2*i].V))
		}
		q, _ := s.posOf(m.keys[i])
		s.in.Check(p == q, what, "%s of %s visits the key %s at %d", what, s, ai.ValString(w[2*i].V), i)
		s.eq(what, w[2*i+1].V, m.vals[i])
	}
}

// balanced checks the balance of a binary tree at each node and gives its height.
func (s *sut) balanced(left, right string) int {
	in := s.in
	root := in.Load(in.ObjAt(s.v.V, s.v.T.(*types.Pointer).Elem()))
	st, ok := root.(*ai.StructV)
	if !ok {
		in.Undecided("tree %s", ai.ValString(root))
	}
	t := st.Typ.Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		p, ok := t.Field(i).Type().(*types.Pointer)
		if !ok || !hasField(p.Elem(), left) || !hasField(p.Elem(), right) {
			continue
		}
		l, r := fieldIdx(in, p.Elem(), left), fieldIdx(in, p.Elem(), right)
		var height func(v Val, d int) int
		height = func(v Val, d int) int {
			if d > 40 {
				in.Undecided("the tree has no end")
			}
			if in.ValEq(v, ai.C(0)) {
				return 0
			}
			n, ok := in.Load(in.ObjAt(v, p.Elem())).(*ai.StructV)
			if !ok {
				in.Undecided("node %s", ai.ValString(v))
			}
			a, b := height(n.F[l], d+1), height(n.F[r], d+1)
			in.Check(a-b <= 1 && b-a <= 1, "balance", "the subtrees of a node of %s have heights %d and %d", s, a, b)
			return 1 + maxi(a, b)
		}
		return height(st.F[i], 0)
	}
	in.Undecided("the tree has no nodes with %s and %s", left, right)
	return 0
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// smallTime is what a fixpoint on small structures may take.
func (c *Ctx) smallTime() time.Duration {
	if c.Thorough {
		return 200 * time.Second
	}
	return 60 * time.Second
}
