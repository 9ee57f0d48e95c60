package spec

import (
	"fmt"
	"go/types"
	"strings"

	"verif/sa/ai"
)

func init() { reg("C21", setAlgebra) }

// Sets of a few elements, arbitrary but for being different, in every way to
// spread them over the receiver and the operands. A mapset is ranged over in
// every order; a hashset has its elements inserted in every order.

// algCase is the sets of an operation: which implementation each is of, and which
// of them are the operands. Set 0 is the receiver.
type algCase struct {
	impl string // a letter per set: m mapset, h, f and w hashset; capitals: not in a Set
	ops  []int
}

func (a algCase) String() string {
	var s []string
	names := map[byte]string{'m': "mapset", 'h': "hashset of apart homes", 'f': "hashset filled in order", 'w': "hashset of one home", 'M': "mapset.Set", 'W': "hashset.Set of one home"}
	for _, o := range a.ops {
		if o == 0 {
			s = append(s, "the receiver itself")
		} else {
			s = append(s, fmt.Sprintf("%s #%d", names[a.impl[o]], o))
		}
	}
	if len(s) == 0 {
		s = []string{"nothing"}
	}
	return names[a.impl[0]] + " with " + strings.Join(s, ", ")
}

type algState struct {
	c    *Ctx
	in   *In
	a    algCase
	tp   []types.Type
	el   []Lin // the elements
	pat  []int // of each element: the sets it is in, a bit each
	sets []Val
	loc  string
}

// newAlg makes the sets of a case, of at most max elements.
func newAlg(c *Ctx, in *In, a algCase, max int) *algState {
	s := &algState{c: c, in: in, a: a, tp: params(c.Type("set", "Set"))}
	in.Exact = true
	unrolled(in, c, 40, s.String, "set", "mapset", "hashset", "hashmap")
	n := in.Choose(max + 1)
	// elements of the same kind are alike
	last := 1
	for i := 0; i < n; i++ {
		last += in.Choose(1<<len(a.impl) - last)
		s.pat = append(s.pat, last)
	}
	rank := map[ai.Sym]int{}
	s.el = ordered(in, n+1, "e", rank) // the last one is in none
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		var r []int
		for _, v := range args {
			j := indexOf(in, v, s.el)
			if j < 0 {
				return nil, false
			}
			r = append(r, j)
		}
		switch {
		case isFn(f, "equals") && len(r) == 2:
			return ai.B(r[0] == r[1]), true
		case isFn(f, "one") && len(r) == 1:
			return ai.C(7), true
		case isFn(f, "apart") && len(r) == 1:
			return ai.C(int64(3 + r[0])), true
		}
		return nil, false
	}
	for i := range a.impl {
		var es []Val
		for k, p := range s.pat {
			if p>>i&1 == 1 {
				es = append(es, s.el[k])
			}
		}
		if a.impl[i] != 'f' {
			es = s.shuffle(es)
		}
		s.sets = append(s.sets, s.make(a.impl[i], es))
	}
	return s
}

// shuffle is any order of the values.
func (s *algState) shuffle(es []Val) []Val {
	var r []Val
	for len(es) > 0 {
		k := s.in.Choose(len(es))
		r = append(r, es[k])
		es = append(append([]Val(nil), es[:k]...), es[k+1:]...)
	}
	return r
}

func (s *algState) seq(es []Val) ai.Slice {
	n := ai.C(int64(len(es)))
	if len(es) == 0 {
		return s.in.Zero(types.NewSlice(s.tp[0])).(ai.Slice)
	}
	return s.in.NewArr(s.tp[0], items(es...), n, n)
}

func (s *algState) make(impl byte, es []Val) Val {
	in, c := s.in, s.c
	switch impl {
	case 'M':
		r := call(in, c.Fn("mapset", "Of"), s.tp, s.seq(es))
		return &ai.IfaceV{T: inst(c.Type("mapset", "Set"), s.tp...), V: r}
	case 'W':
		r := call(in, c.Fn("hashset", "Of"), s.tp, ai.C(1), fnSym(in, "equals"), fnSym(in, "one"), s.seq(es))
		return &ai.IfaceV{T: types.NewPointer(inst(c.Type("hashset", "Set"), s.tp...)), V: r}
	}
	if impl == 'm' {
		return call(in, c.Fn("set", "NewMapset"), s.tp, s.seq(es))
	}
	h := "apart"
	if impl == 'w' {
		h = "one"
	}
	return call(in, c.Fn("set", "NewHashset"), s.tp, ai.C(1), fnSym(in, "equals"), fnSym(in, h), s.seq(es))
}

func (s *algState) String() string {
	var b strings.Builder
	for i := range s.a.impl {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "#%d {", i)
		sp := ""
		for k, p := range s.pat {
			if p>>i&1 == 1 {
				fmt.Fprintf(&b, "%se%d", sp, k)
				sp = " "
			}
		}
		b.WriteString("}")
	}
	return s.a.String() + ": " + b.String()
}

// iface is a Set as an interface value.
func (s *algState) iface(v Val) Val {
	if _, ok := v.(*ai.IfaceV); ok {
		return v
	}
	return &ai.IfaceV{T: inst(s.c.Type("set", "Set"), s.tp...), V: v}
}

// operand is a set as an operand: a Set, or the implementation in it.
func (s *algState) operand(i int) Val {
	return s.iface(s.sets[i])
}

func (s *algState) others() ai.Slice {
	if len(s.a.ops) == 0 {
		return s.in.Zero(types.NewSlice(s.tp[0])).(ai.Slice)
	}
	var vs []Val
	for _, o := range s.a.ops {
		vs = append(vs, s.operand(o))
	}
	n := ai.C(int64(len(vs)))
	return s.in.NewArr(inst(s.c.Type("set", "SetOf"), s.tp...), items(vs...), n, n)
}

// want tells which elements the result of an operation has.
func (s *algState) want(op string, k int) bool {
	if k >= len(s.pat) {
		return false
	}
	p := s.pat[k]
	r := p&1 == 1
	for _, o := range s.a.ops {
		x := p>>o&1 == 1
		switch op {
		case "Union":
			r = r || x
		case "Intersection":
			r = r && x
		case "Difference":
			r = r && !x
		case "SymmetricDifference":
			r = r != x
		}
	}
	return r
}

// result checks the elements of a set.
func (s *algState) result(what string, v Val, want func(k int) bool) {
	in := s.in
	r := s.iface(v)
	n := 0
	for k := range s.el {
		w := want(k)
		if w {
			n++
		}
		h := in.Method(r, "Has", s.el[k])
		in.Check(in.ValEq(h, ai.B(w)), "elements", "%s, %s: Has(e%d) of the result is %s, want %v", what, s, k, ai.ValString(h), w)
	}
	sz := in.Method(r, "Size")
	in.Check(in.ValEq(sz, ai.C(int64(n))), "elements", "%s, %s: the result has %s elements, want %d", what, s, ai.ValString(sz), n)
}

// list checks that the values are the elements of the receiver, once each.
func (s *algState) list(what string, vs []Val) {
	met := map[int]bool{}
	for _, v := range vs {
		k := indexOf(s.in, v, s.el)
		s.in.Check(k >= 0 && k < len(s.pat) && s.pat[k]&1 == 1 && !met[k], "elements", "%s, %s: has %s out of turn", what, s, ai.ValString(v))
		met[k] = true
	}
	for k, p := range s.pat {
		s.in.Check(p&1 == 0 || met[k], "elements", "%s, %s: leaves out e%d", what, s, k)
	}
}

func setAlgebra(c *Ctx) {
	m := func(in *In, s *algState, n string, args ...Val) Val {
		return call(in, c.Fn("set", "Set."+n), s.tp, append([]Val{s.sets[0]}, args...)...)
	}
	type sized struct {
		algCase
		max int
	}
	var cases []sized
	add := func(max int, ops []int, impls ...string) {
		for _, i := range impls {
			cases = append(cases, sized{algCase{i, ops}, max})
		}
	}
	add(3, nil, "m", "h", "w")
	add(3, []int{0}, "m", "h", "w")
	add(3, []int{1}, "mm", "hm", "wm", "mw", "ww", "hh", "hw", "wh")
	add(2, []int{1}, "mh", "mM", "mW", "wM", "wW")
	add(2, []int{1, 1}, "mm", "wm", "mw", "hw")
	add(2, []int{0, 1}, "mm", "wm", "mw", "hw")
	add(2, []int{1, 0}, "mm", "wm", "mw", "hw")
	add(2, []int{1, 2}, "mmm", "wmm", "hmw", "mhh", "www")
	add(1, []int{1, 2, 3}, "mmmm", "wmhw")
	// More elements, where neither their order nor their place matters.
	add(c.atMost(8, 12), nil, "f")
	add(c.atMost(7, 9), []int{1}, "ff")
	add(c.atMost(4, 5), []int{1, 2}, "fff")
	add(c.atMost(3, 4), []int{1, 2, 3}, "ffff")
	inv := func(in *In, s *algState, what string, r Val, want func(k int) bool) {
		s.result(what, r, want)
		// the result is a set to work with
		t := call(in, c.Fn("set", "Set.Clone"), s.tp, r)
		s.result(what+", Clone", t, want)
	}
	for _, op := range []string{"Union", "Intersection", "Difference", "SymmetricDifference"} {
		for _, full := range []string{op, "InPlace" + op} {
			if full != op && c.TryFn("set", "Set."+full) == nil && op == "SymmetricDifference" {
				continue
			}
			for _, k := range cases {
				if op == "SymmetricDifference" && len(k.ops) > 1 {
					continue // what it is of several sets is not said
				}
				c.Run(full+", "+k.String(), func(in *In) {
					s := newAlg(c, in, k.algCase, k.max)
					r := m(in, s, full, s.others())
					inv(in, s, full, r, func(e int) bool { return s.want(op, e) })
				})
			}
		}
		for _, impl := range []string{"m", "h", "w"} {
			// the operand is a list: any elements, the first one perhaps twice
			a := algCase{impl + "m", []int{1}}
			c.Run("Const"+op+", "+a.String(), func(in *In) {
				s := newAlg(c, in, a, 2)
				var es []Val
				for k, p := range s.pat {
					if p>>1&1 == 1 {
						es = append(es, s.el[k])
					}
				}
				es = s.shuffle(es)
				if len(es) > 0 && in.Choose(2) == 1 {
					es = append(es, es[0])
				}
				r := m(in, s, "Const"+op, s.seq(es))
				inv(in, s, "Const"+op, r, func(e int) bool { return s.want(op, e) })
			})
		}
	}
	for _, impl := range []string{"m", "h", "w"} {
		a := algCase{impl, nil}
		c.Run("Clone, Keys, Map and the constructors, "+a.String(), func(in *In) {
			s := newAlg(c, in, a, 3)
			own := func(k int) bool { return k < len(s.pat) && s.pat[k]&1 == 1 }
			switch in.Choose(4) {
			case 0:
				s.result("New", s.sets[0], own)
			case 1:
				r := m(in, s, "Clone")
				s.result("Clone", r, own)
				s.result("Clone of a Clone", call(in, c.Fn("set", "Set.Clone"), s.tp, r), own)
			case 2:
				v, ok := m(in, s, "Keys").(ai.Slice)
				if !ok {
					in.Undecided("Keys")
				}
				s.list("Keys", s.values(v))
			case 3:
				mt := types.NewMap(s.tp[0], types.NewStruct(nil, nil))
				mc, ok := in.Load(in.ObjAt(m(in, s, "Map"), mt)).(*ai.MapC)
				if !ok {
					in.Undecided("Map")
				}
				var ks []Val
				for _, e := range in.MapEntries(mc) {
					ks = append(ks, e.Key)
				}
				s.list("Map", ks)
			}
		})
	}
	rel := func(n int, s *algState) map[string]bool {
		sub, super, disj := true, true, true
		for k := range s.pat {
			x, y := s.pat[k]&1 == 1, s.pat[k]>>n&1 == 1
			sub = sub && (!x || y)
			super = super && (x || !y)
			disj = disj && !(x && y)
		}
		return map[string]bool{"IsSubset": sub, "IsSuperset": super, "IsDisjoint": disj, "Equal": sub && super, "IsProperSubset": sub && !super, "IsProperSuperset": super && !sub}
	}
	for _, name := range []string{"IsSubset", "IsSuperset", "IsProperSubset", "IsProperSuperset", "Equal", "IsDisjoint"} {
		for _, k := range cases {
			if len(k.ops) != 1 {
				continue
			}
			c.Run(name+", "+k.String(), func(in *In) {
				s := newAlg(c, in, k.algCase, k.max)
				v := m(in, s, name, s.operand(k.ops[0]))
				exp := rel(k.ops[0], s)[name]
				in.Check(in.ValEq(v, ai.B(exp)), "relation", "%s, %s: is %s, want %v", name, s, ai.ValString(v), exp)
			})
		}
	}
}

// values are the items of a slice of known length.
func (s *algState) values(v ai.Slice) []Val {
	n, ok := v.Len.Const()
	if !ok {
		s.in.Undecided("a slice of %s values", v.Len)
	}
	var r []Val
	if n > 0 {
		w := s.in.Content(v)
		for i := int64(0); i < n; i++ {
			r = append(r, s.in.At(w, ai.C(i)))
		}
	}
	return r
}
