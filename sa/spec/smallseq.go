package spec

import (
	"fmt"
	"go/types"

	"verif/sa/ai"
)

func init() {
	small("C12", smallHeap)
	small("C15", smallList)
	for _, id := range []string{"C23", "C31"} {
		small(id, func(c *Ctx) { smallStack(c, c.atMost(4, 5), 2) })
		small(id, func(c *Ctx) { smallStack(c, c.atMost(2, 3), 3) })
	}
	for _, id := range []string{"C17", "C31"} {
		small(id, func(c *Ctx) { smallQueue(c) })
	}
}

func ptrTo(n *types.Named) types.Type { return types.NewPointer(inst(n, params(n)...)) }

// cat is a sequence with another value at i.
func cat(l []Val, i int, v Val) []Val {
	return append(append(append([]Val(nil), l[:i]...), v), l[i:]...)
}

func cut(l []Val, i int) []Val {
	return append(append([]Val(nil), l[:i]...), l[i+1:]...)
}

// ---- heap ----

type heapModel struct {
	els    []Lin
	places int
	made   bool
}

func smallHeap(c *Ctx) {
	max, from := c.atMost(7, 8), 6
	orders := weakOrders(from)
	n := c.Type("heap", "Heap")
	p := params(n)
	lt := ptrTo(n)
	x := &machine[heapModel]{
		name:  fmt.Sprintf("every heap of up to %d elements", max),
		pkgs:  []string{"heap"},
		setup: func(s *sut) {},
		ops: func(m heapModel) []act {
			if !m.made {
				// The empty one, and the ranks of the elements given.
				r := []act{{"New", 0, 0}}
				for i := range orders {
					r = append(r, act{"From", i, 0}, act{"FromSlice", i, 0})
				}
				return r
			}
			r := []act{{"Pop", 0, 0}, {"Peek", 0, 0}, {"Size", 0, 0}}
			if len(m.els) < max {
				for a := 0; a <= 2*m.places; a++ {
					r = append(r, act{"Push", a, 0})
				}
			}
			return r
		},
		show: func(o act) string {
			switch o.n {
			case "Push":
				return fmt.Sprintf("Push(place %d)", o.a)
			case "From", "FromSlice":
				return o.n + fmt.Sprint(orders[o.a])
			}
			return o.n
		},
		roots: func(s *sut, m heapModel) []Val {
			s.nameAll(s.places(m.els...))
			return []Val{ai.C(int64(len(m.els)))}
		},
		apply: func(s *sut, m heapModel, o act) heapModel {
			in := s.in
			// least checks an element taken or shown.
			least := func(r Val) int {
				s.eq(o.n, res(r, 1), ai.B(len(m.els) > 0))
				if len(m.els) == 0 {
					s.eq(o.n, res(r, 0), in.Zero(p[0]))
					return -1
				}
				i := indexOf(in, res(r, 0), m.els)
				in.Check(i >= 0, o.n, "%s of %s gives %s, which is not in it", o.n, s, ai.ValString(res(r, 0)))
				if i < 0 {
					in.Dead()
				}
				a, _ := s.posOf(m.els[i])
				for _, e := range m.els {
					b, _ := s.posOf(e)
					in.Check(a <= b, o.n, "%s of %s gives no minimum", o.n, s)
				}
				return i
			}
			switch o.n {
			case "New":
				s.on(lt, call(in, c.Fn("heap", "New"), p, fnSym(in, "less")))
				m.made = true
			case "From", "FromSlice":
				var w ai.Word
				for _, i := range orders[o.a] {
					e := s.key(float64(i+1) / float64(from+1))
					m.els = append(m.els[:len(m.els):len(m.els)], e)
					w = append(w, ai.Item(e))
				}
				l := ai.C(int64(len(w)))
				s.on(lt, call(in, c.Fn("heap", o.n), p, fnSym(in, "less"), in.NewArr(p[0], w, l, l)))
				m.made = true
			case "Push":
				e := s.place(s.places(m.els...), o.a)
				s.call("Push", e)
				m.els = append(m.els[:len(m.els):len(m.els)], e)
			case "Pop":
				if i := least(s.call("Pop")); i >= 0 {
					m.els = append(m.els[:i:i], m.els[i+1:]...)
				}
			case "Peek":
				least(s.call("Peek"))
			case "Size":
				s.size("Size", s.call("Size"), len(m.els))
			}
			m.places = len(s.places(m.els...))
			return m
		},
	}
	x.run(c)
}

// weakOrders are the ways to order up to n elements, some of them perhaps alike:
// the rank of each.
func weakOrders(n int) [][]int {
	var r [][]int
	var grow func(w []int, k int)
	grow = func(w []int, k int) {
		if len(w) < k {
			for i := 0; i < k; i++ {
				grow(append(w[:len(w):len(w)], i), k)
			}
			return
		}
		has := make([]bool, k)
		for _, i := range w {
			has[i] = true
		}
		for i := 1; i < k; i++ {
			if has[i] && !has[i-1] {
				return
			}
		}
		r = append(r, w)
	}
	for k := 1; k <= n; k++ {
		grow(nil, k)
	}
	return r
}

// ---- stack and queue ----

// seqsModel is what several containers hold in order.
type seqsModel struct{ ls [][]Val }

func (m seqsModel) set(i int, l []Val) seqsModel {
	r := append([][]Val(nil), m.ls...)
	r[i] = l
	return seqsModel{r}
}

func (m seqsModel) with(l []Val) seqsModel {
	return seqsModel{append(m.ls[:len(m.ls):len(m.ls)], l)}
}

func seqsRoots(s *sut, m seqsModel) []Val {
	var r []Val
	for _, l := range m.ls {
		r = append(r, ai.C(int64(len(l))))
		r = append(r, l...)
	}
	return r
}

// sel makes the i-th container the one operated on.
func (s *sut) sel(i int) { s.v = &ai.IfaceV{T: s.v.T, V: s.more[i]} }

func words(l []Val) ai.Word { return items(l...) }

func showOn(o act) string { return fmt.Sprintf("%s on the container %d", o.n, o.a) }

func smallStack(c *Ctx, max, copies int) {
	n := c.Type("stack", "Stack")
	p := params(n)
	x := &machine[seqsModel]{
		name:  fmt.Sprintf("every stack of up to %d elements and its copies, %d stacks", max, copies),
		pkgs:  []string{"stack"},
		first: seqsModel{[][]Val{nil}},
		setup: func(s *sut) {
			s.on(ptrTo(n), call(s.in, c.Fn("stack", "New"), p))
			s.more = []Val{s.v.V}
		},
		show:  showOn,
		roots: seqsRoots,
		ops: func(m seqsModel) []act {
			var r []act
			for i, l := range m.ls {
				for _, n := range []string{"Pop", "Peek", "Size"} {
					r = append(r, act{n, i, 0})
				}
				if len(l) < max {
					r = append(r, act{"Push", i, 0})
				}
				if len(m.ls) < copies {
					r = append(r, act{"Copy", i, 0})
				}
			}
			return r
		},
		apply: func(s *sut, m seqsModel, o act) seqsModel {
			s.sel(o.a)
			l := m.ls[o.a]
			switch o.n {
			case "Push":
				v := s.fresh("v")
				s.call("Push", v)
				m = m.set(o.a, cat(l, len(l), v))
			case "Pop", "Peek":
				r := s.call(o.n)
				if len(l) == 0 {
					s.eq(o.n, r, s.in.Zero(p[0]))
					break
				}
				s.eq(o.n, r, l[len(l)-1])
				if o.n == "Pop" {
					m = m.set(o.a, l[:len(l)-1])
				}
			case "Size":
				s.size("Size", s.call("Size"), len(l))
			case "Copy":
				s.more = append(s.more[:len(s.more):len(s.more)], s.call("Copy"))
				m = m.with(l)
			}
			return m
		},
	}
	x.run(c)
}

func smallQueue(c *Ctx) {
	max, copies := 4, 2
	if c.Thorough {
		max, copies = 5, 3
	}
	n := c.Type("queue", "Queue")
	p := params(n)
	x := &machine[seqsModel]{
		name:  fmt.Sprintf("every queue of up to %d elements and its copies", max),
		pkgs:  []string{"queue", "list"},
		setup: func(s *sut) {},
		show:  showOn,
		roots: seqsRoots,
		ops: func(m seqsModel) []act {
			if len(m.ls) == 0 {
				r := []act{{"New", 0, 0}}
				for k := 0; k <= max; k++ {
					r = append(r, act{"Of", k, 0})
				}
				return r
			}
			var r []act
			for i, l := range m.ls {
				for _, n := range []string{"Dequeue", "TryDequeue", "DequeueAll", "Peek", "TryPeek", "PeekAll", "Len", "Empty", "Each", "Clear"} {
					r = append(r, act{n, i, 0})
				}
				if len(l) < max {
					r = append(r, act{"Enqueue", i, 0})
				}
				if len(m.ls) < copies {
					r = append(r, act{"Copy", i, 0})
				}
			}
			return r
		},
		apply: func(s *sut, m seqsModel, o act) seqsModel {
			in := s.in
			switch o.n {
			case "New":
				s.on(ptrTo(n), call(in, c.Fn("queue", "New"), p))
				s.more = []Val{s.v.V}
				return seqsModel{[][]Val{nil}}
			case "Of":
				var l []Val
				for k := 0; k < o.a; k++ {
					l = append(l, s.fresh("v"))
				}
				k := ai.C(int64(o.a))
				fn := c.Fn("queue", "Of")
				arr := in.NewArr(p[0], words(l), k, k)
				s.on(ptrTo(n), call(in, fn, []types.Type{types.NewSlice(p[0]), p[0]}, arr))
				s.more = []Val{s.v.V}
				return seqsModel{[][]Val{l}}
			}
			s.sel(o.a)
			l := m.ls[o.a]
			switch o.n {
			case "Enqueue":
				v := s.fresh("v")
				s.call("Enqueue", v)
				m = m.set(o.a, cat(l, len(l), v))
			case "Dequeue", "Peek":
				var r Val
				if s.panics(o.n, len(l) == 0, func() { r = s.call(o.n) }) || len(l) == 0 {
					break
				}
				s.eq(o.n, r, l[0])
				if o.n == "Dequeue" {
					m = m.set(o.a, cut(l, 0))
				}
			case "TryDequeue", "TryPeek":
				r := s.call(o.n)
				s.eq(o.n, res(r, 1), ai.B(len(l) > 0))
				if len(l) == 0 {
					s.eq(o.n, res(r, 0), in.Zero(p[0]))
					break
				}
				s.eq(o.n, res(r, 0), l[0])
				if o.n == "TryDequeue" {
					m = m.set(o.a, cut(l, 0))
				}
			case "DequeueAll", "PeekAll":
				s.elems(o.n, s.call(o.n), words(l))
				if o.n == "DequeueAll" {
					m = m.set(o.a, nil)
				}
			case "Len":
				s.size("Len", s.call("Len"), len(l))
			case "Empty":
				s.eq("Empty", s.call("Empty"), ai.B(len(l) == 0))
			case "Each":
				s.word("Each", s.visits(func(fn Val) { s.call("Each", fn) }), words(l))
			case "Clear":
				s.call("Clear")
				m = m.set(o.a, nil)
			case "Copy":
				s.more = append(s.more[:len(s.more):len(s.more)], s.call("Copy"))
				m = m.with(l)
			}
			return m
		},
	}
	x.run(c)
}

// ---- list ----

type listModel struct{ nodes, vals []Val }

func smallList(c *Ctx) {
	max := 4
	if c.Thorough {
		max = 6
	}
	n := c.Type("list", "List")
	nn := c.Type("list", "Node")
	p := params(n)
	nodeT := inst(nn, p...)
	x := &machine[listModel]{
		name: fmt.Sprintf("every list of up to %d elements", max),
		pkgs: []string{"list"},
		setup: func(s *sut) {
			s.on(ptrTo(n), call(s.in, c.Fn("list", "New"), p))
		},
		show: func(o act) string { return fmt.Sprintf("%s at %d", o.n, o.a) },
		roots: func(s *sut, m listModel) []Val {
			return append(append([]Val{ai.C(int64(len(m.vals)))}, m.nodes...), m.vals...)
		},
		ops: func(m listModel) []act {
			var r []act
			if len(m.vals) < max {
				for _, n := range []string{"PushBack", "PushFront", "PushBackNode", "PushFrontNode"} {
					r = append(r, act{n, 0, 0})
				}
			}
			for i := range m.vals {
				r = append(r, act{"Remove", i, 0})
				if len(m.vals) < max {
					r = append(r, act{"InsertAfter", i, 0}, act{"InsertBefore", i, 0})
				}
				for _, n := range []string{"Each", "EachReverse", "EachNode", "EachReverseNode"} {
					r = append(r, act{n, i, 0})
				}
			}
			return append(r, act{"Front", 0, 0}, act{"Back", 0, 0})
		},
		apply: func(s *sut, m listModel, o act) listModel {
			in := s.in
			k := len(m.vals)
			v := s.fresh("v")
			node := func() Val {
				nt := nodeT.Underlying().(*types.Struct)
				f := make([]Val, nt.NumFields())
				for i := range f {
					f[i] = in.Zero(nt.Field(i).Type())
				}
				f[fieldIdx(in, nodeT, "Value")] = v
				return &ai.Ptr{Obj: in.Alloc(nodeT, "node", &ai.StructV{Typ: nodeT, F: f})}
			}
			at := func(p Val, name string) Val { return get(in, in.ObjAt(p, nodeT), name) }
			end := func(name string) Val { return get(in, in.ObjAt(s.v.V, s.v.T.(*types.Pointer).Elem()), name) }
			is := func(what string, a, b Val) {
				in.Check(in.Must(in.PtrEq(a, b)), what, "%s of %s is %s, want %s", what, s, ai.ValString(a), ai.ValString(b))
			}
			add := func(i int, nd Val) {
				m = listModel{cat(m.nodes, i, nd), cat(m.vals, i, v)}
			}
			switch o.n {
			case "PushBack":
				s.call("PushBack", v)
				add(k, end("Back"))
			case "PushFront":
				s.call("PushFront", v)
				add(0, end("Front"))
			case "PushBackNode":
				nd := node()
				s.call(o.n, nd)
				add(k, nd)
			case "PushFrontNode":
				nd := node()
				s.call(o.n, nd)
				add(0, nd)
			case "InsertAfter", "InsertBefore":
				nd := node()
				is(o.n, s.call(o.n, m.nodes[o.a], nd), nd)
				if o.n == "InsertAfter" {
					add(o.a+1, nd)
				} else {
					add(o.a, nd)
				}
			case "Remove":
				s.call("Remove", m.nodes[o.a])
				m = listModel{cut(m.nodes, o.a), cut(m.vals, o.a)}
			case "Each", "EachReverse", "EachNode", "EachReverseNode":
				l := &ai.IfaceV{T: types.NewPointer(nodeT), V: m.nodes[o.a]}
				w := s.visits(func(fn Val) { in.Method(l, o.n, fn) })
				want := append([]Val(nil), m.vals[o.a:]...)
				if o.n == "EachNode" {
					want = append([]Val(nil), m.nodes[o.a:]...)
				}
				if o.n == "EachReverse" || o.n == "EachReverseNode" {
					want = nil
					for i := o.a; i >= 0; i-- {
						if o.n == "EachReverse" {
							want = append(want, m.vals[i])
						} else {
							want = append(want, m.nodes[i])
						}
					}
				}
				s.word(o.n, w, words(want))
			case "Front", "Back":
				step, back := "Next", "Prev"
				nodes, vals := m.nodes, m.vals
				if o.n == "Back" {
					step, back = back, step
					nodes, vals = nil, nil
					for i := k - 1; i >= 0; i-- {
						nodes, vals = append(nodes, m.nodes[i]), append(vals, m.vals[i])
					}
				}
				var last Val = ai.C(0)
				cur := end(o.n)
				for i := range nodes {
					is(o.n, cur, nodes[i])
					s.eq("Value", at(nodes[i], "Value"), vals[i])
					is(back, at(nodes[i], back), last)
					last, cur = nodes[i], at(nodes[i], step)
				}
				is(o.n, cur, ai.C(0))
			}
			return m
		},
	}
	x.run(c)
}
