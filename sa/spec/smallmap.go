package spec

import (
	"fmt"
	"go/types"

	"verif/sa/ai"
)

func init() {
	small("C08", func(c *Ctx) { smallCache(c, false) })
	small("C09", func(c *Ctx) { smallCache(c, true) })
	small("C05", smallBimap)
	small("C31", smallBimap)
	small("C10", func(c *Ctx) { smallHashmap(c, 5, 1) })
	small("C11", func(c *Ctx) { smallHashmap(c, 2, c.atMost(2, 3)) })
	small("C11", func(c *Ctx) { smallHashmap(c, 1, 3) })
	small("C11", func(c *Ctx) { smallSet(c, "hashset", 2) })
	small("C33", func(c *Ctx) { smallSet(c, "hashset", 1) })
	small("C33", func(c *Ctx) { smallSet(c, "mapset", 1) })
	small("C06", smallBtree)
	small("C01", smallArray)
	small("C02", smallArray)
	small("C01", wideArray)
	small("C02", wideArray)
	small("C31", wideArray)
	small("C31", smallArray)
}

// fixed makes n unknown values, different and in order, that keep their names.
func (s *sut) fixed(n int, name string) []Lin {
	var r []Lin
	for i := 0; i < n; i++ {
		k := s.key(float64(i))
		s.names[k.String()] = fmt.Sprintf("%s%d", name, i)
		r = append(r, k)
	}
	return r
}

// ---- cache ----

type cacheModel struct {
	keys []int // the most recently used first
	vals []Val
	cap  int // -1: not made
	cb   bool
}

func (m cacheModel) find(k int) int {
	for i, x := range m.keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (m cacheModel) without(i int) cacheModel {
	m.vals = cut(m.vals, i)
	m.keys = append(append([]int(nil), m.keys[:i]...), m.keys[i+1:]...)
	return m
}

func (m cacheModel) front(k int, v Val) cacheModel {
	if i := m.find(k); i >= 0 {
		m = m.without(i)
	}
	m.vals = cat(m.vals, 0, v)
	m.keys = append([]int{k}, m.keys...)
	return m
}

func smallCache(c *Ctx, order bool) {
	nk, max := 4, 3
	if c.Thorough {
		nk, max = 5, 4
	}
	n := c.Type("cache", "Cache")
	p := params(n)
	var keys []Lin
	x := &machine[cacheModel]{
		name:  fmt.Sprintf("every cache of up to %d entries and %d keys", max, nk),
		pkgs:  []string{"cache", "list"},
		first: cacheModel{cap: -1},
		setup: func(s *sut) {
			keys = s.fixed(nk, "k")
			s.byPos()
		},
		show: func(o act) string { return fmt.Sprintf("%s(%d)", o.n, o.a) },
		roots: func(s *sut, m cacheModel) []Val {
			r := []Val{ai.C(int64(m.cap)), ai.B(m.cb)}
			for i, k := range m.keys {
				r = append(r, keys[k], m.vals[i])
			}
			return r
		},
		ops: func(m cacheModel) []act {
			var r []act
			if m.cap < 0 {
				for k := 0; k <= max; k++ {
					r = append(r, act{"New", k, 0})
				}
				return r
			}
			for k := 0; k < nk; k++ {
				r = append(r, act{"Put", k, 0}, act{"Get", k, 0}, act{"Remove", k, 0})
			}
			for k := 0; k <= max; k++ {
				r = append(r, act{"Resize", k, 0})
			}
			r = append(r, act{"Size", 0, 0}, act{"Capacity", 0, 0}, act{"Each", 0, 0})
			if order {
				r = append(r, act{"SetEvictCallback", 0, 0}, act{"SetEvictCallback", 1, 0})
			}
			return r
		},
		apply: func(s *sut, m cacheModel, o act) cacheModel {
			in := s.in
			var want, said ai.Word // evictions announced
			if o.n == "New" {
				s.on(ptrTo(n), call(in, c.Fn("cache", "New"), p, ai.C(int64(o.a))))
				m.cap = o.a
				return m
			}
			evict := func() {
				i := len(m.keys) - 1
				if m.cb {
					want = want.Cat(items(keys[m.keys[i]], m.vals[i]))
				}
				m = m.without(i)
			}
			in.St.Ghost = nil
			switch o.n {
			case "Put":
				v := s.fresh("v")
				s.call("Put", keys[o.a], v)
				if m.find(o.a) < 0 && m.cap > 0 && len(m.keys) == m.cap {
					evict()
				}
				if m.cap > 0 {
					m = m.front(o.a, v)
				}
			case "Get":
				r := s.call("Get", keys[o.a])
				i := m.find(o.a)
				s.eq("Get", res(r, 1), ai.B(i >= 0))
				if i >= 0 {
					s.eq("Get", res(r, 0), m.vals[i])
					m = m.front(o.a, m.vals[i])
				} else {
					s.eq("Get", res(r, 0), in.Zero(p[1]))
				}
			case "Remove":
				s.call("Remove", keys[o.a])
				if i := m.find(o.a); i >= 0 {
					m = m.without(i)
				}
			case "Resize":
				s.call("Resize", ai.C(int64(o.a)))
				for len(m.keys) > o.a {
					evict()
				}
				m.cap = o.a
			case "Size":
				s.size("Size", s.call("Size"), len(m.keys))
			case "Capacity":
				s.size("Capacity", s.call("Capacity"), m.cap)
			case "SetEvictCallback":
				if m.cb = o.a == 1; m.cb {
					s.call(o.n, fnSym(in, "visit"))
				} else {
					s.call(o.n, ai.FnSym{L: ai.C(0)})
				}
			case "Each":
				w := s.visits(func(fn Val) { s.call("Each", fn) })
				in.St.Ghost = nil
				if order {
					var l ai.Word
					for i, k := range m.keys {
						l = l.Cat(items(keys[k], m.vals[i]))
					}
					s.word("Each", w, l)
					break
				}
				d := make([]Val, nk)
				for i, k := range m.keys {
					d[k] = m.vals[i]
				}
				s.unordered("Each", w, keys, d, true)
			}
			if order {
				said, _ = in.St.Ghost.(ai.Word)
				s.word("the evictions announced by "+o.n, said, want)
			}
			return m
		},
	}
	x.run(c)
}

// unordered checks the visits of entries, each once in any order; with no values
// only of the keys.
func (s *sut) unordered(what string, w ai.Word, keys []Lin, vals []Val, withVals bool) {
	in := s.in
	step := 1
	if withVals {
		step = 2
	}
	n := 0
	met := map[int]bool{}
	for i := 0; i+step <= len(w); i += step {
		k := s.indexOf(w[i].V, keys)
		in.Check(k >= 0 && vals[k] != nil && !met[k], what, "%s of %s visits %s out of turn", what, s, ai.ValString(w[i].V))
		if k < 0 || vals[k] == nil {
			in.Dead()
		}
		met[k] = true
		if withVals {
			s.eq(what, w[i+1].V, vals[k])
		}
		n++
	}
	want := 0
	for _, v := range vals {
		if v != nil {
			want++
		}
	}
	in.Check(n == want, what, "%s of %s visits %d, want %d", what, s, n, want)
}

// indexOf is the number of the key that is equal.
func (s *sut) indexOf(v Val, keys []Lin) int {
	p, ok := s.posOf(v)
	if !ok {
		return indexOf(s.in, v, keys)
	}
	for i, k := range keys {
		if q, _ := s.posOf(k); q == p {
			return i
		}
	}
	return -1
}

// ---- bimap ----

// bmModel is the value of each key in several bimaps, -1 if none.
type bmModel struct{ ms [][]int }

func smallBimap(c *Ctx) {
	nk, copies := 3, 1
	if c.ID == "C31" {
		nk, copies = 2, 2
	}
	n := c.Type("bimap", "Bimap")
	p := params(n)
	var keys, vals []Lin
	x := &machine[bmModel]{
		name: fmt.Sprintf("every bimap of %d keys and values", nk),
		pkgs: []string{"bimap"},
		setup: func(s *sut) {
			keys = s.fixed(nk, "k")
			vals = nil
			for i := 0; i < nk; i++ {
				v := s.key(float64(100 + i))
				s.names[v.String()] = fmt.Sprintf("w%d", i)
				vals = append(vals, v)
			}
			s.byPos()
			t := inst(n, p...)
			s.on(t, s.in.Zero(t))
			s.more = []Val{s.v.V}
		},
		first: bmModel{[][]int{[]int{-1, -1, -1, -1}[:nk]}},
		show:  func(o act) string { return fmt.Sprintf("%s(%d, %d)", o.n, o.a/10, o.a%10*100+o.b) },
		roots: func(s *sut, m bmModel) []Val {
			var r []Val
			for _, l := range m.ms {
				for _, v := range l {
					r = append(r, ai.C(int64(v)))
				}
			}
			return r
		},
		ops: func(m bmModel) []act {
			var r []act
			for i := range m.ms {
				for k := 0; k < nk; k++ {
					for v := 0; v < nk; v++ {
						r = append(r, act{"Add", i*10 + k, v})
					}
					for _, n := range []string{"RemoveForward", "RemoveReverse", "GetForward", "GetReverse", "ContainsForward", "ContainsReverse"} {
						r = append(r, act{n, i*10 + k, 0})
					}
				}
				r = append(r, act{"Len", i * 10, 0}, act{"Each", i * 10, 0}, act{"Clear", i * 10, 0})
				if len(m.ms) < copies {
					r = append(r, act{"Copy", i * 10, 0})
				}
			}
			return r
		},
		apply: func(s *sut, m bmModel, o act) bmModel {
			in := s.in
			s.sel(o.a / 10)
			k := o.a % 10
			l := append([]int(nil), m.ms[o.a/10]...)
			of := func(v int) int {
				for i, x := range l {
					if x == v {
						return i
					}
				}
				return -1
			}
			switch o.n {
			case "Add":
				s.call("Add", keys[k], vals[o.b])
				if i := of(o.b); i >= 0 {
					l[i] = -1
				}
				l[k] = o.b
			case "RemoveForward":
				s.call(o.n, keys[k])
				l[k] = -1
			case "RemoveReverse":
				s.call(o.n, vals[k])
				if i := of(k); i >= 0 {
					l[i] = -1
				}
			case "GetForward":
				r := s.call(o.n, keys[k])
				s.eq(o.n, res(r, 1), ai.B(l[k] >= 0))
				if l[k] >= 0 {
					s.eq(o.n, res(r, 0), vals[l[k]])
				}
			case "GetReverse":
				r := s.call(o.n, vals[k])
				s.eq(o.n, res(r, 1), ai.B(of(k) >= 0))
				if of(k) >= 0 {
					s.eq(o.n, res(r, 0), keys[of(k)])
				}
			case "ContainsForward":
				s.eq(o.n, s.call(o.n, keys[k]), ai.B(l[k] >= 0))
			case "ContainsReverse":
				s.eq(o.n, s.call(o.n, vals[k]), ai.B(of(k) >= 0))
			case "Len", "Each":
				n := 0
				d := make([]Val, nk)
				for i, v := range l {
					if v >= 0 {
						n++
						d[i] = vals[v]
					}
				}
				if o.n == "Len" {
					s.size("Len", s.call("Len"), n)
					break
				}
				s.unordered("Each", s.visits(func(fn Val) { s.call("Each", fn) }), keys, d, true)
			case "Clear":
				s.call("Clear")
				for i := range l {
					l[i] = -1
				}
			case "Copy":
				b := s.call("Copy")
				s.more = append(s.more[:len(s.more):len(s.more)], &ai.Ptr{Obj: in.Alloc(inst(n, p...), "copy", b)})
				return bmModel{append(m.ms[:len(m.ms):len(m.ms)], l)}
			}
			ms := append([][]int(nil), m.ms...)
			ms[o.a/10] = l
			return bmModel{ms}
		},
	}
	x.run(c)
}

// ---- hash maps and sets ----

// hashes are the hashes of a few keys: all in one place, the last slots, spread,
// and different only in high bits.
var hashes = [][]int64{
	{0, 0, 0, 0, 0},
	{7, 7, 6, 7, 0},
	{5, 2, 7, 0, 3},
	{1 << 40, 1<<41 + 3, 3, 1 << 42, 1},
}

// dictModel is the content of several maps: the value of each key, nil if none.
type dictModel struct {
	ds [][]Val
}

func smallHashmap(c *Ctx, nk, copies int) {
	caps := []int{0, 1, 8}
	if copies > 1 {
		caps = []int{1}
	}
	n := c.Type("hashmap", "Map")
	x := &machine[dictModel]{name: fmt.Sprintf("every map of %d keys", nk), pkgs: []string{"hashmap"}}
	if copies > 1 {
		x.name += fmt.Sprintf(" and its copies, %d maps", copies)
		if !c.Thorough || nk == 1 {
			x.steps = 8
			x.name += " after 7 operations"
		}
	}
	smallDict(c, x, n, nk, copies, caps, true)
}

func smallSet(c *Ctx, pkg string, copies int) {
	nk := 3
	caps := []int{1, 8}
	if copies > 1 {
		nk, caps = 2, []int{1}
	}
	if pkg == "mapset" {
		caps = nil
	}
	n := c.Type(pkg, "Set")
	x := &machine[dictModel]{name: fmt.Sprintf("every %s of %d values", pkg, nk), pkgs: []string{pkg, "hashmap"}}
	if copies > 1 {
		x.name += " and its copies"
		if !c.Thorough {
			x.steps = 8
			x.name += " after 7 operations"
		}
	}
	smallDict(c, x, n, nk, copies, caps, false)
}

func smallDict(c *Ctx, x *machine[dictModel], n *types.Named, nk, copies int, caps []int, withVals bool) {
	pkg := x.pkgs[0]
	p := params(n)
	var keys []Lin
	yes := ai.C(1)
	x.rounds = 200
	x.setup = func(s *sut) {
		keys = s.fixed(nk, "k")
		s.byPos()
	}
	x.show = func(o act) string { return fmt.Sprintf("%s(%d) on the container %d", o.n, o.a%10, o.a/10) }
	x.roots = func(s *sut, m dictModel) []Val {
		var r []Val
		for _, d := range m.ds {
			for _, v := range d {
				if v == nil {
					v = ai.C(-7)
				}
				r = append(r, v)
			}
		}
		return r
	}
	x.ops = func(m dictModel) []act {
		var r []act
		if m.ds == nil {
			if caps == nil {
				r = append(r, act{"New", 0, 0})
				for k := 1; k < 1<<nk; k++ {
					r = append(r, act{"Of", 0, k})
				}
			}
			for i := range hashes {
				if copies > 1 && !c.Thorough && (withVals && i != 0 || !withVals && i != 0) {
					continue
				}
				for _, k := range caps {
					r = append(r, act{"New", i*10 + k, 0})
					if !withVals && copies == 1 {
						for j := 1; j < 1<<nk; j++ {
							r = append(r, act{"Of", i*10 + k, j})
						}
					}
				}
			}
			return r
		}
		for i := range m.ds {
			get := "Get"
			if !withVals {
				get = "Has"
			}
			for k := 0; k < nk; k++ {
				for _, n := range []string{"Put", "Remove", get} {
					r = append(r, act{n, i*10 + k, 0})
				}
			}
			r = append(r, act{"Clear", i * 10, 0}, act{"Size", i * 10, 0}, act{"Each", i * 10, 0})
			if len(m.ds) < copies {
				r = append(r, act{"Copy", i * 10, 0})
			}
		}
		return r
	}
	x.apply = func(s *sut, m dictModel, o act) dictModel {
		in := s.in
		t := types.Type(inst(n, p...))
		if o.n == "New" || o.n == "Of" {
			var args []Val
			if caps != nil {
				s.hash = hashes[o.a/10]
				// The hashes are part of the state.
				for i, k := range keys {
					s.names[k.String()] = fmt.Sprintf("k%d#%d", i, s.hash[i])
				}
				args = []Val{ai.C(int64(o.a % 10)), fnSym(in, "equals"), fnSym(in, "hash")}
			}
			d := make([]Val, nk)
			if o.n == "Of" {
				var w ai.Word
				for k := 0; k < nk; k++ {
					if o.b>>k&1 == 1 {
						w = append(w, ai.Item(keys[k]))
						d[k] = yes
					}
				}
				if nk > 1 && o.b&1 == 1 {
					w = append(w, ai.Item(keys[0])) // twice
				}
				l := ai.C(int64(len(w)))
				args = append(args, in.NewArr(p[0], w, l, l))
			}
			fn := c.Fn(pkg, o.n)
			v := call(in, fn, p, args...)
			rt := fn.Signature.Results().At(0).Type()
			if _, ok := rt.(*types.Pointer); ok {
				t = types.NewPointer(t)
			}
			s.on(t, v)
			s.more = []Val{s.v.V}
			return dictModel{[][]Val{d}}
		}
		s.sel(o.a / 10)
		k := o.a % 10
		d := append([]Val(nil), m.ds[o.a/10]...)
		// A key that is equal, not the same one.
		key := keys[k]
		if caps != nil {
			q, _ := s.posOf(key)
			key = s.key(q)
			s.names[key.String()] = s.names[keys[k].String()]
		}
		switch o.n {
		case "Put":
			v := s.fresh("v")
			if withVals {
				s.call("Put", key, v)
			} else {
				v = yes
				s.call("Put", key)
			}
			d[k] = v
		case "Remove":
			s.call("Remove", key)
			d[k] = nil
		case "Get":
			r := s.call("Get", key)
			s.eq("Get", res(r, 1), ai.B(d[k] != nil))
			if d[k] != nil {
				s.eq("Get", res(r, 0), d[k])
			} else {
				s.eq("Get", res(r, 0), in.Zero(p[1]))
			}
		case "Has":
			s.eq("Has", s.call("Has", key), ai.B(d[k] != nil))
		case "Clear":
			s.call("Clear")
			d = make([]Val, nk)
		case "Size":
			n := 0
			for _, v := range d {
				if v != nil {
					n++
				}
			}
			s.size("Size", s.call("Size"), n)
		case "Each":
			s.unordered("Each", s.visits(func(fn Val) { s.call("Each", fn) }), keys, d, withVals)
		case "Copy":
			s.more = append(s.more[:len(s.more):len(s.more)], s.call("Copy"))
			return dictModel{append(m.ds[:len(m.ds):len(m.ds)], d)}
		}
		ds := append([][]Val(nil), m.ds...)
		ds[o.a/10] = d
		return dictModel{ds}
	}
	x.run(c)
}

// ---- btree ----

// smallBtree keeps the keys removed in its model, with no value: they may leave
// something behind.
func smallBtree(c *Ctx) {
	max := c.atMost(6, 8)
	n := c.Type("btree", "Tree")
	p := params(n)
	live := func(m sortedModel) sortedModel {
		var r sortedModel
		for i, v := range m.vals {
			if v != nil {
				r.keys, r.vals = append(r.keys, m.keys[i]), append(r.vals, v)
			}
		}
		return r
	}
	x := &machine[sortedModel]{
		name: fmt.Sprintf("every tree of up to %d keys", max),
		pkgs: []string{"btree"},
		setup: func(s *sut) {
			s.on(ptrTo(n), call(s.in, c.Fn("btree", "New"), p, fnSym(s.in, "less")))
		},
		ops: func(m sortedModel) []act {
			return m.ops(max, []string{"Put"}, []string{"Remove", "Get"}, []string{"Each", "Size"})
		},
		show: showPlace,
		roots: func(s *sut, m sortedModel) []Val {
			r := m.roots(s)
			for i := range r {
				if r[i] == nil {
					r[i] = ai.C(-7)
				}
			}
			return r
		},
		apply: func(s *sut, m sortedModel, o act) sortedModel {
			switch o.n {
			case "Put":
				k, i, held := m.at(s, o.a)
				v := s.fresh("v")
				s.call("Put", k, v)
				m = m.put(i, held, k, v)
			case "Remove":
				k, i, held := m.at(s, o.a)
				s.call("Remove", k)
				if held {
					m = m.put(i, true, k, nil)
				}
			case "Get":
				k, i, held := m.at(s, o.a)
				r := s.call("Get", k)
				held = held && m.vals[i] != nil
				s.eq("Get", res(r, 1), ai.B(held))
				if held {
					s.eq("Get", res(r, 0), m.vals[i])
				}
			case "Size":
				s.size("Size", s.call("Size"), len(live(m).keys))
			case "Each":
				s.sortedVisits("Each", live(m))
			}
			return m
		},
	}
	x.run(c)
}

// ---- array2d ----

// arrModel is the cells of several arrays, row by row.
type arrModel struct {
	w, h  int
	cells [][]Val
}

func smallArray(c *Ctx) {
	sizes := [][2]int{{2, 2}, {3, 1}, {1, 3}, {0, 2}, {2, 0}}
	copies := 1
	if c.ID == "C31" {
		sizes, copies = [][2]int{{2, 1}, {1, 2}}, 2
	}
	if c.Thorough {
		sizes = append(sizes, [2]int{3, 2}, [2]int{2, 3})
	}
	n := c.Type("array2d", "Array2D")
	p := params(n)
	t := inst(n, p...)
	for _, sz := range sizes {
		w, h := sz[0], sz[1]
		// coord are the coordinates tried: those of cells and beside.
		coords := func(n int) []int {
			var r []int
			for i := -1; i <= n; i++ {
				r = append(r, i)
			}
			return r
		}
		code := func(xs ...int) int {
			r := 0
			for _, x := range xs {
				r = r*8 + x + 1
			}
			return r
		}
		decode := func(a, n int) []int {
			r := make([]int, n)
			for i := n - 1; i >= 0; i-- {
				r[i] = a%8 - 1
				a /= 8
			}
			return r
		}
		x := &machine[arrModel]{
			name:  fmt.Sprintf("every array of %d by %d", w, h),
			pkgs:  []string{"array2d"},
			setup: func(s *sut) {},
			show: func(o act) string {
				switch o.n {
				case "Get", "Set", "Row":
					return fmt.Sprintf("%s%v", o.n, decode(o.a, 2))
				case "Fill":
					return fmt.Sprintf("%s%v", o.n, decode(o.a, 4))
				case "RowSpan":
					return fmt.Sprintf("%s%v", o.n, decode(o.a, 3))
				}
				return o.n
			},
			roots: func(s *sut, m arrModel) []Val {
				var r []Val
				for _, l := range m.cells {
					r = append(r, l...)
				}
				return r
			},
			ops: func(m arrModel) []act {
				if m.cells == nil {
					r := []act{{"New", 0, 0}, {"NewFilled", 0, 0}}
					for k := 0; k < 4; k++ {
						r = append(r, act{"OfJagged", k, 0})
					}
					return r
				}
				var r []act
				for i := range m.cells {
					for _, x := range coords(w) {
						for _, y := range coords(h) {
							r = append(r, act{"Get", code(x, y), i}, act{"Set", code(x, y), i})
						}
					}
					for _, y := range coords(h) {
						for _, x := range coords(w) {
							for _, x2 := range coords(w) {
								if c.ID != "C01" {
									r = append(r, act{"RowSpan", code(x, x2, y), i})
								}
								for _, y2 := range coords(h) {
									if c.ID != "C01" {
										r = append(r, act{"Fill", code(x, y, x2, y2), i})
									}
								}
							}
						}
						if c.ID != "C01" {
							r = append(r, act{"Row", code(0, y), i})
						}
					}
					r = append(r, act{"Width", 0, i}, act{"Height", 0, i})
					if len(m.cells) < copies {
						r = append(r, act{"Copy", 0, i})
					}
				}
				return r
			},
			apply: func(s *sut, m arrModel, o act) arrModel {
				in := s.in
				wl, hl := ai.C(int64(w)), ai.C(int64(h))
				inside := func(x, y int) bool { return x >= 0 && x < w && y >= 0 && y < h }
				cells := make([]Val, w*h)
				for i := range cells {
					cells[i] = in.Zero(p[0])
				}
				made := func(v Val) arrModel {
					s.on(t, v)
					s.more = []Val{s.v.V}
					return arrModel{w, h, [][]Val{cells}}
				}
				switch o.n {
				case "New":
					return made(call(in, c.Fn("array2d", "New"), p, wl, hl))
				case "NewFilled":
					v := s.fresh("v")
					for i := range cells {
						cells[i] = v
					}
					return made(call(in, c.Fn("array2d", "NewFilled"), p, wl, hl, v))
				case "OfJagged":
					// Rows one shorter to one longer, one row fewer to one more.
					st := types.NewSlice(p[0])
					var rows ai.Word
					for y := 0; y < h-1+o.a%3; y++ {
						var row ai.Word
						for x := 0; x < w-1+(y+o.a)%3; x++ {
							v := s.fresh("v")
							row = append(row, ai.Item(v))
							if inside(x, y) {
								cells[y*w+x] = v
							}
						}
						l := ai.C(int64(len(row)))
						rows = append(rows, ai.Item(in.NewArr(p[0], row, l, l)))
					}
					l := ai.C(int64(len(rows)))
					fn := c.Fn("array2d", "OfJagged")
					return made(call(in, fn, []types.Type{types.NewSlice(st), st, p[0]}, wl, hl, in.NewArr(st, rows, l, l)))
				}
				s.sel(o.b)
				cells = append([]Val(nil), m.cells[o.b]...)
				num := func(xs []int) []Val {
					var r []Val
					for _, x := range xs {
						r = append(r, ai.C(int64(x)))
					}
					return r
				}
				switch o.n {
				case "Get", "Set":
					a := decode(o.a, 2)
					in0 := inside(a[0], a[1])
					args := num(a)
					v := s.fresh("v")
					if o.n == "Set" {
						args = append(args, v)
					}
					var r Val
					if s.panics(o.n, !in0, func() { r = s.call(o.n, args...) }) || !in0 {
						break
					}
					if i := a[1]*w + a[0]; o.n == "Set" {
						cells[i] = v
					} else {
						s.eq("Get", r, cells[i])
					}
				case "Row", "RowSpan":
					a := decode(o.a, 3)
					args := a
					if o.n == "Row" {
						args = a[2:]
						a = []int{0, w - 1, a[2]}
					}
					in0 := inside(a[0], a[2]) && inside(a[1], a[2])
					if o.n == "Row" {
						in0 = a[2] >= 0 && a[2] < h
					}
					var r Val
					if s.panics(o.n, !in0, func() { r = s.call(o.n, num(args)...) }) || !in0 {
						break
					}
					lo, hi := a[0], a[1]
					if o.n == "RowSpan" && lo > hi {
						lo, hi = hi, lo
					}
					s.elems(o.n, r, words(cells[a[2]*w+lo:a[2]*w+hi+1]))
					// What is written to it is in the array.
					sl := r.(ai.Slice)
					for i := lo; i <= hi; i++ {
						v := s.fresh("v")
						in.WriteRange(sl, ai.C(int64(i-lo)), items(v))
						cells[a[2]*w+i] = v
					}
				case "Fill":
					a := decode(o.a, 4)
					in0 := inside(a[0], a[1]) && inside(a[2], a[3])
					v := s.fresh("v")
					if s.panics("Fill", !in0, func() { s.call("Fill", append(num(a), v)...) }) || !in0 {
						break
					}
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							if (x-a[0])*(x-a[2]) <= 0 && (y-a[1])*(y-a[3]) <= 0 {
								cells[y*w+x] = v
							}
						}
					}
				case "Width":
					s.size("Width", s.call("Width"), w)
				case "Height":
					s.size("Height", s.call("Height"), h)
				case "Copy":
					b := s.call("Copy")
					s.more = append(s.more[:len(s.more):len(s.more)], &ai.Ptr{Obj: in.Alloc(t, "copy", b)})
					m.cells = append(m.cells[:len(m.cells):len(m.cells)], cells)
					return m
				}
				cs := append([][]Val(nil), m.cells...)
				cs[o.b] = cells
				m.cells = cs
				return m
			},
		}
		x.run(c)
	}
}

// wideArray follows a history of calls on arrays larger than those of smallArray.
func wideArray(c *Ctx) {
	sizes := [][2]int{{3, 3}, {9, 2}, {10, 3}, {16, 2}, {17, 3}, {33, 2}, {65, 3}, {3, 33}, {1, 70}, {130, 5}, {1, 2100}}
	if c.Thorough {
		for w := 4; w <= 40; w++ {
			sizes = append(sizes, [2]int{w, 4}, [2]int{4, w}, [2]int{w, w})
		}
	}
	n := c.Type("array2d", "Array2D")
	p := params(n)
	t := inst(n, p...)
	for _, sz := range append(sizes, [2]int{5000, 1}) {
		w, h := sz[0], sz[1]
		x := &machine[arrModel]{
			name:   fmt.Sprintf("an array of %d by %d", w, h),
			pkgs:   []string{"array2d"},
			rounds: 20000,
			setup:  func(s *sut) {},
			show:   func(o act) string { return "a history from " + o.n },
			ops: func(m arrModel) []act {
				if m.cells != nil {
					return nil
				}
				r := []act{{"NewFilled", 0, 0}}
				if w*h < 1000 {
					r = append(r, act{"New", 0, 0}, act{"OfJagged", 0, 0})
				}
				return r
			},
			roots: func(s *sut, m arrModel) []Val { return nil },
			apply: func(s *sut, m arrModel, o act) arrModel { return wideHistory(c, s, o.n, p, t, w, h) },
		}
		x.run(c)
	}
}

func wideHistory(c *Ctx, s *sut, first string, p []types.Type, t types.Type, w, h int) arrModel {
	in := s.in
	k := func(n int) Lin { return ai.C(int64(n)) }
	cells := make([]Val, w*h)
	switch first {
	case "New":
		for i := range cells {
			cells[i] = in.Zero(p[0])
		}
		s.on(t, call(in, c.Fn("array2d", first), p, k(w), k(h)))
	case "NewFilled":
		v := s.fresh("v")
		for i := range cells {
			cells[i] = v
		}
		s.on(t, call(in, c.Fn("array2d", first), p, k(w), k(h), v))
	case "OfJagged":
		st := types.NewSlice(p[0])
		var rows ai.Word
		for y := 0; y < h; y++ {
			var row ai.Word
			for x := 0; x < w; x++ {
				v := s.fresh("v")
				row = append(row, ai.Item(v))
				cells[y*w+x] = v
			}
			rows = append(rows, ai.Item(in.NewArr(p[0], row, k(w), k(w))))
		}
		s.on(t, call(in, c.Fn("array2d", first), []types.Type{types.NewSlice(st), st, p[0]}, k(w), k(h), in.NewArr(st, rows, k(h), k(h))))
	}
	s.more = []Val{s.v.V}
	check := func(i int, cells []Val) {
		s.sel(i)
		s.size("Width", s.call("Width"), w)
		s.size("Height", s.call("Height"), h)
		for y := 0; y < h; y++ {
			if h > 100 && y%50 != 0 && y != h-1 {
				continue
			}
			s.elems("Row", s.call("Row", k(y)), words(cells[y*w:y*w+w]))
			for x := 0; x < w; x++ {
				if w*h < 250 || (x == 0 || x == w-1 || x == w/2) && (y == 0 || y == h-1) {
					s.eq(fmt.Sprintf("Get(%d, %d)", x, y), s.call("Get", k(x), k(y)), cells[y*w+x])
				}
			}
		}
	}
	set := func(cells []Val, x, y int) {
		v := s.fresh("v")
		s.call("Set", k(x), k(y), v)
		cells[y*w+x] = v
	}
	fill := func(cells []Val, x1, y1, x2, y2 int) {
		v := s.fresh("v")
		s.call("Fill", k(x1), k(y1), k(x2), k(y2), v)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if (x-x1)*(x-x2) <= 0 && (y-y1)*(y-y2) <= 0 {
					cells[y*w+x] = v
				}
			}
		}
	}
	check(0, cells)
	for _, q := range [][2]int{{0, 0}, {w - 1, 0}, {0, h - 1}, {w - 1, h - 1}, {w / 2, h / 2}} {
		set(cells, q[0], q[1])
	}
	check(0, cells)
	if c.ID != "C01" {
		fill(cells, w-1-w/4, h/2, w/5, h-1)
		fill(cells, w/2, 0, w/2, h/3)
		check(0, cells)
		fill(cells, 0, h/2, w-1, h/2)
		lo, hi := w/3, w-1
		s.elems("RowSpan", s.call("RowSpan", k(hi), k(lo), k(h-1)), words(cells[(h-1)*w+lo:h*w]))
		r := s.call("RowSpan", k(lo), k(hi), k(h/2))
		v := s.fresh("v")
		in.WriteRange(r.(ai.Slice), k(0), items(v))
		cells[h/2*w+lo] = v
	}
	if c.ID == "C01" && w*h < 250 {
		// Whatever Fill and Row store, no two cells are one.
		for _, r := range [][4]int{{0, h / 2, w - 1, h - 1}, {w / 2, 0, w - 1, h - 1}, {0, 0, w - 1, h / 2}} {
			v := s.fresh("v")
			s.call("Fill", k(r[0]), k(r[1]), k(r[2]), k(r[3]), v)
			s.call("Row", k(h-1))
			for i := range cells {
				cells[i] = s.call("Get", k(i%w), k(i/w))
			}
			for _, q := range [][2]int{{0, 0}, {w - 1, h - 1}, {0, h / 2}, {w - 1, h / 2}} {
				set(cells, q[0], q[1])
			}
			check(0, cells)
		}
	}
	check(0, cells)
	b := s.call("Copy")
	s.more = append(s.more[:len(s.more):len(s.more)], &ai.Ptr{Obj: in.Alloc(t, "copy", b)})
	copied := append([]Val(nil), cells...)
	set(cells, w-1, h/2)
	set(cells, 0, h-1)
	s.sel(1)
	set(copied, w/2, h-1)
	if c.ID != "C01" {
		fill(copied, 0, 0, w-1, h-1)
		set(copied, w-1, 0)
	}
	check(0, cells)
	check(1, copied)
	for _, q := range [][2]int{{-1, 0}, {w, 0}, {0, -1}, {0, h}, {w, h - 1}} {
		s.panics("Get", true, func() { s.call("Get", k(q[0]), k(q[1])) })
	}
	return arrModel{w, h, [][]Val{cells}}
}
