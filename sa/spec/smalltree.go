package spec

import (
	"fmt"
	"go/types"
	"sort"

	"verif/sa/ai"
)

func init() {
	small("C13", func(c *Ctx) {
		smallItree(c, "map")
		smallItree(c, "shape")
	})
	small("C14", func(c *Ctx) { smallItree(c, "overlaps") })
}

type itv struct {
	lo, hi Lin
	val    Val
}

// byPos has the values with places in the order ordered by them.
func (s *sut) byPos() {
	s.in.Hooks.Less = func(in *In, x, y Lin) (ai.Bool, bool) {
		p, ok1 := s.posOf(x)
		q, ok2 := s.posOf(y)
		return ai.B(p < q), ok1 && ok2
	}
	s.in.Hooks.EqVal = func(in *In, x, y Lin) (ai.Bool, bool) {
		p, ok1 := s.posOf(x)
		q, ok2 := s.posOf(y)
		return ai.B(p == q), ok1 && ok2
	}
}

// places are the different places of values in order.
func (s *sut) places(ls ...Lin) []float64 {
	seen := map[float64]bool{}
	var r []float64
	for _, l := range ls {
		p, _ := s.posOf(l)
		if !seen[p] {
			seen[p] = true
			r = append(r, p)
		}
	}
	sort.Float64s(r)
	return r
}

// place makes a value at one of the places, 2i+1, or before it, 2i.
func (s *sut) place(ps []float64, a int) Lin {
	i := a / 2
	if a%2 == 1 {
		return s.key(ps[i])
	}
	var lo, hi float64 = 0, 1
	if i > 0 {
		lo = ps[i-1]
	}
	if i < len(ps) {
		hi = ps[i]
	}
	return s.key((lo + hi) / 2)
}

// nameAll names the values by their places among ps.
func (s *sut) nameAll(ps []float64) {
	for k := range s.names {
		delete(s.names, k)
	}
	for y, p := range s.pos {
		i := sort.SearchFloat64s(ps, p)
		n := fmt.Sprintf("<%d", i)
		if i < len(ps) && ps[i] == p {
			n = fmt.Sprintf("=%d", i)
		}
		s.names[ai.V(y).String()] = n
	}
}

// ends are the end points of intervals.
func ends(m []itv) []Lin {
	var r []Lin
	for _, e := range m {
		r = append(r, e.lo, e.hi)
	}
	return r
}

type itreeModel struct {
	es     []itv  // by start
	places int    // different end points
	start  []bool // which of them are starts
	inside []bool // before which of them an interval goes on
	long   int    // intervals without end
}

// smallItree decides the interval tree: all trees of a few intervals with
// arbitrary ends, and larger ones of intervals that end before the next starts or
// after all.
func smallItree(c *Ctx, what string) {
	run := func(few bool, max, long int) {
		name := fmt.Sprintf("every tree of up to %d intervals", max)
		if !few {
			name += ", without end"
			if what == "overlaps" {
				name = fmt.Sprintf("%s, %d without end, the others apart", name[:len(name)-13], long)
			}
		}
		x := &machine[itreeModel]{name: name, pkgs: []string{"interval"}}
		x.setup = func(s *sut) {
			n := c.Type("interval", "Tree")
			p := params(n)
			s.on(types.NewPointer(inst(n, p...)), call(s.in, c.Fn("interval", "New"), p))
			s.byPos()
		}
		x.ops = func(m itreeModel) []act {
			var r []act
			n := 2*m.places + 1
			put := func(a, b int) {
				r = append(r, act{"Put", a, b})
				if what == "map" {
					r = append(r, act{"Add", a, b})
				}
			}
			if few {
				for a := 0; a < n; a++ {
					for b := a; b < n; b++ {
						put(a, b)
						if a%2 == 0 && a == b {
							put(a, -1) // longer, and within the same gap
						}
						if what == "overlaps" {
							r = append(r, act{"Overlaps", a, b})
						}
					}
					r = append(r, act{"Remove", a, 0})
					if what == "map" {
						r = append(r, act{"Get", a, 0})
					}
				}
			} else {
				for a := 0; a < n; a++ {
					if a%2 == 1 && m.start[a/2] || a%2 == 0 && (long > 1 || a == 2*m.places || !m.inside[a/2]) {
						if m.long < long {
							put(a, -2)
						}
						if what == "overlaps" {
							put(a, -1)
						}
					}
					if what == "overlaps" {
						for b := a; b < n; b++ {
							r = append(r, act{"Overlaps", a, b})
						}
					}
					r = append(r, act{"Remove", a, 0})
					if what == "map" {
						r = append(r, act{"Get", a, 0})
					}
				}
			}
			switch what {
			case "map":
				r = append(r, act{"Each", 0, 0}, act{"Size", 0, 0})
			case "shape":
				r = append(r, act{"Height", 0, 0})
			}
			return r
		}
		x.show = func(o act) string {
			switch o.n {
			case "Each", "Size", "Height":
				return o.n
			}
			return fmt.Sprintf("%s(place %d, %d)", o.n, o.a, o.b)
		}
		// The end points that count: in the larger trees only starts do.
		all := func(s *sut, m itreeModel) []float64 {
			if few {
				return s.places(ends(m.es)...)
			}
			var ls []Lin
			for _, e := range m.es {
				ls = append(ls, e.lo)
				if p, _ := s.posOf(e.hi); p < 2 {
					ls = append(ls, e.hi)
				}
			}
			return s.places(ls...)
		}
		x.roots = func(s *sut, m itreeModel) []Val {
			s.nameAll(all(s, m))
			r := []Val{ai.C(int64(len(m.es)))}
			for _, e := range m.es {
				r = append(r, e.lo, e.hi, e.val)
			}
			return r
		}
		x.apply = func(s *sut, m itreeModel, o act) itreeModel {
			in := s.in
			ps := all(s, m)
			lo := Lin{}
			if o.n != "Each" && o.n != "Size" && o.n != "Height" {
				lo = s.place(ps, o.a)
			}
			at := func() (int, bool) {
				p, _ := s.posOf(lo)
				for i, e := range m.es {
					q, _ := s.posOf(e.lo)
					if q >= p {
						return i, q == p
					}
				}
				return len(m.es), false
			}
			kv := func(what string, r Val, e itv) {
				v, ok := r.(*ai.StructV)
				if !ok || len(v.F) != 3 {
					in.Undecided("%s gives %s", what, ai.ValString(r))
				}
				s.eq(what+".Low", v.F[0], e.lo)
				s.eq(what+".High", v.F[1], e.hi)
				s.eq(what+".Val", v.F[2], e.val)
			}
			switch o.n {
			case "Put", "Add":
				p, _ := s.posOf(lo)
				var hi Lin
				switch {
				case o.b == -1: // in the same gap
					next := 1.0
					for _, q := range ps {
						if q > p {
							next = q
							break
						}
					}
					hi = s.key((p + next) / 2)
				case o.b == -2:
					hi = s.key(2)
				case o.b == o.a:
					hi = s.key(p)
				default:
					hi = s.place(ps, o.b)
				}
				v := s.fresh("v")
				r := s.call(o.n, lo, hi, v)
				i, held := at()
				s.eq(o.n, res(r, 1), ai.B(held))
				if held {
					kv(o.n, res(r, 0), m.es[i])
				}
				if held && o.n == "Add" {
					break
				}
				es := append([]itv(nil), m.es...)
				if held {
					es[i] = itv{lo, hi, v}
				} else {
					es = append(es[:i:i], append([]itv{{lo, hi, v}}, es[i:]...)...)
				}
				m.es = es
			case "Remove":
				r := s.call("Remove", lo)
				i, held := at()
				s.eq("Remove", res(r, 1), ai.B(held))
				if held {
					kv("Remove", res(r, 0), m.es[i])
					m.es = append(m.es[:i:i], m.es[i+1:]...)
				}
			case "Get":
				r := s.call("Get", lo)
				i, held := at()
				s.eq("Get", res(r, 1), ai.B(held))
				if held {
					kv("Get", res(r, 0), m.es[i])
				}
			case "Size":
				s.size("Size", s.call("Size"), len(m.es))
			case "Height":
				h := s.balanced("left", "right")
				s.size("Height", s.call("Height"), h)
			case "Each":
				w := s.visits(func(fn Val) { s.call("Each", fn) })
				var want ai.Word
				for _, e := range m.es {
					want = want.Cat(items(e.lo, e.hi, e.val))
				}
				s.word("Each", w, want)
			case "Overlaps":
				hi := lo
				if o.b != o.a {
					hi = s.place(ps, o.b)
				} else if o.a%2 == 0 {
					p, _ := s.posOf(lo)
					hi = s.key(p)
				}
				p, _ := s.posOf(lo)
				q, _ := s.posOf(hi)
				var want []itv
				for _, e := range m.es {
					a, _ := s.posOf(e.lo)
					b, _ := s.posOf(e.hi)
					if a < q && b > p {
						want = append(want, e)
					}
				}
				r, ok := s.call("Overlaps", lo, hi).(ai.Slice)
				if !ok {
					in.Undecided("Overlaps gives no slice")
				}
				n, ok := r.Len.Const()
				if !ok {
					in.Undecided("Overlaps gives %s entries", r.Len)
				}
				in.Check(int(n) == len(want), "Overlaps", "Overlaps of %s gives %d intervals, want %d", s, n, len(want))
				if n > 0 && int(n) == len(want) {
					w := in.Content(r)
					for i := range want {
						kv("Overlaps", in.At(w, ai.C(int64(i))), want[i])
					}
				}
			}
			ps = all(s, m)
			m.places, m.start, m.inside = len(ps), make([]bool, len(ps)), make([]bool, len(ps))
			m.long = 0
			for _, e := range m.es {
				p, _ := s.posOf(e.lo)
				q, _ := s.posOf(e.hi)
				i := sort.SearchFloat64s(ps, p)
				m.start[i] = true
				if q >= 2 {
					m.long++
					continue
				}
				for i++; i < len(ps) && ps[i] <= q; i++ {
					m.inside[i] = true
				}
			}
			return m
		}
		// Beyond the bound an interval only replaces one.
		ops := x.ops
		x.ops = func(m itreeModel) []act {
			var r []act
			for _, o := range ops(m) {
				if (o.n == "Put" || o.n == "Add") && len(m.es) >= max && (o.a%2 == 0 || !m.start[o.a/2]) {
					continue
				}
				r = append(r, o)
			}
			return r
		}
		x.run(c)
	}
	switch {
	case what == "overlaps" && c.Thorough:
		run(true, 3, 0)
		run(false, 4, 4)
		run(false, 6, 1)
	case what == "overlaps":
		run(true, 2, 0)
		run(false, 3, 3)
		run(false, 4, 1)
	case c.Thorough:
		run(true, 3, 0)
		run(false, 12, 12)
	default:
		run(true, 2, 0)
		run(false, 8, 8)
	}
}
