package spec

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	small("C18", func(c *Ctx) { smallRope(c, "rope") })
	small("C19", func(c *Ctx) { smallRope(c, "prope") })
	small("C20", func(c *Ctx) { smallRope(c, "prope") })
}

// ropeModel are the contents of several ropes.
type ropeModel struct{ rs [][]Val }

func (m ropeModel) total() int {
	n := 0
	for _, r := range m.rs {
		n += len(r)
	}
	return n
}

// smallRope decides ropes of a few elements: of a mutable one the parts that
// SplitAt makes, of a persistent one a few versions at a time.
func smallRope(c *Ctx, pkg string) {
	type conf struct{ split, join, max int }
	n := c.atMost(4, 5)
	confs := []conf{{1, 1, n}, {2, 1, n}, {2, 2, n}, {1, 3, n - 1}, {3, 2, n}, {100, 50, n - 1}}
	if pkg == "prope" {
		n = c.atMost(3, 4)
		confs = []conf{{1, 1, n}, {2, 1, n}, {2, 2, n}, {1, 3, n}, {100, 50, n - 1}}
	}
	for _, f := range confs {
		smallRopeOf(c, pkg, f.split, f.join, f.max)
	}
}

func smallRopeOf(c *Ctx, pkg string, split, join, max int) {
	n := c.Type(pkg, "Node")
	p := params(n)
	t := ptrTo(n)
	keep := pkg == "prope"
	most := 2 // ropes at a time
	steps := c.atMost(4, 5)
	if keep {
		steps = c.atMost(5, 6)
	}
	variadic := c.Fn(pkg, "Join").Signature.Params().Len() == 1
	x := &machine[ropeModel]{
		name:  fmt.Sprintf("every rope of up to %d elements after %d operations, SplitLength %d, JoinLength %d", max, steps-1, split, join),
		pkgs:  []string{pkg},
		steps: steps,
		setup: func(s *sut) {
			vals := map[string]Val{"SplitLength": ai.C(int64(split)), "JoinLength": ai.C(int64(join))}
			s.in.Hooks.Global = func(in *In, g *ssa.Global) (Val, bool) {
				if g.Pkg == nil || g.Pkg != c.SSA[pkg] {
					return nil, false
				}
				v, ok := vals[g.Name()]
				if !ok {
					v = sym(in, g.Type().(*types.Pointer).Elem(), g.Name())
					vals[g.Name()] = v
				}
				return v, true
			}
		},
		show: func(o act) string {
			if o.n == "New" {
				return fmt.Sprintf("New(%d)", o.a)
			}
			i, a, b := o.a, o.b%100, o.b/100
			return fmt.Sprintf("%s(%d, %d) on the rope %d", o.n, a, b, i)
		},
		ops: func(m ropeModel) []act {
			var r []act
			add := func(n string, i, a, b int) { r = append(r, act{n, i, a + 100*b}) }
			if len(m.rs) == 0 {
				for k := 0; k <= max; k++ {
					r = append(r, act{"New", k, 0})
				}
				return r
			}
			for i, w := range m.rs {
				for _, n := range []string{"Len", "Value", "At", "Slice", "Rebuild", "Rebalance"} {
					add(n, i, 0, 0)
				}
				if !keep {
					add("Each", i, 0, 0)
				}
				if keep && len(m.rs) > 1 {
					add("Forget", i, 0, 0)
				}
				if keep && len(w) > 0 {
					add("Write", i, 0, 0)
				}
				if keep && len(m.rs) >= most {
					continue
				}
				for a := 0; a <= len(w); a++ {
					for k := 0; k <= 2; k++ {
						if keep && len(w)+k <= max || !keep && m.total()+k <= max {
							add("Insert", i, a, k)
						}
					}
					for b := a; b <= len(w); b++ {
						add("Remove", i, a, b)
					}
					if keep || len(m.rs) < most {
						add("SplitAt", i, a, 0)
					}
				}
				for j, u := range m.rs {
					if keep && len(w)+len(u) <= max || i != j {
						add("Join", i, j, 0)
					}
				}
			}
			return r
		},
		roots: func(s *sut, m ropeModel) []Val {
			var r []Val
			for _, w := range m.rs {
				r = append(append(r, ai.C(-7)), w...)
			}
			return r
		},
		apply: func(s *sut, m ropeModel, o act) ropeModel {
			in := s.in
			if o.n == "New" {
				var w []Val
				for k := 0; k < o.a; k++ {
					w = append(w, s.fresh("e"))
				}
				l := ai.C(int64(o.a))
				s.on(t, call(in, c.Fn(pkg, "New"), p, in.NewArr(p[0], words(w), l, l)))
				s.more = []Val{s.v.V}
				return ropeModel{[][]Val{w}}
			}
			i, a, b := o.a, o.b%100, o.b/100
			s.sel(i)
			w := m.rs[i]
			put := func(v Val, w []Val) {
				if !keep {
					s.more[i] = v
					m.rs[i] = w
					return
				}
				s.more = append(s.more, v)
				m.rs = append(m.rs, w)
			}
			m.rs = append([][]Val(nil), m.rs...)
			s.more = append([]Val(nil), s.more...)
			got := func(what string, v Val, want []Val) {
				if l, ok := v.(Lin); ok && l.IsConst(0) {
					in.Check(len(want) == 0, what, "%s of %s is nil, want %s", what, s, words(want))
					return
				}
				s.elems(what, v, words(want))
			}
			switch o.n {
			case "Len":
				s.size("Len", s.call("Len"), len(w))
			case "Value":
				got("Value", s.call("Value"), w)
			case "At":
				for k := range w {
					s.eq(fmt.Sprintf("At(%d)", k), s.call("At", ai.C(int64(k))), w[k])
				}
			case "Slice":
				for k := range w {
					for e := k; e <= len(w); e++ {
						got(fmt.Sprintf("Slice(%d, %d)", k, e), s.call("Slice", ai.C(int64(k)), ai.C(int64(e))), w[k:e])
					}
				}
			case "Each":
				var all ai.Word
				for _, nd := range s.visits(func(fn Val) { s.call("Each", fn) }) {
					v := s.in.Method(&ai.IfaceV{T: t, V: nd.V}, "Value")
					if sl, ok := v.(ai.Slice); ok {
						if l, ok := sl.Len.Const(); ok && l > 0 {
							all = all.Cat(in.Content(sl))
						}
					}
				}
				s.word("Each", all, words(w))
			case "Write":
				// A slice returned is the caller's to write to.
				all := []Val{s.call("Value"), s.call("Slice", ai.C(0), ai.C(int64(len(w)))), s.call("Value")}
				got("Value before other operations", all[0], w)
				got("Slice before other operations", all[1], w)
				for _, v := range all {
					sl, ok := v.(ai.Slice)
					if !ok {
						in.Undecided("Value gives %s", ai.ValString(v))
					}
					k, ok := sl.Cap.Const()
					if !ok {
						in.Undecided("Value gives a capacity %s", sl.Cap)
					}
					var junk []Val
					for ; k > 0; k-- {
						junk = append(junk, s.fresh("junk"))
					}
					sl.Len = sl.Cap
					in.WriteRange(sl, ai.C(0), words(junk))
				}
			case "Rebuild", "Rebalance":
				s.call(o.n)
			case "Forget":
				s.more = append(s.more[:i:i], s.more[i+1:]...)
				m.rs = append(m.rs[:i:i], m.rs[i+1:]...)
			case "Insert":
				var e []Val
				for k := 0; k < b; k++ {
					e = append(e, s.fresh("e"))
				}
				l := ai.C(int64(b))
				r := s.call("Insert", ai.C(int64(a)), in.NewArr(p[0], words(e), l, l))
				if !keep {
					r = s.more[i]
				}
				put(r, append(append(append([]Val(nil), w[:a]...), e...), w[a:]...))
			case "Remove":
				r := s.call("Remove", ai.C(int64(a)), ai.C(int64(b)))
				if !keep {
					r = s.more[i]
				}
				put(r, append(append([]Val(nil), w[:a]...), w[b:]...))
			case "SplitAt":
				r := s.call("SplitAt", ai.C(int64(a)))
				put(res(r, 0), w[:a:a])
				s.more = append(s.more, res(r, 1))
				m.rs = append(m.rs, w[a:])
			case "Join":
				u := m.rs[a]
				var r Val
				if variadic {
					l := ai.C(2)
					r = call(in, c.Fn(pkg, "Join"), p, in.NewArr(t, items(s.more[i], s.more[a]), l, l))
				} else {
					var none Val = in.Zero(types.NewSlice(t))
					r = call(in, c.Fn(pkg, "Join"), p, s.more[i], s.more[a], none)
				}
				both := append(append([]Val(nil), w...), u...)
				if !keep {
					s.more, m.rs = []Val{r}, [][]Val{both}
				} else {
					put(r, both)
				}
			}
			if s.more != nil {
				s.v = &ai.IfaceV{T: s.v.T, V: s.more[0]}
			}
			return m
		},
	}
	x.run(c)
}
