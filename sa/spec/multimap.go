package spec

import (
	"fmt"
	"go/types"
	"strings"

	"verif/sa/ai"
)

func init() { reg("C16", multimapSpec) }

// Multimaps of every kind with a few keys and values, arbitrary but for their
// order: every content that the operations reach, in every representation of it.

type mmKind struct {
	fn         string // its constructor
	sortedKeys bool
	set        bool // entries are not repeated, and values sorted
}

type mmStep struct {
	op   string
	k, v int
}

// mmEntry is an entry, by the numbers of its key and value.
type mmEntry struct{ k, v int }

type mmState struct {
	c     *Ctx
	in    *In
	kind  mmKind
	m     Val
	keys  []Lin
	vals  []Lin
	model []mmEntry
	done  string
	visit ai.Word
}

// ordered makes n unknown values in ascending order.
func ordered(in *In, n int, name string, rank map[ai.Sym]int) []Lin {
	var r []Lin
	for i := 0; i < n; i++ {
		s := ai.NewSym(fmt.Sprintf("%s%d", name, i))
		rank[s] = i
		if i > 0 {
			in.Assume(ai.LT(r[i-1], ai.V(s)))
		}
		r = append(r, ai.V(s))
	}
	return r
}

// byRank decides the order of values by their ranks.
func byRank(rank map[ai.Sym]int, args []Val) (Val, bool) {
	if len(args) != 2 {
		return nil, false
	}
	var r [2]int
	for i := range r {
		l, ok := args[i].(Lin)
		if !ok {
			return nil, false
		}
		s, ok := l.Single()
		if !ok {
			return nil, false
		}
		if r[i], ok = rank[s]; !ok {
			return nil, false
		}
	}
	return ai.B(r[0] < r[1]), true
}

func newMM(c *Ctx, in *In, kind mmKind, nk, nv int) *mmState {
	m := &mmState{c: c, in: in, kind: kind}
	in.Exact = true
	unrolled(in, c, 40, m.String, "multimap", "avl")
	kr, vr := map[ai.Sym]int{}, map[ai.Sym]int{}
	m.keys, m.vals = ordered(in, nk, "k", kr), ordered(in, nv, "v", vr)
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		switch {
		case isFn(f, "keyLess"):
			return byRank(kr, args)
		case isFn(f, "valueLess"):
			return byRank(vr, args)
		case isFn(f, "visit"):
			w, _ := in.St.Ghost.(ai.Word)
			in.St.Ghost = w.Cat(items(args...))
			return nil, true
		}
		return nil, false
	}
	var args []Val
	if kind.sortedKeys {
		args = append(args, fnSym(in, "keyLess"))
	}
	if kind.set {
		args = append(args, fnSym(in, "valueLess"))
	}
	fn := c.Fn("multimap", kind.fn)
	m.m = call(in, fn, params(c.Type("multimap", "MultiMap")), args...)
	return m
}

func (m *mmState) String() string {
	if m.done == "" {
		return "a new multimap"
	}
	return "a multimap after " + m.done
}

func (m *mmState) apply(s mmStep) {
	in := m.in
	var next []mmEntry
	what := s.op
	switch s.op {
	case "Put":
		in.Method(m.m, "Put", m.keys[s.k], m.vals[s.v])
		next = m.model
		if !m.kind.set || m.count(s.k, s.v) == 0 {
			next = append(next[:len(next):len(next)], mmEntry{s.k, s.v})
		}
		what = fmt.Sprintf("Put(k%d, v%d)", s.k, s.v)
	case "Remove":
		in.Method(m.m, "Remove", m.keys[s.k], m.vals[s.v])
		gone := false
		for _, e := range m.model {
			if !gone && e == (mmEntry{s.k, s.v}) {
				gone = true
				continue
			}
			next = append(next, e)
		}
		what = fmt.Sprintf("Remove(k%d, v%d)", s.k, s.v)
	case "RemoveAll":
		in.Method(m.m, "RemoveAll", m.keys[s.k])
		for _, e := range m.model {
			if e.k != s.k {
				next = append(next, e)
			}
		}
		what = fmt.Sprintf("RemoveAll(k%d)", s.k)
	case "Clear":
		in.Method(m.m, "Clear")
	}
	m.model = next
	if m.done != "" {
		m.done += ", "
	}
	m.done += what
}

func (m *mmState) count(k, v int) int {
	n := 0
	for _, e := range m.model {
		if e.k == k && (v < 0 || e.v == v) {
			n++
		}
	}
	return n
}

// indexOf is the number of one of these values.
func indexOf(in *In, v Val, of []Lin) int {
	l, ok := v.(Lin)
	if ok {
		for i, x := range of {
			if x.Same(l) {
				return i
			}
		}
	}
	return -1
}

// list checks the values of a key.
func (m *mmState) list(rule string, k int, v Val) {
	in := m.in
	s, ok := v.(ai.Slice)
	if !ok {
		in.Undecided("%s gives %s", rule, ai.ValString(v))
	}
	n, ok := s.Len.Const()
	if !ok {
		in.Undecided("%s gives %s values", rule, s.Len)
	}
	got := make([]int, len(m.vals))
	last := -1
	if n > 0 {
		w := in.Content(s)
		for i := int64(0); i < n; i++ {
			x := in.At(w, ai.C(i))
			j := indexOf(in, x, m.vals)
			in.Check(j >= 0, rule, "%s of k%d in %s has %s", rule, k, m, ai.ValString(x))
			in.Check(!m.kind.set || j >= last, rule, "%s of k%d in %s is not in the order of the values", rule, k, m)
			last = j
			got[j]++
		}
	}
	for j := range got {
		in.Check(got[j] == m.count(k, j), rule, "%s of k%d in %s has v%d %d times, want %d", rule, k, m, j, got[j], m.count(k, j))
	}
}

func (m *mmState) check() {
	in := m.in
	dim := 0
	for k := range m.keys {
		if m.count(k, -1) > 0 {
			dim++
		}
	}
	eq := func(what string, got Val, want int) {
		in.Check(in.ValEq(got, ai.C(int64(want))), what, "%s of %s is %s, want %d", what, m, ai.ValString(got), want)
	}
	visits := func(op string) ai.Word {
		in.St.Ghost = nil
		in.Method(m.m, op, fnSym(in, "visit"))
		w, _ := in.St.Ghost.(ai.Word)
		return w
	}
	eq("Size", in.Method(m.m, "Size"), len(m.model))
	eq("Dimension", in.Method(m.m, "Dimension"), dim)
	switch in.Choose(3) {
	case 0:
		for k := range m.keys {
			eq(fmt.Sprintf("Count(k%d)", k), in.Method(m.m, "Count", m.keys[k]), m.count(k, -1))
			h := in.Method(m.m, "Has", m.keys[k])
			in.Check(in.ValEq(h, ai.B(m.count(k, -1) > 0)), "Has", "Has(k%d) of %s is %s", k, m, ai.ValString(h))
			m.list("Get", k, in.Method(m.m, "Get", m.keys[k]))
		}
		eq("Size", in.Method(m.m, "Size"), len(m.model))
	case 1:
		w := visits("Each")
		left := append([]mmEntry(nil), m.model...)
		last := mmEntry{-1, -1}
		for i := 0; i+1 < len(w); i += 2 {
			e := mmEntry{indexOf(in, w[i].V, m.keys), indexOf(in, w[i+1].V, m.vals)}
			at := -1
			for j, x := range left {
				if x == e {
					at = j
				}
			}
			in.Check(at >= 0, "Each", "Each of %s visits %s, %s out of turn", m, ai.ValString(w[i].V), ai.ValString(w[i+1].V))
			left = append(left[:at:at], left[at+1:]...)
			in.Check(!m.kind.sortedKeys || e.k >= last.k, "Each", "Each of %s visits %s after %s", m, ai.ValString(w[i].V), m.key(last.k))
			in.Check(!m.kind.set || e.k != last.k || e.v >= last.v, "Each", "Each of %s visits the values of k%d out of order", m, e.k)
			last = e
		}
		in.Check(len(left) == 0, "Each", "Each of %s leaves out %v", m, left)
	case 2:
		w := visits("EachAssociation")
		met := map[int]bool{}
		last := -1
		for i := 0; i+1 < len(w); i += 2 {
			k := indexOf(in, w[i].V, m.keys)
			in.Check(k >= 0 && !met[k] && m.count(k, -1) > 0, "EachAssociation", "EachAssociation of %s visits %s out of turn", m, ai.ValString(w[i].V))
			met[k] = true
			in.Check(!m.kind.sortedKeys || k > last, "EachAssociation", "EachAssociation of %s visits k%d after %s", m, k, m.key(last))
			last = k
			m.list("EachAssociation", k, w[i+1].V)
		}
		in.Check(len(met) == dim, "EachAssociation", "EachAssociation of %s visits %d keys, want %d", m, len(met), dim)
	}
}

func (m *mmState) key(i int) string {
	if i < 0 {
		return "none"
	}
	return fmt.Sprintf("k%d", i)
}

func multimapSpec(c *Ctx) {
	kinds := []mmKind{
		{"NewMapSlice", false, false}, {"NewMapSet", false, true},
		{"NewAvlSlice", true, false}, {"NewAvlSet", true, true},
	}
	type bound struct{ nk, nv, max int }
	for _, kind := range kinds {
		bounds := []bound{{2, 2, 3}, {3, 1, 3}}
		if kind.set {
			bounds = []bound{{2, 3, 4}, {3, 1, 3}}
		}
		if c.Thorough {
			bounds = append(bounds, bound{3, 2, 4})
		}
		for _, b := range bounds {
			steps := func(m []mmEntry) []mmStep {
				r := []mmStep{{op: "Clear"}}
				for k := 0; k < b.nk; k++ {
					r = append(r, mmStep{op: "RemoveAll", k: k})
					for v := 0; v < b.nv; v++ {
						r = append(r, mmStep{"Remove", k, v})
						if len(m) < b.max {
							r = append(r, mmStep{"Put", k, v})
						}
					}
				}
				return r
			}
			name := strings.TrimPrefix(kind.fn, "New")
			fixpoint(c, fmt.Sprintf("%s, %d keys, %d values, up to %d entries", name, b.nk, b.nv, b.max), nil, steps, func(in *In, hist []mmStep, s mmStep) ([]mmEntry, string) {
				m := newMM(c, in, kind, b.nk, b.nv)
				for _, h := range hist {
					m.apply(h)
				}
				m.apply(s)
				key := graphOf(in, namesOf(m.keys, m.vals), m.m)
				m.check()
				return m.model, key
			})
		}
	}
}

func namesOf(ls ...[]Lin) map[string]string {
	r := map[string]string{}
	for _, l := range ls {
		for _, x := range l {
			r[x.String()] = x.String()
		}
	}
	return r
}
