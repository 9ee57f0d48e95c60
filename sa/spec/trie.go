package spec

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	reg("C24", trieMapSpec)
	reg("C25", triePrefixSpec)
}

// Ternary search tries of every shape up to a number of nodes, with arbitrary
// bytes in the order that the shape asks for, arbitrary values, and every way
// for a string to leave the trie.
type trie struct {
	c          *Ctx
	in         *In
	v          []types.Type
	t, nt      types.Type
	fr, fn     int // root, size in Trie
	nc, nv, ne int // byte, value, valid in node
	nl, nm, nr int
	nodes      []*trNode
	found      *trMode
	full       bool // every node is a key
}

// trMode is what has been found of the tries that operations leave.
type trMode struct {
	unused bool // nodes that no key needs
}

// trShape is the shape of a trie; nil is the empty one.
type trShape struct{ l, m, r *trShape }

type trNode struct {
	sh      *trShape
	l, m, r *trNode
	c       Lin
	val     Val
	valid   ai.Bool
	word    []Lin // the string of the node
	obj     *ai.Ptr
	lo      *Lin // the byte before in the level, nil if none
	up      *Lin // the byte after
}

var trShapes = map[int][]*trShape{}

// shapesOf are the shapes with n nodes.
func shapesOf(n int) []*trShape {
	if n == 0 {
		return []*trShape{nil}
	}
	if s, ok := trShapes[n]; ok {
		return s
	}
	var r []*trShape
	for i := 0; i < n; i++ {
		for j := 0; i+j < n; j++ {
			for _, a := range shapesOf(i) {
				for _, b := range shapesOf(j) {
					for _, c := range shapesOf(n - 1 - i - j) {
						r = append(r, &trShape{a, b, c})
					}
				}
			}
		}
	}
	trShapes[n] = r
	return r
}

func (s *trShape) String() string {
	if s == nil {
		return "-"
	}
	return "(" + s.l.String() + s.m.String() + s.r.String() + ")"
}

func newTrie(c *Ctx, in *In, found *trMode) *trie {
	t := &trie{c: c, in: in, found: found}
	named := c.Type("trie", "Trie")
	t.v = params(named)
	t.t = inst(named, t.v...)
	bad := func() { in.Undecided("the representation of trie.Trie is not the one specified") }
	s, ok := t.t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 2 {
		bad()
	}
	t.fr, t.fn = -1, -1
	for i := 0; i < 2; i++ {
		if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
			t.fr, t.nt = i, p.Elem()
		} else if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			t.fn = i
		}
	}
	if t.fr < 0 || t.fn < 0 {
		bad()
	}
	ns, ok := t.nt.Underlying().(*types.Struct)
	if !ok || ns.NumFields() != 6 {
		bad()
	}
	t.nc, t.nv, t.ne = -1, -1, -1
	for i := 0; i < 6; i++ {
		ft := ns.Field(i).Type()
		switch {
		case types.Identical(ft.Underlying(), types.Typ[types.Uint8]):
			t.nc = i
		case types.Identical(ft, t.v[0]):
			t.nv = i
		case types.Identical(ft.Underlying(), types.Typ[types.Bool]):
			t.ne = i
		}
	}
	if t.nc < 0 || t.nv < 0 || t.ne < 0 {
		bad()
	}
	t.nl, t.nm, t.nr = fieldIdx(in, t.nt, "left"), fieldIdx(in, t.nt, "mid"), fieldIdx(in, t.nt, "right")
	in.Hooks.Cut = func(in *In, fr *ai.Frame, l *ai.Loop, inits map[*ssa.Phi]Val) bool {
		return in.Unroll(fr, inits, 40, func() {
			in.Fail("terminates", "the loop of %s goes round more than 40 times on %s", l.Fn.Name(), t.describe())
		})
	}
	in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
		return recur(in, c, "trie", 24, fr, fn, args, tenv)
	}
	return t
}

func (t *trie) describe() string {
	if len(t.nodes) == 0 {
		return "an empty trie"
	}
	s := "a trie with nodes"
	for _, n := range t.nodes {
		s += " " + word(n.word)
		if v, known := t.in.Known(n.valid); known && v {
			s += "*"
		} else if known {
			s += "."
		}
	}
	return s
}

func word(w []Lin) string {
	var s []string
	for _, x := range w {
		s = append(s, x.String())
	}
	return `"` + strings.Join(s, "·") + `"`
}

func (t *trie) byteSym(name string) Lin {
	b := intv(t.in, name)
	t.in.Assume(ai.GE(b))
	t.in.Assume(ai.LE(b, ai.C(255)))
	return b
}

// build makes the nodes of a shape, those of each level in order.
func (t *trie) build(s *trShape, prefix []Lin) *trNode {
	if s == nil {
		return nil
	}
	var prev *trNode
	var level func(s *trShape) *trNode
	level = func(s *trShape) *trNode {
		if s == nil {
			return nil
		}
		n := &trNode{sh: s}
		n.l = level(s.l)
		id := len(t.nodes)
		t.nodes = append(t.nodes, n)
		n.c = t.byteSym(fmt.Sprintf("b%d", id))
		if prev != nil {
			t.in.Assume(ai.LT(prev.c, n.c))
			p := prev.c
			n.lo = &p
			q := n.c
			prev.up = &q
		}
		prev = n
		n.word = append(append([]Lin(nil), prefix...), n.c)
		n.val = intv(t.in, fmt.Sprintf("v%d", id))
		if t.full || s.m == nil && !t.found.unused {
			n.valid = ai.True
		} else {
			n.valid = ai.BoolSym(intv(t.in, fmt.Sprintf("valid%d", id)))
		}
		n.r = level(s.r)
		return n
	}
	root := level(s)
	var mids func(n *trNode)
	mids = func(n *trNode) {
		if n == nil {
			return
		}
		mids(n.l)
		n.m = t.build(n.sh.m, n.word)
		mids(n.r)
	}
	mids(root)
	return root
}

func (t *trie) ptrTo(n *trNode) Val {
	if n == nil {
		return ai.C(0)
	}
	if n.obj == nil {
		f := make([]Val, 6)
		f[t.nc], f[t.nv], f[t.ne] = n.c, n.val, n.valid
		f[t.nl], f[t.nm], f[t.nr] = t.ptrTo(n.l), t.ptrTo(n.m), t.ptrTo(n.r)
		n.obj = object(t.in, t.nt, "node"+word(n.word), &ai.StructV{Typ: t.nt, F: f})
	}
	return n.obj
}

// of is a trie of a shape.
func (t *trie) of(s *trShape) *ai.Ptr {
	in := t.in
	p := in.ObjAt(call(in, t.c.Fn("trie", "New"), t.v), t.t)
	root := t.build(s, nil)
	sv := in.Load(p).(*ai.StructV)
	f := append([]Val(nil), sv.F...)
	f[t.fr] = t.ptrTo(root)
	f[t.fn] = nat(in, "n")
	in.StoreAt(p, &ai.StructV{Typ: sv.Typ, F: f})
	return p
}

type trEntry struct {
	word  []Lin
	val   Val
	valid ai.Bool
}

func (t *trie) entries() []trEntry {
	var r []trEntry
	for _, n := range t.nodes {
		r = append(r, trEntry{n.word, n.val, n.valid})
	}
	return r
}

func sameWord(a, b []Lin) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Same(b[i]) {
			return false
		}
	}
	return true
}

// check checks that the trie is in order and holds these entries.
func (t *trie) check(op string, p *ai.Ptr, want []trEntry) {
	in := t.in
	sv := in.Load(p).(*ai.StructV)
	seen := map[*ai.Obj]bool{}
	var got []trEntry
	var walk func(v Val, prefix []Lin, lo, hi *Lin)
	walk = func(v Val, prefix []Lin, lo, hi *Lin) {
		if l, ok := v.(Lin); ok && l.IsConst(0) {
			return
		}
		q, ok := v.(*ai.Ptr)
		if !ok || len(q.Path) > 0 {
			in.Undecided("the child is %s", ai.ValString(v))
		}
		in.Check(!seen[q.Obj], "tree", "%s on %s leaves a node with two parents", op, t.describe())
		seen[q.Obj] = true
		n, ok := in.Load(q).(*ai.StructV)
		if !ok {
			in.Undecided("node %s", ai.ValString(in.Load(q)))
		}
		c := in.Lin(n.F[t.nc])
		in.Check(lo == nil || in.Must(ai.LT(*lo, c)), "order", "%s on %s leaves the byte %s right of %v", op, t.describe(), c, lo)
		in.Check(hi == nil || in.Must(ai.LT(c, *hi)), "order", "%s on %s leaves the byte %s left of %v", op, t.describe(), c, hi)
		valid, ok := n.F[t.ne].(ai.Bool)
		if !ok {
			in.Undecided("valid %s", ai.ValString(n.F[t.ne]))
		}
		w := append(append([]Lin(nil), prefix...), c)
		if m, ok := n.F[t.nm].(Lin); ok && m.IsConst(0) && !in.Must(valid) {
			t.found.unused = true
		}
		got = append(got, trEntry{w, n.F[t.nv], valid})
		walk(n.F[t.nl], prefix, lo, &c)
		walk(n.F[t.nm], w, nil, nil)
		walk(n.F[t.nr], prefix, &c, hi)
	}
	walk(sv.F[t.fr], nil, nil, nil)
	for _, g := range got {
		var w *trEntry
		for i := range want {
			if sameWord(want[i].word, g.word) {
				w = &want[i]
			}
		}
		if w == nil {
			in.Check(in.Must(g.valid.Not()), "content", "after %s on %s the trie holds %s", op, t.describe(), word(g.word))
			continue
		}
		in.Check(in.ValEq(g.valid, w.valid), "content", "after %s on %s key %s is held: %s, want %s", op, t.describe(), word(g.word), ai.ValString(g.valid), ai.ValString(w.valid))
		if v, known := in.Known(w.valid); !known || v {
			in.Check(in.ValEq(g.val, w.val), "content", "after %s on %s key %s has %s, want %s", op, t.describe(), word(g.word), ai.ValString(g.val), ai.ValString(w.val))
		}
	}
	for _, w := range want {
		there := false
		for _, g := range got {
			there = there || sameWord(w.word, g.word)
		}
		if !there {
			in.Check(in.Must(w.valid.Not()), "content", "after %s on %s key %s is gone", op, t.describe(), word(w.word))
		}
	}
}

// trQuery is a string: that of a node, or one that leaves the trie.
type trQuery struct {
	word []Lin
	n    *trNode // the node it ends at
	name string
}

// query chooses a string, of up to extra bytes beyond the trie.
func (t *trie) query(extra int) trQuery {
	in := t.in
	i := in.Choose(1 + 4*len(t.nodes))
	if i == 0 {
		if len(t.nodes) == 0 {
			w := []Lin{t.byteSym("q0")}
			for k := 1; k < extra; k++ {
				if in.Choose(2) == 1 {
					w = append(w, t.byteSym(fmt.Sprintf("q%d", k)))
				} else {
					break
				}
			}
			return trQuery{w, nil, "another string"}
		}
		return trQuery{nil, nil, "the empty string"}
	}
	i--
	n := t.nodes[i/4]
	switch i % 4 {
	case 0:
		return trQuery{n.word, n, "the string of node " + word(n.word)}
	case 1, 2:
		// a byte next to the node's at a nil link
		q := t.byteSym("q")
		if i%4 == 1 {
			if n.l != nil {
				in.Dead()
			}
			in.Assume(ai.LT(q, n.c))
			if n.lo != nil {
				in.Assume(ai.LT(*n.lo, q))
			}
		} else {
			if n.r != nil {
				in.Dead()
			}
			in.Assume(ai.LT(n.c, q))
			if n.up != nil {
				in.Assume(ai.LT(q, *n.up))
			}
		}
		w := append(append([]Lin(nil), n.word[:len(n.word)-1]...), q)
		if extra > 1 && in.Choose(2) == 1 {
			w = append(w, t.byteSym("q1"))
		}
		return trQuery{w, nil, "a string that leaves the trie beside " + word(n.word)}
	}
	if n.m != nil {
		in.Dead()
	}
	w := append(append([]Lin(nil), n.word...), t.byteSym("q"))
	if extra > 1 && in.Choose(2) == 1 {
		w = append(w, t.byteSym("q1"))
	}
	return trQuery{w, nil, "a string that extends " + word(n.word)}
}

func (q trQuery) str() Val { return bytesOf(q.word) }

func bytesOf(w []Lin) ai.StrV {
	var r ai.Word
	for _, b := range w {
		r = r.Cat(items(b))
	}
	return ai.StrV{W: r}
}

func (t *trie) size(p *ai.Ptr) Lin {
	return t.in.Lin(call(t.in, t.c.Fn("trie", "Trie.Size"), t.v, p))
}

func (t *trie) choose(n int) *ai.Ptr {
	s := shapesOf(n)
	if n == 0 {
		return t.of(nil)
	}
	return t.of(s[t.in.Choose(len(s))])
}

// atMost is the number of nodes up to which tries are analysed.
func (c *Ctx) atMost(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

func trieMapSpec(c *Ctx) {
	var found trMode
	c.Run("New makes an empty trie", func(in *In) {
		t := newTrie(c, in, &found)
		p := in.ObjAt(call(in, c.Fn("trie", "New"), t.v), t.t)
		t.check("New", p, nil)
		in.Check(in.ValEq(t.size(p), ai.C(0)), "Size", "Size of a new trie is %s", t.size(p))
	})
	run := func(mode trMode) {
		as := ""
		if mode.unused {
			as = ", with unused nodes"
		}
		for n := 0; n <= c.atMost(5, 6); n++ {
			of := fmt.Sprintf(", %d nodes", n) + as
			c.Run("Get and Contains"+of, func(in *In) {
				t := newTrie(c, in, &found)
				p := t.choose(n)
				q := t.query(2)
				n0 := t.size(p)
				has := ai.False
				if q.n != nil {
					has = q.n.valid
				}
				r := call(in, c.Fn("trie", "Trie.Get"), t.v, p, q.str())
				in.Check(in.ValEq(res(r, 1), has), "Get", "Get of %s in %s is %s, want %s", q.name, t.describe(), ai.ValString(res(r, 1)), ai.ValString(has))
				if q.n != nil && in.Branch(has) {
					in.Check(in.ValEq(res(r, 0), q.n.val), "Get", "Get of %s in %s is %s, want %s", q.name, t.describe(), ai.ValString(res(r, 0)), ai.ValString(q.n.val))
				}
				r = call(in, c.Fn("trie", "Trie.Contains"), t.v, p, q.str())
				in.Check(in.ValEq(r, has), "Contains", "Contains of %s in %s is %s, want %s", q.name, t.describe(), ai.ValString(r), ai.ValString(has))
				t.check("Get", p, t.entries())
				in.Check(in.ValEq(t.size(p), n0), "Size", "Get changes Size of %s", t.describe())
			})
			c.Run("Put"+of, func(in *In) {
				t := newTrie(c, in, &found)
				p := t.choose(n)
				q := t.query(2)
				n0 := t.size(p)
				v := intv(in, "v")
				call(in, c.Fn("trie", "Trie.Put"), t.v, p, q.str(), v)
				want := t.entries()
				n1 := n0
				if q.n == nil && len(q.word) > 0 {
					want = append(want, trEntry{q.word, v, ai.True})
					n1 = n0.Plus(1)
				} else if q.n != nil {
					if !in.Branch(q.n.valid) {
						n1 = n0.Plus(1)
					}
					for i := range want {
						if sameWord(want[i].word, q.word) {
							want[i].val, want[i].valid = v, ai.True
						}
					}
				}
				t.check("Put of "+q.name, p, want)
				in.Check(in.ValEq(t.size(p), n1), "Size", "after Put of %s on %s Size is %s, was %s", q.name, t.describe(), t.size(p), n0)
			})
			c.Run("Remove"+of, func(in *In) {
				t := newTrie(c, in, &found)
				p := t.choose(n)
				q := t.query(2)
				n0 := t.size(p)
				call(in, c.Fn("trie", "Trie.Remove"), t.v, p, q.str())
				want := t.entries()
				n1 := n0
				if q.n != nil {
					if in.Branch(q.n.valid) {
						n1 = n0.Plus(-1)
					}
					for i := range want {
						if sameWord(want[i].word, q.word) {
							want[i].valid = ai.False
						}
					}
				}
				t.check("Remove of "+q.name, p, want)
				in.Check(in.ValEq(t.size(p), n1), "Size", "after Remove of %s on %s Size is %s, was %s", q.name, t.describe(), t.size(p), n0)
			})
		}
	}
	run(found)
	if found.unused {
		run(found)
	}
}

// inOrder are the nodes of a subtrie whose keys are held, in the order of the keys.
func (t *trie) inOrder(n *trNode) []*trNode {
	if n == nil {
		return nil
	}
	r := t.inOrder(n.l)
	if t.in.Branch(n.valid) {
		r = append(r, n)
	}
	r = append(r, t.inOrder(n.m)...)
	return append(r, t.inOrder(n.r)...)
}

// root is the root of the trie at first.
func (t *trie) root() *trNode {
	for _, n := range t.nodes {
		top := true
		for _, m := range t.nodes {
			if m.l == n || m.m == n || m.r == n {
				top = false
			}
		}
		if top {
			return n
		}
	}
	return nil
}

func (t *trie) checkList(op string, v Val, want []*trNode) {
	in := t.in
	s, ok := v.(ai.Slice)
	if !ok {
		in.Undecided("%s gives %s", op, ai.ValString(v))
	}
	k, ok := s.Len.Const()
	if !ok {
		in.Undecided("%s gives %s keys", op, s.Len)
	}
	var ws []string
	for _, n := range want {
		ws = append(ws, word(n.word))
	}
	in.Check(int(k) == len(want), op, "%s of %s gives %d keys, want %v", op, t.describe(), k, ws)
	if k == 0 {
		return
	}
	w := in.Content(s)
	for i := range want {
		x := in.At(w, ai.C(int64(i)))
		in.Check(in.ValEq(x, bytesOf(want[i].word)), op, "%s of %s gives %s at %d, want %v", op, t.describe(), ai.ValString(x), i, ws)
	}
}

func triePrefixSpec(c *Ctx) {
	// what the operations leave is found by C24's obligations
	var found trMode
	if c.Only == "" {
		probe := &Ctx{Program: c.Program, ID: c.ID, start: c.start}
		for n := 1; n <= 3; n++ {
			probe.Run("Remove", func(in *In) {
				t := newTrie(probe, in, &found)
				p := t.choose(n)
				call(in, probe.Fn("trie", "Trie.Remove"), t.v, p, t.query(1).str())
				t.check("Remove", p, nil)
			})
		}
	}
	mode := found
	for n := 0; n <= c.atMost(5, 6); n++ {
		of := fmt.Sprintf(", %d nodes", n)
		if mode.unused {
			of += ", with unused nodes"
		}
		all := ""
		if n > 4 {
			all = ", all of them keys"
		}
		if n <= 4 || c.Thorough && n == 5 {
			c.Run("Keys"+of+all, func(in *In) {
				t := newTrie(c, in, &mode)
				t.full = n > 4
				p := t.choose(n)
				r := call(in, c.Fn("trie", "Trie.Keys"), t.v, p)
				t.checkList("Keys", r, t.inOrder(t.root()))
				t.check("Keys", p, t.entries())
			})
			c.Run("KeysWithPrefix"+of+all, func(in *In) {
				t := newTrie(c, in, &mode)
				t.full = n > 4
				p := t.choose(n)
				q := t.query(2)
				r := call(in, c.Fn("trie", "Trie.KeysWithPrefix"), t.v, p, q.str())
				var want []*trNode
				if len(q.word) == 0 {
					want = t.inOrder(t.root())
				} else if q.n != nil {
					if in.Branch(q.n.valid) {
						want = append(want, q.n)
					}
					want = append(want, t.inOrder(q.n.m)...)
				}
				t.checkList("KeysWithPrefix of "+q.name, r, want)
				t.check("KeysWithPrefix", p, t.entries())
			})
		}
		c.Run("LongestPrefix"+of, func(in *In) {
			t := newTrie(c, in, &mode)
			p := t.choose(n)
			q := t.query(2)
			r := call(in, c.Fn("trie", "Trie.LongestPrefix"), t.v, p, q.str())
			var want []Lin
			for i := 1; i <= len(q.word); i++ {
				for _, n := range t.nodes {
					if sameWord(n.word, q.word[:i]) && in.Branch(n.valid) {
						want = n.word
					}
				}
			}
			in.Check(in.ValEq(r, bytesOf(want)), "LongestPrefix", "LongestPrefix of %s in %s is %s, want %s", word(q.word), t.describe(), ai.ValString(r), word(want))
			t.check("LongestPrefix", p, t.entries())
		})
	}
}
