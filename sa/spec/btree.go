package spec

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	reg("C06", func(c *Ctx) { btreeSpec(c, false) })
	reg("C07", func(c *Ctx) { btreeSpec(c, true) })
}

// Trees of given heights and occupancies with arbitrary distinct keys, values and
// tombstones, of which only the nodes that the code looks at are spelled out; the
// other subtrees are opaque. A key stands for its place in the order of the keys,
// which is all less tells. One operation is analysed for every place of its key.
type btr struct {
	c          *Ctx
	in         *In
	kv         []types.Type
	t, nt, et  types.Type
	fr, fh, fn int // root, height, number of entries in Tree
	nm, na     int // number of children, children in node
	ek, ev, el int // key, value, live
	en         int // child
	max        int
	rank       map[ai.Sym]int
	nodes      []*btNode
	mode       btMode
	root       *btNode
	structure  bool
	where      string
	found      *btMode
}

// btMode is what has been found of the trees that operations leave.
type btMode struct {
	stale bool // the first key of an inner node need not be its least
	loose bool // the key of a child may be below its least
	full  bool // a node may have as many children as there is room for
}

// btNode is a node of the tree at first.
type btNode struct {
	id, h, m int
	lo       int // rank of the least key
	kids     []*btNode
	made     bool
	keys     []Lin
	vals     []Val
	live     []ai.Bool
	shape    []btShape // of the path below
	pattern  func(i int) ai.Bool
}

// btShape is the number of children of the node and the child the path goes on by.
type btShape struct{ m, j int }

func newBtr(c *Ctx, in *In, found *btMode) *btr {
	b := &btr{c: c, in: in, rank: map[ai.Sym]int{}, found: found}
	named := c.Type("btree", "Tree")
	b.kv = params(named)
	b.t = inst(named, b.kv...)
	bad := func() { in.Undecided("the representation of btree.Tree is not the one specified") }
	isInt := func(t types.Type) bool {
		x, ok := t.Underlying().(*types.Basic)
		return ok && x.Info()&types.IsInteger != 0
	}
	b.fr, b.fh, b.fn, b.nm, b.na, b.ek, b.ev, b.el, b.en = -1, -1, -1, -1, -1, -1, -1, -1, -1
	s, ok := b.t.Underlying().(*types.Struct)
	if !ok {
		bad()
	}
	var ints []int
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if p, ok := f.Type().Underlying().(*types.Pointer); ok {
			if b.fr >= 0 {
				bad()
			}
			b.fr, b.nt = i, p.Elem()
		} else if isInt(f.Type()) {
			ints = append(ints, i)
		} else if _, ok := f.Type().Underlying().(*types.Signature); !ok {
			bad()
		}
	}
	if b.fr < 0 || len(ints) != 2 {
		bad()
	}
	ns, ok := b.nt.Underlying().(*types.Struct)
	if !ok || ns.NumFields() != 2 {
		bad()
	}
	for i := 0; i < 2; i++ {
		if a, ok := ns.Field(i).Type().Underlying().(*types.Array); ok {
			b.na, b.et, b.max = i, a.Elem(), int(a.Len())
		} else if isInt(ns.Field(i).Type()) {
			b.nm = i
		}
	}
	if b.na < 0 || b.nm < 0 || b.max < 4 {
		bad()
	}
	es, ok := b.et.Underlying().(*types.Struct)
	if !ok || es.NumFields() != 4 {
		bad()
	}
	for i := 0; i < 4; i++ {
		t := es.Field(i).Type()
		switch {
		case types.Identical(t, b.kv[0]):
			b.ek = i
		case types.Identical(t, b.kv[1]):
			b.ev = i
		case types.Identical(t.Underlying(), types.Typ[types.Bool]):
			b.el = i
		default:
			if p, ok := t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), b.nt) {
				b.en = i
			}
		}
	}
	if b.ek < 0 || b.ev < 0 || b.el < 0 || b.en < 0 {
		bad()
	}
	ai.NilFam["bt"] = func(in *In, args []Lin) ai.Bool { return ai.False }
	ai.InjectivePtr["bt"] = true
	in.Hooks.MayAlias = func(in *In, p, q ai.Sym, t types.Type) bool { return false }
	in.Hooks.Materialize = func(in *In, p ai.Sym, t types.Type) (Val, bool) {
		if n := b.nodeOf(ai.V(p)); n != nil {
			b.make(n)
			return b.content(n), true
		}
		return nil, false
	}
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		switch {
		case isFn(f, "less") && len(args) == 2:
			x, ok1 := b.rankOf(args[0])
			y, ok2 := b.rankOf(args[1])
			if ok1 && ok2 {
				return ai.B(x < y), true
			}
			p, ok1 := args[0].(Lin)
			q, ok2 := args[1].(Lin)
			if !ok1 || !ok2 {
				return nil, false
			}
			return ai.BoolSym(ai.UFL("less", p, q)), true
		case isFn(f, "visit"):
			w, _ := in.St.Ghost.(ai.Word)
			in.St.Ghost = w.Cat(items(args...))
			return nil, true
		}
		return nil, false
	}
	in.Hooks.Cut = func(in *In, fr *ai.Frame, l *ai.Loop, inits map[*ssa.Phi]Val) bool {
		return in.Unroll(fr, inits, 4*b.max+20, func() {
			in.Fail("terminates", "the loop of %s goes round more than %d times on %s", l.Fn.Name(), 4*b.max+20, b.where)
		})
	}
	in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
		return recur(in, c, "btree", 10, fr, fn, args, tenv)
	}
	// which number is which: Put on an empty tree counts one up
	p := b.create()
	zero := func(i int) bool {
		l, ok := in.Load(p).(*ai.StructV).F[i].(Lin)
		return ok && l.IsConst(0)
	}
	if !zero(ints[0]) || !zero(ints[1]) {
		bad()
	}
	k, v := b.newKey(0, "k"), intv(in, "v")
	call(in, c.Fn("btree", "Tree.Put"), b.kv, p, k, v)
	b.fh, b.fn = ints[0], ints[1]
	if zero(ints[0]) == zero(ints[1]) {
		// Put does not count right: go by the names
		b.fh = fieldIdx(in, b.t, "height")
		b.fn = ints[0] + ints[1] - b.fh
	} else if zero(ints[1]) {
		b.fh, b.fn = ints[1], ints[0]
	}
	return b
}

// recur analyses the calls of the functions of a package that are going on, up to
// a depth, beyond which they are taken not to end.
func recur(in *In, c *Ctx, pkg string, depth int, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
	if fn.Pkg == nil || fn.Pkg != c.SSA[pkg] || fn.Parent() != nil {
		return nil, false
	}
	n := 0
	for _, f := range in.Stack() {
		if f == fn {
			n++
		}
	}
	if n == 0 {
		return nil, false
	}
	if n > depth {
		in.Fail("terminates", "%s calls itself %d times over", fn.Name(), n)
	}
	return in.Body(fr, fn, args, nil, tenv), true
}

func (b *btr) create() *ai.Ptr {
	return b.in.ObjAt(call(b.in, b.c.Fn("btree", "New"), b.kv, fnSym(b.in, "less")), b.t)
}

func (b *btr) rankOf(v Val) (int, bool) {
	l, ok := v.(Lin)
	if !ok {
		return 0, false
	}
	s, ok := l.Single()
	if !ok {
		return 0, false
	}
	r, ok := b.rank[s]
	return r, ok
}

func (b *btr) newKey(rank int, name string) Lin {
	s := ai.NewSym(name)
	b.rank[s] = rank
	return ai.V(s)
}

func (b *btr) nodeOf(v Lin) *btNode {
	s, ok := v.Single()
	if !ok {
		return nil
	}
	f, args := s.App()
	if f != "bt" {
		return nil
	}
	i, ok := args[0].Const()
	if !ok || i < 0 || int(i) >= len(b.nodes) {
		return nil
	}
	return b.nodes[i]
}

func (n *btNode) ptr() Lin { return ai.UFL("bt", ai.C(int64(n.id))) }

// width is the number of ranks a subtree of height h takes.
func (b *btr) width(h int) int {
	w := 4*b.max + 16
	for ; h > 0; h-- {
		w = w*b.max + 16
	}
	return w
}

func (b *btr) node(h, lo int, shape []btShape) *btNode {
	n := &btNode{id: len(b.nodes), h: h, lo: lo, m: b.max / 2, shape: shape}
	if len(shape) > 0 {
		n.m = shape[0].m
	}
	b.nodes = append(b.nodes, n)
	return n
}

// make makes up the keys and children of a node.
func (b *btr) make(n *btNode) {
	if n.made {
		return
	}
	n.made = true
	for i := 0; i < n.m; i++ {
		if n.h == 0 {
			n.keys = append(n.keys, b.newKey(n.lo+4*i, fmt.Sprintf("k%d", i)))
			n.vals = append(n.vals, intv(b.in, fmt.Sprintf("v%d", i)))
			l := ai.BoolSym(intv(b.in, fmt.Sprintf("live%d", i)))
			if n.pattern != nil {
				l = n.pattern(i)
			}
			n.live = append(n.live, l)
			continue
		}
		var sh []btShape
		if len(n.shape) > 1 && n.shape[0].j == i {
			sh = n.shape[1:]
		}
		k := b.node(n.h-1, n.lo+i*b.width(n.h-1), sh)
		k.pattern = n.pattern
		n.kids = append(n.kids, k)
		r := k.lo
		if i == 0 && b.mode.stale {
			// above all keys but the last
			r = n.lo + (n.m-1)*b.width(n.h-1) + 1
		} else if i > 0 && b.mode.loose {
			r = k.lo - 3
		}
		n.keys = append(n.keys, b.newKey(r, fmt.Sprintf("s%d", i)))
	}
}

// content is the struct of a node.
func (b *btr) content(n *btNode) Val {
	in := b.in
	z := in.Zero(b.et).(*ai.StructV)
	var w ai.Word
	for i := 0; i < n.m; i++ {
		f := append([]Val(nil), z.F...)
		f[b.ek] = n.keys[i]
		if n.h == 0 {
			f[b.ev], f[b.el] = n.vals[i], n.live[i]
		} else {
			f[b.en] = n.kids[i].ptr()
		}
		w = w.Cat(items(&ai.StructV{Typ: b.et, F: f}))
	}
	if n.m < b.max {
		w = w.Cat(ai.Word{ai.Fill(z, ai.C(int64(b.max-n.m)))})
	}
	f := make([]Val, 2)
	f[b.nm] = ai.C(int64(n.m))
	f[b.na] = &ai.ArrV{W: w, Elem: b.et}
	return &ai.StructV{Typ: b.nt, F: f}
}

// tree is a tree with a path of the given shape, from the root on.
func (b *btr) tree(shape []btShape) *ai.Ptr {
	in := b.in
	p := b.create()
	b.root = b.node(len(shape)-1, 1000, shape)
	s := in.Load(p).(*ai.StructV)
	f := append([]Val(nil), s.F...)
	f[b.fr] = b.root.ptr()
	f[b.fh] = ai.C(int64(len(shape) - 1))
	f[b.fn] = nat(in, "n")
	in.StoreAt(p, &ai.StructV{Typ: s.Typ, F: f})
	b.where = fmt.Sprintf("a tree of height %d", len(shape)-1)
	for i, x := range shape {
		if i+1 < len(shape) {
			b.where += fmt.Sprintf(", child %d of %d", x.j, x.m)
		} else {
			b.where += fmt.Sprintf(", leaf of %d", x.m)
		}
	}
	return p
}

// btItem is an entry, or an opaque subtree.
type btItem struct {
	n    *btNode // of an opaque subtree
	rank int
	key  Lin
	val  Val
	live ai.Bool
}

func (x btItem) String() string {
	if x.n != nil {
		return fmt.Sprintf("subtree %d", x.n.id)
	}
	return x.key.String()
}

// touched tells whether the node has been looked at.
func (b *btr) touched(n *btNode) bool {
	s, _ := n.ptr().Single()
	return b.in.St.ObjOf[s] != nil
}

// before is the content of a subtree at first.
func (b *btr) before(n *btNode) []btItem {
	if !b.touched(n) {
		return []btItem{{n: n}}
	}
	var r []btItem
	for i := 0; i < n.m; i++ {
		if n.h == 0 {
			r = append(r, btItem{rank: b.mustRank(n.keys[i]), key: n.keys[i], val: n.vals[i], live: n.live[i]})
		} else {
			r = append(r, b.before(n.kids[i])...)
		}
	}
	return r
}

func (b *btr) mustRank(k Lin) int {
	r, _ := b.rankOf(k)
	return r
}

// least and most are the ranks of the first and the last key of a subtree at first.
func (b *btr) least(n *btNode) int { return n.lo }

func (b *btr) most(n *btNode) int {
	if n.h == 0 {
		return n.lo + 4*(n.m-1)
	}
	b.make(n)
	return b.most(n.kids[n.m-1])
}

type btSpan struct {
	lo, hi int
	ok     bool // not empty
}

// after is the content of the subtree of v, of height h.
func (b *btr) after(op string, v Val, h int, root bool, seen map[*ai.Obj]bool, out *[]btItem) btSpan {
	in := b.in
	if l, ok := v.(Lin); ok {
		if l.IsConst(0) {
			in.Fail("depth", "%s on %s leaves a nil child at height %d", op, b.where, h)
		}
		n := b.nodeOf(l)
		if n == nil {
			in.Undecided("child %s", l)
		}
		if !b.touched(n) {
			in.Check(n.h == h, "depth", "%s on %s leaves a subtree of height %d where one of height %d should be", op, b.where, n.h, h)
			*out = append(*out, btItem{n: n})
			return btSpan{b.least(n), b.most(n), true}
		}
	}
	p := in.ObjAt(v, b.nt)
	in.Check(!seen[p.Obj], "tree", "%s on %s leaves a node that is the child of two", op, b.where)
	seen[p.Obj] = true
	s, ok := in.Load(p).(*ai.StructV)
	if !ok {
		in.Undecided("node %s", ai.ValString(in.Load(p)))
	}
	k, ok := in.Lin(s.F[b.nm]).Const()
	if !ok {
		in.Undecided("a node with %s children", s.F[b.nm])
	}
	m := int(k)
	arr, ok := s.F[b.na].(*ai.ArrV)
	if !ok {
		in.Undecided("children %s", ai.ValString(s.F[b.na]))
	}
	in.Check(m >= 0 && m <= b.max, "branching", "%s on %s leaves a node with %d children of at most %d", op, b.where, m, b.max)
	if m == b.max {
		b.found.full = true
	}
	if b.structure && !root {
		in.Check(m >= b.max/2, "half full", "%s on %s leaves a node with %d of %d children that is not the root", op, b.where, m, b.max)
	}
	if h > 0 {
		in.Check(m > 0, "branching", "%s on %s leaves an inner node with no children", op, b.where)
	}
	sp := btSpan{}
	for i := 0; i < m; i++ {
		e, ok := in.At(arr.W, ai.C(int64(i))).(*ai.StructV)
		if !ok {
			in.Undecided("entry %s", ai.ValString(in.At(arr.W, ai.C(int64(i)))))
		}
		r, ok := b.rankOf(e.F[b.ek])
		if h == 0 {
			if !ok {
				in.Fail("content", "%s on %s leaves an entry with the key %s", op, b.where, ai.ValString(e.F[b.ek]))
			}
			k, isLin := e.F[b.en].(Lin)
			in.Check(isLin && k.IsConst(0) || !b.structure, "depth", "%s on %s leaves a leaf entry with a child", op, b.where)
			in.Check(!sp.ok || r > sp.hi, "order", "%s on %s leaves %s, %s in a leaf out of order", op, b.where, b.keyAt(arr, i-1), ai.ValString(e.F[b.ek]))
			if !sp.ok {
				sp.lo = r
			}
			sp.hi, sp.ok = r, true
			l, isB := e.F[b.el].(ai.Bool)
			if !isB {
				in.Undecided("live %s", ai.ValString(e.F[b.el]))
			}
			*out = append(*out, btItem{rank: r, key: e.F[b.ek].(Lin), val: e.F[b.ev], live: l})
			continue
		}
		c := b.after(op, e.F[b.en], h-1, false, seen, out)
		if !c.ok {
			continue
		}
		if i == 0 {
			if r != c.lo || !ok {
				b.found.stale = true
			}
		} else {
			if !ok {
				in.Fail("order", "%s on %s leaves the key %s for child %d", op, b.where, ai.ValString(e.F[b.ek]), i)
			}
			in.Check(r <= c.lo, "order", "%s on %s leaves child %d with a key below the child's own", op, b.where, i)
			in.Check(!sp.ok || sp.hi < r, "order", "%s on %s leaves child %d with a key that is not above those before it", op, b.where, i)
			if r != c.lo {
				b.found.loose = true
			}
		}
		if !sp.ok {
			sp.lo = c.lo
		}
		sp.hi, sp.ok = c.hi, true
	}
	return sp
}

func (b *btr) keyAt(a *ai.ArrV, i int) string {
	if e, ok := b.in.At(a.W, ai.C(int64(i))).(*ai.StructV); ok {
		return ai.ValString(e.F[b.ek])
	}
	return "?"
}

// check checks the tree and its content. It returns its height.
func (b *btr) check(op string, p *ai.Ptr, want []btItem) int {
	in := b.in
	s := in.Load(p).(*ai.StructV)
	h, ok := in.Lin(s.F[b.fh]).Const()
	if !ok {
		in.Undecided("height %s", s.F[b.fh])
	}
	if h < 0 || h > 9 {
		in.Fail("depth", "%s on %s leaves height %d", op, b.where, h)
	}
	var got []btItem
	b.after(op, s.F[b.fr], int(h), true, map[*ai.Obj]bool{}, &got)
	for i := 0; i < len(got) || i < len(want); i++ {
		if i == len(got) || i < len(want) && got[i].n != want[i].n || i < len(want) && got[i].n == nil && got[i].rank != want[i].rank || i == len(want) {
			g, w := "nothing more", "nothing more"
			if i < len(got) {
				g = got[i].String()
			}
			if i < len(want) {
				w = want[i].String()
			}
			in.Fail("content", "after %s on %s entry %d in order is %s, want %s", op, b.where, i, g, w)
		}
		if got[i].n != nil {
			continue
		}
		in.Check(in.ValEq(got[i].live, want[i].live), "content", "after %s on %s entry %d (%s) is live: %s, want %s", op, b.where, i, got[i], ai.ValString(got[i].live), ai.ValString(want[i].live))
		if v, known := in.Known(want[i].live); known && !v {
			continue
		}
		in.Check(in.ValEq(got[i].val, want[i].val), "content", "after %s on %s entry %d (%s) has the value %s, want %s", op, b.where, i, got[i], ai.ValString(got[i].val), ai.ValString(want[i].val))
	}
	return int(h)
}

func (b *btr) size(p *ai.Ptr) Val {
	return call(b.in, b.c.Fn("btree", "Tree.Size"), b.kv, p)
}

// places are the places for a key in a leaf of m: 2i+1 at entry i, 2i before it.
func btPlaces(m, max int, all bool) []int {
	set := map[int]bool{}
	add := func(x int) {
		if x >= 0 && x <= 2*m {
			set[x] = true
		}
	}
	for _, x := range []int{0, 1, 2, 3, m, max - 2, max - 1, max, max + 1, max + 2, 2*m - 1, 2 * m, 2*m - 2, 2*m - 3} {
		add(x)
	}
	if all || m <= 3 {
		for x := 0; x <= 2*m; x++ {
			add(x)
		}
	}
	var r []int
	for x := range set {
		r = append(r, x)
	}
	sort.Ints(r)
	return r
}

func btreeSpec(c *Ctx, structure bool) {
	var found, done btMode
	c.Run("New makes an empty tree", func(in *In) {
		b := newBtr(c, in, &found)
		b.structure = structure
		b.where = "nothing"
		p := b.create()
		b.check("New", p, nil)
		in.Check(in.ValEq(b.size(p), ai.C(0)), "Size", "Size of a new tree is %s", ai.ValString(b.size(p)))
	})
	max := 0
	if n := c.TryType("btree", "Tree"); n != nil {
		max = 64
		if s, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
					if ns, ok := p.Elem().Underlying().(*types.Struct); ok {
						for j := 0; j < ns.NumFields(); j++ {
							if a, ok := ns.Field(j).Type().Underlying().(*types.Array); ok {
								max = int(a.Len())
							}
						}
					}
				}
			}
		}
	}
	half := max / 2
	type family struct {
		name   string
		shapes [][]btShape
		more   bool // only in the thorough tier
	}
	fams := func(big int) []family {
		var fs []family
		sizes := []int{0, 1, 2, 3, half - 1, half, half + 1, big - 1, big}
		if c.Thorough {
			sizes = nil
			for m := 0; m <= big; m++ {
				sizes = append(sizes, m)
			}
		}
		var s0 [][]btShape
		for _, m := range sizes {
			s0 = append(s0, []btShape{{m, 0}})
		}
		fs = append(fs, family{"height 0", s0, false})
		kids := func(m int) []int {
			switch {
			case m == 2:
				return []int{0, 1}
			case m == 3:
				return []int{1}
			case m <= half:
				return []int{0, 1, m - 1}
			case c.Thorough:
				return []int{0, 1, half - 1, half, m - 1}
			}
			return []int{0, half - 1, half, m - 1}
		}
		for _, m := range []int{2, 3, big} {
			var s1 [][]btShape
			for _, l := range []int{half, big} {
				for _, j := range kids(m) {
					s1 = append(s1, []btShape{{m, j}, {l, 0}})
				}
			}
			fs = append(fs, family{fmt.Sprintf("height 1, root with %d", m), s1, false})
		}
		for _, m := range []int{2, big} {
			for _, k := range []int{half, big} {
				var s2 [][]btShape
				for _, l := range []int{half, big} {
					for _, j := range []int{0, m - 1} {
						for _, i := range kids(k) {
							s2 = append(s2, []btShape{{m, j}, {k, i}, {l, 0}})
						}
					}
				}
				fs = append(fs, family{fmt.Sprintf("height 2, root with %d, child with %d", m, k), s2, false})
			}
		}
		for _, m := range []int{2, big} {
			var s3 [][]btShape
			for _, k := range []int{half, big} {
				for _, i := range []int{0, k - 1} {
					s3 = append(s3, []btShape{{m, 1}, {big, i}, {k, k - 1}, {big, 0}})
				}
			}
			fs = append(fs, family{fmt.Sprintf("height 3, root with %d", m), s3, true})
		}
		return fs
	}
	ops := []string{"Get", "Put", "Remove"}
	if structure {
		ops = ops[1:]
	}
	run := func(mode btMode, big int) {
		as := ""
		if mode.stale {
			as += ", least key unknown"
		}
		if mode.loose {
			as += ", keys below the children's"
		}
		for _, f := range fams(big) {
			if f.more && !c.Thorough {
				continue
			}
			if len(f.shapes[0]) == 1 && (mode.stale || mode.loose) {
				continue
			}
			for _, op := range ops {
				c.Run(op+", "+f.name+as, func(in *In) {
					b := newBtr(c, in, &found)
					b.structure, b.mode = structure, mode
					shape := f.shapes[in.Choose(len(f.shapes))]
					p := b.tree(shape)
					leaf := b.root
					for leaf.h > 0 {
						b.make(leaf)
						leaf = leaf.kids[leaf.shape[0].j]
					}
					b.make(leaf)
					inRoot := shape[len(shape)-1]
					pl := btPlaces(inRoot.m, b.max, c.Thorough && leaf == b.root)
					if leaf != b.root && !c.Thorough {
						// fewer: first and last, next to the middle
						m := inRoot.m
						pl = []int{0, 1, 2, b.max - 1, b.max, 2*m - 1, 2 * m}
					}
					x := pl[in.Choose(len(pl))]
					rank := leaf.lo + 4*(x/2)
					if x%2 == 0 {
						rank -= 2
					}
					target := -1
					if x%2 == 1 {
						target = x / 2
					}
					// a key below the first of a leaf belongs to the leaf only if it is not
					// below the key the leaf goes by
					if x == 0 && !mode.loose && !b.leftmost(leaf) {
						in.Dead()
					}
					q := b.newKey(rank, "q")
					n0 := b.size(p)
					what := fmt.Sprintf("%s of a key at entry %d", op, x/2)
					if target < 0 {
						what = fmt.Sprintf("%s of an absent key before entry %d", op, x/2)
					}
					switch op {
					case "Get":
						r := call(in, c.Fn("btree", "Tree.Get"), b.kv, p, q)
						if target < 0 {
							in.Check(in.ValEq(res(r, 1), ai.False), "Get", "%s of %s finds %s", what, b.where, ai.ValString(res(r, 0)))
						} else {
							in.Check(in.ValEq(res(r, 1), leaf.live[target]), "Get", "%s of %s is live: %s, want %s", what, b.where, ai.ValString(res(r, 1)), ai.ValString(leaf.live[target]))
							if v, known := in.Known(leaf.live[target]); !known || v {
								in.Check(in.ValEq(res(r, 0), leaf.vals[target]), "Get", "%s of %s is %s, want %s", what, b.where, ai.ValString(res(r, 0)), ai.ValString(leaf.vals[target]))
							}
						}
						want := b.before(b.root)
						b.check(what, p, want)
						in.Check(in.ValEq(b.size(p), n0), "Size", "%s changes Size of %s", what, b.where)
					case "Put":
						v := intv(in, "v")
						call(in, c.Fn("btree", "Tree.Put"), b.kv, p, q, v)
						want := b.before(b.root)
						if target >= 0 {
							for i := range want {
								if want[i].n == nil && want[i].rank == rank {
									want[i].val, want[i].live = v, ai.True
								}
							}
						} else {
							want = btInsert(want, btItem{rank: rank, key: q, val: v, live: ai.True}, b)
						}
						b.check(what, p, want)
						if structure {
							return
						}
						more := true
						if target >= 0 {
							more = !in.Branch(leaf.live[target])
						}
						n1 := in.Lin(n0)
						if more {
							n1 = n1.Plus(1)
						}
						in.Check(in.ValEq(b.size(p), n1), "Size", "after %s on %s (live: %v) Size is %s, was %s", what, b.where, !more, ai.ValString(b.size(p)), ai.ValString(n0))
					case "Remove":
						call(in, c.Fn("btree", "Tree.Remove"), b.kv, p, q)
						want := b.before(b.root)
						less := false
						if target >= 0 {
							for i := range want {
								if want[i].n == nil && want[i].rank == rank {
									want[i].live = ai.False
								}
							}
							less = in.Branch(leaf.live[target])
						}
						b.check(what, p, want)
						if structure {
							return
						}
						n1 := in.Lin(n0)
						if less {
							n1 = n1.Plus(-1)
						}
						in.Check(in.ValEq(b.size(p), n1), "Size", "after %s on %s (live: %v) Size is %s, was %s", what, b.where, less, ai.ValString(b.size(p)), ai.ValString(n0))
					}
				})
			}
		}
	}
	run(done, max-1)
	for range 4 {
		if found == done {
			break
		}
		done = found
		big := max - 1
		if done.full {
			big = max
		}
		run(done, big)
	}
	if structure {
		return
	}
	c.Run("Each visits the live entries in order", func(in *In) {
		b := newBtr(c, in, &found)
		b.mode = done
		shapes := []struct {
			sizes []int
			live  func(i int) ai.Bool
		}{
			{[]int{0}, nil}, {[]int{1}, nil}, {[]int{2}, nil}, {[]int{5}, nil},
			{[]int{2, 2}, nil}, {[]int{3, 2}, nil}, {[]int{2, 3, 1}, nil}, {[]int{2, 2, 2}, nil},
			{[]int{max - 1}, func(i int) ai.Bool { return ai.True }},
			{[]int{max - 1}, func(i int) ai.Bool { return ai.B(i%2 == 0) }},
			{[]int{max - 1}, func(i int) ai.Bool { return ai.False }},
			{[]int{max - 1, 1}, func(i int) ai.Bool { return ai.True }},
			{[]int{2, half}, func(i int) ai.Bool { return ai.B(i%3 != 0) }},
		}
		sh := shapes[in.Choose(len(shapes))]
		p := b.treeOf(sh.sizes, sh.live)
		call(in, c.Fn("btree", "Tree.Each"), b.kv, p, fnSym(in, "visit"))
		var got ai.Word
		if w, ok := in.St.Ghost.(ai.Word); ok {
			got = w
		}
		want := b.all(b.root)
		i := 0
		for _, x := range want {
			v, known := in.Known(x.live)
			if !known {
				v = in.Branch(x.live)
			}
			if !v {
				continue
			}
			in.Check(i+1 < len(got), "Each", "Each on %s stops before %s", b.where, x)
			r, ok := b.rankOf(got[i].V)
			in.Check(ok && r == x.rank && in.ValEq(got[i+1].V, x.val), "Each", "Each on %s visits %s with %s, want %s with %s", b.where, ai.ValString(got[i].V), ai.ValString(got[i+1].V), x, ai.ValString(x.val))
			i += 2
		}
		in.Check(i == len(got), "Each", "Each on %s visits %d entries, want %d", b.where, len(got)/2, i/2)
	})
}

// treeOf is a tree whose nodes at each depth have the given sizes.
func (b *btr) treeOf(sizes []int, live func(i int) ai.Bool) *ai.Ptr {
	shape := make([]btShape, len(sizes))
	for i, m := range sizes {
		shape[i].m = m
	}
	p := b.tree(shape)
	b.root.pattern = live
	var fill func(n *btNode)
	fill = func(n *btNode) {
		n.m = sizes[len(sizes)-1-n.h]
		b.make(n)
		for _, k := range n.kids {
			fill(k)
		}
	}
	fill(b.root)
	return p
}

// all is the content of a subtree that is spelled out.
func (b *btr) all(n *btNode) []btItem {
	var r []btItem
	for i := 0; i < n.m; i++ {
		if n.h == 0 {
			r = append(r, btItem{rank: b.mustRank(n.keys[i]), key: n.keys[i], val: n.vals[i], live: n.live[i]})
		} else {
			r = append(r, b.all(n.kids[i])...)
		}
	}
	return r
}

// leftmost tells whether nothing is before the leaf.
func (b *btr) leftmost(leaf *btNode) bool { return leaf.lo == b.root.lo }

func btInsert(w []btItem, x btItem, b *btr) []btItem {
	i := 0
	for i < len(w) {
		r := w[i].rank
		if w[i].n != nil {
			r = b.least(w[i].n)
		}
		if r > x.rank {
			break
		}
		i++
	}
	return append(append(append([]btItem(nil), w[:i]...), x), w[i:]...)
}
