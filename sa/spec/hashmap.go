package spec

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	reg("C10", hashmapSpec)
	reg("C11", hashmapCopySpec)
}

// Tables of a given size, with every pattern of filled slots and every place the
// hash function may give the keys, as long as each key is found by probing from
// its place; keys are distinct and otherwise arbitrary, and a key's place is
// split on only when the code looks at it. One operation is analysed on each.
type hmap struct {
	c      *Ctx
	t, et  types.Type // Map[K, V], entry
	kv     []types.Type
	fe, fl int // entries, length in Map
	ek, ef int // key, filled in the entry
	ev     int
	n      int // size of the table
	keys   []Lin
	vals   []Val
	at     []int // slot of each key
	class  map[ai.Sym]int
	free   []int // slots that are not filled
}

// hmHome is what is known of the hash of a class of keys: it is r modulo m.
type hmHome struct {
	r, m int
}

type hmState struct {
	homes  map[int]hmHome
	visits ai.Word
}

func (h *hmap) gh(in *In) *hmState {
	g, _ := in.St.Ghost.(*hmState)
	if g == nil {
		return &hmState{}
	}
	return g
}

func (h *hmap) setHome(in *In, c int, x hmHome) {
	o := h.gh(in)
	g := &hmState{homes: map[int]hmHome{c: x}, visits: o.visits}
	for k, v := range o.homes {
		if k != c {
			g.homes[k] = v
		}
	}
	in.St.Ghost = g
}

func newHmap(c *Ctx, in *In) *hmap {
	return newHmapOf(c, in, params(c.Type("hashmap", "Map")))
}

func newHmapOf(c *Ctx, in *In, kv []types.Type) *hmap {
	named := c.Type("hashmap", "Map")
	h := &hmap{c: c, kv: kv, class: map[ai.Sym]int{}}
	h.t = inst(named, h.kv...)
	s, ok := h.t.Underlying().(*types.Struct)
	if !ok {
		in.Undecided("the representation of hashmap.Map is not the one specified")
	}
	h.fe, h.fl, h.ek, h.ef, h.ev = -1, -1, -1, -1, -1
	for i := 0; i < s.NumFields(); i++ {
		switch t := s.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if h.fe >= 0 {
				in.Undecided("the representation of hashmap.Map is not the one specified")
			}
			h.fe, h.et = i, t.Elem()
		case *types.Basic, *types.Struct, *types.Signature:
		default:
			in.Undecided("the representation of hashmap.Map is not the one specified")
		}
	}
	if h.fe < 0 {
		in.Undecided("the representation of hashmap.Map is not the one specified")
	}
	e, ok := h.et.Underlying().(*types.Struct)
	if !ok || e.NumFields() != 3 {
		in.Undecided("the entries of hashmap.Map are not those specified")
	}
	for i := 0; i < 3; i++ {
		t := e.Field(i).Type()
		switch {
		case types.Identical(t, h.kv[0]):
			h.ek = i
		case types.Identical(t, h.kv[1]):
			h.ev = i
		case types.Identical(t.Underlying(), types.Typ[types.Bool]):
			h.ef = i
		}
	}
	if h.ek < 0 || h.ev < 0 || h.ef < 0 {
		in.Undecided("the entries of hashmap.Map are not those specified")
	}
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		switch {
		case isFn(f, "equals"):
			a, ok1 := args[0].(Lin)
			b, ok2 := args[1].(Lin)
			if !ok1 || !ok2 {
				return nil, false
			}
			x, y := h.classOf(a), h.classOf(b)
			if x >= 0 && y >= 0 {
				return ai.B(x == y), true
			}
			return ai.BoolSym(ai.UFL("equals", a, b)), true
		case isFn(f, "hash"):
			a, ok := args[0].(Lin)
			if !ok {
				return nil, false
			}
			v := ai.UFL("hash", a)
			if x := h.classOf(a); x >= 0 {
				v = ai.UFL("hash", ai.C(int64(x)))
			}
			in.Assume(ai.GE(v))
			return v, true
		case isFn(f, "visit"):
			o := h.gh(in)
			in.St.Ghost = &hmState{homes: o.homes, visits: o.visits.Cat(items(args...))}
			return nil, true
		}
		return nil, false
	}
	in.Hooks.Mod = func(in *In, x, m Lin) (Lin, bool) {
		k, ok := m.Const()
		s, ok2 := x.Single()
		if !ok || !ok2 {
			return Lin{}, false
		}
		fn, args := s.App()
		if fn != "hash" {
			return Lin{}, false
		}
		c, ok := args[0].Const()
		if !ok {
			return Lin{}, false
		}
		if k <= 0 || k&(k-1) != 0 || k > 1<<20 {
			in.Undecided("hash modulo %d", k)
		}
		return ai.C(int64(h.home(in, int(c), int(k)))), true
	}
	in.Hooks.Cut = func(in *In, fr *ai.Frame, l *ai.Loop, inits map[*ssa.Phi]Val) bool {
		return in.Unroll(fr, inits, 6*h.n+40, func() {
			in.Fail("terminates", "the loop of %s goes round more than %d times with a table of %d slots", l.Fn.Name(), 6*h.n+40, h.n)
		})
	}
	in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
		if fn.Pkg == nil || fn.Pkg != c.SSA["hashmap"] || fn.Parent() != nil {
			return nil, false
		}
		n := 0
		for _, f := range in.Stack() {
			if f == fn {
				n++
			}
		}
		if n == 0 {
			return nil, false
		}
		if n > 8 {
			in.Fail("terminates", "%s calls itself %d times over", fn.Name(), n)
		}
		return in.Body(fr, fn, args, nil, tenv), true
	}
	return h
}

func (h *hmap) classOf(k Lin) int {
	if s, ok := k.Single(); ok {
		if c, ok := h.class[s]; ok {
			return c
		}
	}
	return -1
}

// newKey is a key of a class, a new one if c < 0.
func (h *hmap) newKey(c int, name string) Lin {
	s := ai.NewSym(name)
	if c < 0 {
		c = len(h.class)
	}
	h.class[s] = c
	return ai.V(s)
}

func (h *hmap) newVal(in *In, name string) Val {
	if _, ok := h.kv[1].Underlying().(*types.Struct); ok {
		return in.Zero(h.kv[1])
	}
	return intv(in, name)
}

// home is the hash of a class of keys modulo m, a power of two.
func (h *hmap) home(in *In, c, m int) int {
	g, ok := h.gh(in).homes[c]
	if !ok {
		g = hmHome{0, 1}
	}
	if m <= g.m {
		return g.r % m
	}
	var ok2 []int
	for r := g.r; r < m; r += g.m {
		if h.allowed(c, r, m) {
			ok2 = append(ok2, r)
		}
	}
	if len(ok2) == 0 {
		in.Dead()
	}
	r := ok2[0]
	if len(ok2) > 1 {
		r = ok2[in.Choose(len(ok2))]
	}
	h.setHome(in, c, hmHome{r, m})
	return r
}

// allowed tells whether the hash of a key may be r modulo m in the table at first.
func (h *hmap) allowed(c, r, m int) bool {
	for i, k := range h.keys {
		if h.classOf(k) != c {
			continue
		}
		for p := h.at[i]; ; p = (p + h.n - 1) % h.n {
			if h.isFree(p) {
				return false
			}
			if m >= h.n && r%h.n == p || m < h.n && p%m == r {
				return true
			}
			if (p+h.n-1)%h.n == h.at[i] {
				return false
			}
		}
	}
	return true
}

func (h *hmap) isFree(p int) bool {
	for _, f := range h.free {
		if f == p {
			return true
		}
	}
	return false
}

// create is a new map made by New.
func (h *hmap) create(in *In, capacity Lin) *ai.Ptr {
	v := call(in, h.c.Fn("hashmap", "New"), h.kv, capacity, fnSym(in, "equals"), fnSym(in, "hash"))
	return in.ObjAt(v, h.t)
}

func (h *hmap) entries(in *In, p *ai.Ptr) ai.Slice {
	s, ok := in.Load(p).(*ai.StructV)
	if !ok {
		in.Undecided("the map is %s", ai.ValString(in.Load(p)))
	}
	e, ok := s.F[h.fe].(ai.Slice)
	if !ok {
		in.Undecided("the entries are %s", ai.ValString(s.F[h.fe]))
	}
	return e
}

func (h *hmap) size(in *In, p *ai.Ptr) int {
	k, ok := h.entries(in, p).Len.Const()
	if !ok {
		in.Undecided("the size of the table is %s", h.entries(in, p).Len)
	}
	return int(k)
}

// table is a map with a table of n slots of which count are filled.
func (h *hmap) table(in *In, n, count int) *ai.Ptr { return h.tableOf(in, n, count, nil) }

func (h *hmap) tableOf(in *In, n, count int, only func(pattern int) bool) *ai.Ptr {
	h.n = n
	p := h.create(in, ai.C(int64(n)))
	if h.size(in, p) != n {
		in.Undecided("New(%d) makes a table of %d slots", n, h.size(in, p))
	}
	var pats []int
	for x := 0; x < 1<<n; x++ {
		k := 0
		for i := 0; i < n; i++ {
			k += x >> i & 1
		}
		if k == count && (only == nil || only(x)) {
			pats = append(pats, x)
		}
	}
	pat := pats[0]
	if len(pats) > 1 {
		pat = pats[in.Choose(len(pats))]
	}
	h.fill(in, p, pat)
	return p
}

// fill gives the slots of a pattern keys and values.
func (h *hmap) fill(in *In, p *ai.Ptr, pat int) {
	var w ai.Word
	for i := 0; i < h.n; i++ {
		f := make([]Val, 3)
		if pat>>i&1 == 1 {
			k := h.newKey(-1, fmt.Sprintf("k%d", i))
			v := h.newVal(in, fmt.Sprintf("v%d", i))
			h.keys, h.vals, h.at = append(h.keys, k), append(h.vals, v), append(h.at, i)
			f[h.ek], f[h.ev], f[h.ef] = k, v, ai.B(true)
		} else {
			h.free = append(h.free, i)
			f[h.ek], f[h.ev], f[h.ef] = in.Zero(h.kv[0]), in.Zero(h.kv[1]), ai.B(false)
		}
		w = w.Cat(items(&ai.StructV{Typ: h.et, F: f}))
	}
	in.St.Mem[h.entries(in, p).Arr] = &ai.ArrV{W: w, Elem: h.et}
	if n := len(h.keys); n > 0 {
		if h.fl = h.lenField(in, p); h.fl >= 0 {
			s := in.Load(p).(*ai.StructV)
			f := append([]Val(nil), s.F...)
			f[h.fl] = ai.C(int64(n))
			in.StoreAt(p, &ai.StructV{Typ: s.Typ, F: f})
		}
	}
}

// lenField is the field that Put on a new map counts up.
func (h *hmap) lenField(in *In, p *ai.Ptr) int {
	s := h.t.Underlying().(*types.Struct)
	i := -1
	for k := 0; k < s.NumFields(); k++ {
		b, ok := s.Field(k).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		if v, ok := in.Load(p).(*ai.StructV).F[k].(Lin); ok && v.IsConst(0) && s.Field(k).Name() != "capacity" {
			if i >= 0 {
				in.Undecided("the representation of hashmap.Map is not the one specified: several counters")
			}
			i = k
		}
	}
	return i
}

type hmPair struct {
	k Lin
	v Val
}

func (h *hmap) pairs() []hmPair {
	var r []hmPair
	for i := range h.keys {
		r = append(r, hmPair{h.keys[i], h.vals[i]})
	}
	return r
}

func hmPairs(ps []hmPair) string {
	s := "{"
	for i, p := range ps {
		if i > 0 {
			s += ", "
		}
		s += fmt.Sprintf("%s: %s", p.k, ai.ValString(p.v))
	}
	return s + "}"
}

func (h *hmap) describe(in *In) string {
	s := fmt.Sprintf("a table of %d slots with", h.n)
	for i, k := range h.keys {
		s += fmt.Sprintf(" %s at %d", k, h.at[i])
		if g, ok := h.gh(in).homes[h.classOf(k)]; ok {
			s += fmt.Sprintf(" (hash %d mod %d)", g.r, g.m)
		}
	}
	var cs []int
	for c := range h.gh(in).homes {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		if c >= len(h.keys) {
			g := h.gh(in).homes[c]
			s += fmt.Sprintf(", another key (hash %d mod %d)", g.r, g.m)
		}
	}
	return s
}

// check checks that the map is a well-formed table of these pairs. It returns the
// size of the table.
func (h *hmap) check(in *In, op string, p *ai.Ptr, want []hmPair) int {
	es := h.entries(in, p)
	n := h.size(in, p)
	in.Check(n > 0 && n&(n-1) == 0, "size", "%s on %s leaves a table of %d slots", op, h.describe(in), n)
	w := in.Content(es)
	cls := make([]int, n)
	left := append([]hmPair(nil), want...)
	filled := 0
	var where []int
	for i := 0; i < n; i++ {
		cls[i] = -1
		e, ok := in.At(w, ai.C(int64(i))).(*ai.StructV)
		if !ok {
			in.Undecided("slot %d is %s", i, ai.ValString(in.At(w, ai.C(int64(i)))))
		}
		b, ok := e.F[h.ef].(ai.Bool)
		if !ok || b.K != ai.BTrue && b.K != ai.BFalse {
			in.Undecided("slot %d is filled: %s", i, ai.ValString(e.F[h.ef]))
		}
		if b.K == ai.BFalse {
			continue
		}
		filled++
		k, ok := e.F[h.ek].(Lin)
		c := -1
		if ok {
			c = h.classOf(k)
		}
		in.Check(c >= 0, "content", "%s on %s leaves slot %d with the key %s", op, h.describe(in), i, ai.ValString(e.F[h.ek]))
		found := -1
		for j, x := range left {
			if h.classOf(x.k) == c {
				found = j
			}
		}
		in.Check(found >= 0, "content", "%s on %s leaves slot %d with %s, want the table to hold %s", op, h.describe(in), i, k, hmPairs(want))
		in.Check(in.ValEq(e.F[h.ev], left[found].v), "content", "%s on %s: the value of %s is %s, want %s", op, h.describe(in), k, ai.ValString(e.F[h.ev]), ai.ValString(left[found].v))
		left = append(left[:found:found], left[found+1:]...)
		cls[i] = c
		where = append(where, i)
	}
	in.Check(len(left) == 0, "content", "%s on %s loses %s", op, h.describe(in), hmPairs(left))
	in.Check(filled < n, "free slot", "%s on %s leaves no free slot of %d", op, h.describe(in), n)
	for _, i := range where {
		c := cls[i]
		if h.stillThere(in, n, c, i, cls) {
			continue
		}
		for q := h.home(in, c, n); q != i; q = (q + 1) % n {
			in.Check(cls[q] >= 0, "probing", "%s on %s leaves a key at %d that is not found from its hash %d: slot %d is free", op, h.describe(in), i, h.home(in, c, n), q)
		}
	}
	sz := call(in, h.c.Fn("hashmap", "Map.Size"), h.kv, p)
	in.Check(in.ValEq(sz, ai.C(int64(len(want)))), "Size", "after %s on %s Size is %s, want %d", op, h.describe(in), ai.ValString(sz), len(want))
	return n
}

// stillThere: the key is where it was, and so are those before it.
func (h *hmap) stillThere(in *In, n, c, i int, cls []int) bool {
	if n != h.n {
		return false
	}
	if _, ok := h.gh(in).homes[c]; ok {
		return false
	}
	for j, k := range h.keys {
		if h.classOf(k) == c && h.at[j] == i {
			for q := i; !h.isFree(q); q = (q + n - 1) % n {
				if cls[q] < 0 {
					return false
				}
				if (q+n-1)%n == i {
					break
				}
			}
			return true
		}
	}
	return false
}

// query is a key like key i, or a new one.
func (h *hmap) query(i int) Lin {
	if i < len(h.keys) {
		return h.newKey(h.classOf(h.keys[i]), "q")
	}
	return h.newKey(-1, "q")
}

type hmLoad struct{ n, count int }

func hashmapSpec(c *Ctx) {
	seen := map[hmLoad]bool{}
	var todo []hmLoad
	see := func(n, count int) {
		l := hmLoad{n, count}
		if !seen[l] && (n <= 8 || c.Thorough && n == 16 && count <= 3) {
			seen[l] = true
			todo = append(todo, l)
		}
	}
	c.Run("New makes an empty table", func(in *In) {
		h := newHmap(c, in)
		caps := []int64{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 100}
		k := caps[in.Choose(len(caps))]
		h.n = int(k)
		p := h.create(in, ai.C(k))
		h.n = h.size(in, p)
		n := h.check(in, fmt.Sprintf("New(%d)", k), p, nil)
		see(n, 0)
	})
	if len(todo) == 0 {
		see(1, 0)
		see(2, 0)
		see(4, 0)
		see(8, 0)
	}
	get := c.TryFn("hashmap", "Map.Get")
	if get == nil {
		get = c.Fn("hashmap", "Map.Get")
	}
	for len(todo) > 0 {
		sort.Slice(todo, func(i, j int) bool {
			return todo[i].n < todo[j].n || todo[i].n == todo[j].n && todo[i].count < todo[j].count
		})
		l := todo[0]
		todo = todo[1:]
		of := fmt.Sprintf(" with %d of %d slots", l.count, l.n)
		c.Run("Get"+of, func(in *In) {
			h := newHmap(c, in)
			p := h.table(in, l.n, l.count)
			i := 0
			if l.count > 0 {
				i = in.Choose(l.count + 1)
			}
			q := h.query(i)
			r := call(in, get, h.kv, p, q)
			if i < l.count {
				in.Check(in.ValEq(res(r, 1), ai.B(true)), "Get", "Get of %s in %s finds nothing", h.keys[i], h.describe(in))
				in.Check(in.ValEq(res(r, 0), h.vals[i]), "Get", "Get of %s in %s is %s, want %s", h.keys[i], h.describe(in), ai.ValString(res(r, 0)), ai.ValString(h.vals[i]))
			} else {
				in.Check(in.ValEq(res(r, 1), ai.B(false)), "Get", "Get of an absent key in %s finds %s", h.describe(in), ai.ValString(res(r, 0)))
				in.Check(in.ValEq(res(r, 0), in.Zero(h.kv[1])), "Get", "Get of an absent key in %s gives %s", h.describe(in), ai.ValString(res(r, 0)))
			}
			h.check(in, "Get", p, h.pairs())
		})
		c.Run("Put"+of, func(in *In) {
			h := newHmap(c, in)
			var only func(int) bool
			if l.n == 8 && l.count > 3 && !c.Thorough {
				// growing makes for many partitions: two of the patterns
				only = func(x int) bool { return x == 0b11000011 || x == 0b01011100 }
			}
			p := h.tableOf(in, l.n, l.count, only)
			i := 0
			if l.count > 0 {
				i = in.Choose(l.count + 1)
			}
			q, v := h.query(i), intv(in, "v")
			call(in, c.Fn("hashmap", "Map.Put"), h.kv, p, q, v)
			want := h.pairs()
			op := "Put of an absent key"
			if i < l.count {
				want[i].v = v
				op = "Put of " + h.keys[i].String()
			} else {
				want = append(want, hmPair{q, v})
			}
			see(h.check(in, op, p, want), len(want))
		})
		c.Run("Remove"+of, func(in *In) {
			h := newHmap(c, in)
			p := h.table(in, l.n, l.count)
			i := 0
			if l.count > 0 {
				i = in.Choose(l.count + 1)
			}
			call(in, c.Fn("hashmap", "Map.Remove"), h.kv, p, h.query(i))
			want := h.pairs()
			op := "Remove of an absent key"
			if i < l.count {
				want = append(want[:i], want[i+1:]...)
				op = "Remove of " + h.keys[i].String()
			}
			see(h.check(in, op, p, want), len(want))
		})
		c.Run("Clear"+of, func(in *In) {
			h := newHmap(c, in)
			p := h.table(in, l.n, l.count)
			call(in, c.Fn("hashmap", "Map.Clear"), h.kv, p)
			see(h.check(in, "Clear", p, nil), 0)
		})
		c.Run("Each"+of, func(in *In) {
			h := newHmap(c, in)
			p := h.table(in, l.n, l.count)
			call(in, c.Fn("hashmap", "Map.Each"), h.kv, p, fnSym(in, "visit"))
			left := h.pairs()
			w := h.gh(in).visits
			for i := 0; i+1 < len(w); i += 2 {
				found := -1
				for j, x := range left {
					if in.ValEq(w[i].V, x.k) && in.ValEq(w[i+1].V, x.v) {
						found = j
					}
				}
				in.Check(found >= 0, "Each", "Each on %s visits %s, %s out of turn", h.describe(in), ai.ValString(w[i].V), ai.ValString(w[i+1].V))
				left = append(left[:found:found], left[found+1:]...)
			}
			in.Check(len(left) == 0, "Each", "Each on %s leaves out %s", h.describe(in), hmPairs(left))
			h.check(in, "Each", p, h.pairs())
		})
	}
}

// hashmapCopySpec: whatever happens to one of several copies, the others keep
// their content.
func hashmapCopySpec(c *Ctx) {
	loads := []hmLoad{{2, 1}, {4, 1}, {4, 2}, {8, 2}}
	if c.Thorough {
		loads = append(loads, hmLoad{8, 3})
	}
	type one struct {
		recv *ai.Ptr // the map or set
		p    *ai.Ptr // its map
		want []hmPair
		name string
	}
	ops := []string{"Put of a new key", "Put of a key", "Remove", "Clear"}
	apply := func(in *In, h *hmap, m func(string) *ssa.Function, x *one, op string, i int) {
		if len(x.want) == 0 && (op == "Put of a key" || op == "Remove") {
			in.Dead()
		}
		put := func(q Lin, v Val) {
			a := []Val{x.recv, q, v}
			if len(m("Put").Params) == 2 {
				a = a[:2]
			}
			call(in, m("Put"), h.kv, a...)
		}
		switch op {
		case "Put of a new key":
			q, v := h.newKey(-1, "q"), h.newVal(in, "v")
			put(q, v)
			x.want = append(x.want[:len(x.want):len(x.want)], hmPair{q, v})
		case "Put of a key":
			i %= len(x.want)
			q, v := h.newKey(h.classOf(x.want[i].k), "q"), h.newVal(in, "v")
			put(q, v)
			x.want = append([]hmPair(nil), x.want...)
			x.want[i].v = v
		case "Remove":
			i %= len(x.want)
			q := h.newKey(h.classOf(x.want[i].k), "q")
			call(in, m("Remove"), h.kv, x.recv, q)
			x.want = append(x.want[:i:i], x.want[i+1:]...)
		case "Clear":
			call(in, m("Clear"), h.kv, x.recv)
			x.want = nil
		}
	}
	run := func(pkg, name string, l hmLoad, from int, op string) {
		m := func(n string) *ssa.Function {
			if pkg == "hashset" {
				return c.Fn(pkg, "Set."+n)
			}
			return c.Fn(pkg, "Map."+n)
		}
		c.Run(name, func(in *In) {
			kv := params(c.Type("hashmap", "Map"))
			if pkg == "hashset" {
				kv = []types.Type{params(c.Type("hashset", "Set"))[0], types.NewStruct(nil, nil)}
			}
			h := newHmapOf(c, in, kv)
			var only func(int) bool
			if l.count > 1 && !c.Thorough {
				only = func(x int) bool { return x == 0b1001 || x == 0b10000001 || x == 0b00110000 }
			}
			p := h.tableOf(in, l.n, l.count, only)
			first := &one{p, p, h.pairs(), "the original"}
			unwrap := func(v Val) (recv, m *ai.Ptr) {
				if pkg == "hashmap" {
					m := in.ObjAt(v, h.t)
					return m, m
				}
				t := inst(c.Type("hashset", "Set"), kv[0])
				s := in.ObjAt(v, t)
				sv, ok := in.Load(s).(*ai.StructV)
				if !ok || len(sv.F) != 1 {
					in.Undecided("the representation of hashset.Set is not the one specified")
				}
				return s, in.ObjAt(sv.F[0], h.t)
			}
			if pkg == "hashset" {
				t := inst(c.Type("hashset", "Set"), kv[0])
				if s, ok := t.Underlying().(*types.Struct); !ok || s.NumFields() != 1 {
					in.Undecided("the representation of hashset.Set is not the one specified")
				}
				first.recv = object(in, t, "set", &ai.StructV{Typ: t, F: []Val{p}})
			}
			ms := []*one{first}
			copyOf := func(i int, name string) {
				r, p := unwrap(call(in, m("Copy"), h.kv, ms[i].recv))
				ms = append(ms, &one{r, p, ms[i].want, name})
			}
			copyOf(0, "the copy")
			switch from {
			case 1:
				copyOf(0, "the second copy")
			case 2:
				copyOf(1, "the copy of the copy")
			}
			done := ""
			step := func(op string) {
				i := in.Choose(len(ms))
				x := ms[i]
				j := 0
				if len(x.want) > 1 && (op == "Remove" || op == "Put of a key") {
					j = in.Choose(len(x.want))
				}
				apply(in, h, m, x, op, j)
				if done != "" {
					done += ", then "
				}
				done += op + " on " + x.name
				for _, y := range ms {
					h.check(in, y.name+" after "+done, y.p, y.want)
				}
			}
			step(op)
			step(ops[in.Choose(len(ops))])
		})
	}
	for _, l := range loads {
		of := fmt.Sprintf(", %d of %d slots", l.count, l.n)
		// one or two copies, of the original or of a copy; then an operation on
		// one of the three, and another on any
		for from := 0; from < 3; from++ {
			shape := []string{"a copy", "two copies", "a copy of a copy"}[from]
			for _, op := range ops {
				run("hashmap", op+" with "+shape+of, l, from, op)
				if from == 0 && l.n == 4 {
					run("hashset", "hashset: "+op+" with "+shape+of, l, from, op)
				}
			}
		}
	}
}
