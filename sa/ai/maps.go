package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// NormMap simplifies the effect of loops on a map: an override that is the
// next iteration of a loop joins it; a loop over all keys of a map that copies
// it into an empty map, or deletes all, is a copy or a clear.
func (in *In) NormMap(m *MapC) *MapC {
	if len(m.Bulk) == 0 {
		return m
	}
	for i := range m.Bulk {
		b := m.Bulk[i]
		for len(b.Cases) == 1 && b.After < len(m.Over) && (i == len(m.Bulk)-1 || m.Bulk[i+1].After > b.After) {
			// one more iteration after those of the loop
			o, c := m.Over[b.After], b.Cases[0].subst(b.J, b.N)
			if c.None || o.Present == c.Del || !in.eqv(o.Key, c.Key) || o.Present && !in.eqv(o.Val, c.Val) {
				break
			}
			m = m.clone()
			m.Over = append(m.Over[:b.After], m.Over[b.After+1:]...)
			b.N = b.N.Plus(1)
			m.Bulk[i] = b
			for x := i + 1; x < len(m.Bulk); x++ {
				m.Bulk[x].After--
			}
		}
	}
	for i := len(m.Bulk) - 1; i >= 0; i-- {
		b := m.Bulk[i]
		if len(b.Cases) != 1 || b.Cases[0].None {
			continue
		}
		c := b.Cases[0]
		snap, it, ok := in.enumKey(c.Key, b.J)
		if !ok || !in.LinEq(b.N, in.MapLen(snap)) {
			continue
		}
		earlier := *m
		earlier.Over, earlier.Bulk = m.Over[:b.After], m.Bulk[:i]
		var base *MapC
		switch {
		case c.Del && (in.sameMap(&earlier, snap) || earlier.Base.Same(snap.Base) && len(snap.Over)+len(snap.Bulk)+i+b.After == 0):
			base = &MapC{Base: C(0), Len: C(0)}
		case !c.Del && earlier.Base.IsConst(0) && b.After == 0 && i == 0:
			// the value is what the map enumerated has for the key
			same := in.Always(func() bool {
				in.Assume(GE(V(b.J)))
				in.Assume(LT(V(b.J), b.N))
				k := in.SymVal(m.K, "map.key", it, V(b.J))
				v, _ := in.MapContentGet(snap, k)
				return in.ValEq(v, c.Val)
			})
			if !same {
				continue
			}
			base = snap
		}
		if base == nil {
			continue
		}
		n := m.clone()
		n.Base = base.Base
		n.Over = append(append([]MapE(nil), base.Over...), m.Over[b.After:]...)
		n.Bulk = append(append([]MapBulk(nil), base.Bulk...), m.Bulk[i+1:]...)
		for x := len(base.Bulk); x < len(n.Bulk); x++ {
			n.Bulk[x].After += len(base.Over) - b.After
		}
		return in.NormMap(n)
	}
	return m
}

// MapLen is the size of a map.
func (in *In) MapLen(m *MapC) Lin {
	if in.Hooks.MapLen != nil {
		if l, ok := in.Hooks.MapLen(in, m); ok {
			return l
		}
	}
	return m.Len
}

// enumKey recognises the J-th key of an iteration over a map.
func (in *In) enumKey(k Val, j Sym) (snap *MapC, it Lin, ok bool) {
	l, ok := k.(Lin)
	if !ok {
		return nil, Lin{}, false
	}
	it, idx, ok := MapKey(l)
	if !ok || !idx.Same(V(j)) {
		return nil, Lin{}, false
	}
	s, _ := it.Single()
	snap = in.iters[s]
	return snap, it, snap != nil
}

// MapKey recognises an enumerated key.
func MapKey(l Lin) (it, idx Lin, ok bool) {
	s, ok := l.Single()
	if !ok {
		return
	}
	f, a := s.App()
	if f != "map.key" || len(a) != 2 {
		return Lin{}, Lin{}, false
	}
	return a[0], a[1], true
}

func (in *In) sameBulk(b, d *MapBulk) bool {
	if b.After != d.After || !in.LinEq(b.N, d.N) || len(b.Cases) != len(d.Cases) {
		return false
	}
	for i, c := range b.Cases {
		e := d.Cases[i]
		if b.J != d.J {
			e = e.subst(d.J, V(b.J))
		}
		if !sameLins(c.GE, e.GE) || !sameLins(c.NE, e.NE) || !in.sameChange(&c, &e) {
			return false
		}
	}
	return true
}

func (in *In) sameChange(c, e *BulkCase) bool {
	if c.None != e.None || c.Del != e.Del {
		return false
	}
	return c.None || in.sameVal(c.Key, e.Key) && (c.Del || in.sameVal(c.Val, e.Val))
}

// bulkGet looks a key up in the effect of a loop; hit tells whether the loop
// decides the lookup.
func (in *In) bulkGet(m *MapC, b *MapBulk, k Val) (v Val, has Bool, hit bool) {
	j := NewSym("j")
	touched := false
	in.sub(func() any {
		in.Assume(GE(V(j)))
		in.Assume(LT(V(j), b.N))
		t := false
		for _, c := range b.Cases {
			if !c.None {
				d := c.subst(b.J, V(j))
				t = t || in.Branch(in.eqCond(d.Key, k, m.K))
			}
		}
		return t
	}, func(r any, pp *ProgPanic) { touched = touched || pp != nil || r.(bool) })
	if !touched {
		return nil, False, false
	}
	// all cases must be about the key the iteration enumerates
	var snap *MapC
	var it Lin
	for _, c := range b.Cases {
		if c.None {
			continue
		}
		s, i, ok := in.enumKey(c.Key, b.J)
		if !ok && len(b.Cases) == 1 {
			if v, has, hit, ok := in.seqBulk(m, b, k); ok {
				return v, has, hit
			}
		}
		if !ok || snap != nil && !i.Same(it) {
			in.Undecided("lookup in a map changed by a loop")
		}
		snap, it = s, i
	}
	kl := in.keyLin(k)
	var w Lin
	if i, idx, ok := MapKey(kl); ok && i.Same(it) {
		w = idx
	} else {
		if _, h := in.MapContentGet(snap, k); h.K == BFalse {
			return nil, False, false
		}
		w = UFL("map.idx", it, kl)
		in.Assume(GE(w))
		in.Assume(LT(w, in.MapLen(snap)))
	}
	if !in.Branch(LT(w, b.N)) || !in.Branch(GE(w)) {
		return nil, False, false
	}
	for i := range b.Cases {
		c := b.Cases[i].subst(mapKeySym(it, V(b.J)), kl)
		c = c.subst(b.J, w)
		if !in.holds(c.GE, c.NE) {
			continue
		}
		switch {
		case c.None:
			return nil, False, false
		case c.Del:
			return in.Zero(m.V), False, true
		}
		return c.Val, True, true
	}
	in.Dead() // some case applies
	return nil, False, false
}

func mapKeySym(it, j Lin) Sym {
	s, _ := UFL("map.key", it, j).Single()
	return s
}

// holds partitions on a conjunction.
func (in *In) holds(ge, ne []Lin) bool {
	for _, g := range ge {
		if !in.Branch(GE(g)) {
			return false
		}
	}
	for _, g := range ne {
		if !in.Branch(NE(g)) {
			return false
		}
	}
	return true
}

// MapContentGet is a lookup in a map content.
func (in *In) MapContentGet(c *MapC, k Val) (Val, Bool) {
	nb := len(c.Bulk)
	var rv Val
	var rh Bool
	bulks := func(i int) bool {
		for nb > 0 && c.Bulk[nb-1].After >= i {
			nb--
			v, h, hit := in.bulkGet(c, &c.Bulk[nb], k)
			if hit {
				rv, rh = v, h
				return true
			}
		}
		return false
	}
	for i := len(c.Over) - 1; i >= 0; i-- {
		if bulks(i + 1) {
			return rv, rh
		}
		o := c.Over[i]
		if in.Branch(in.eqCond(o.Key, k, c.K)) {
			if o.Present {
				return o.Val, True
			}
			return in.Zero(c.V), False
		}
	}
	if bulks(0) {
		return rv, rh
	}
	if c.Base.IsConst(0) {
		return in.Zero(c.V), False
	}
	kl := in.keyLin(k)
	bool01["map.has"] = true
	if it, idx, ok := MapKey(kl); ok {
		// a key enumerated from the same content is present
		s, _ := it.Single()
		if snap := in.iters[s]; snap != nil && snap.Base.Same(c.Base) && len(snap.Over)+len(snap.Bulk) == 0 {
			if in.Must(GE(idx)) && in.Must(LT(idx, in.MapLen(snap))) {
				in.Assume(EQ(UFL("map.has", c.Base, kl).Plus(-1)))
			}
		}
	}
	if in.Hooks.MapHas != nil {
		if v, has, ok := in.Hooks.MapHas(in, c.Base, kl, k); ok {
			if !has {
				return in.Zero(c.V), False
			}
			return v, True
		}
	}
	has := BoolSym(UFL("map.has", c.Base, kl))
	// congruence with keys known to be equal
	for _, s := range ufByFn["map.has"] {
		_, a := s.App()
		if len(a) == 2 && a[0].Same(c.Base) && !a[1].Same(kl) && in.Must(EQ(a[1].Sub(kl))) {
			in.Assume(EQ(V(s).Sub(UFL("map.has", c.Base, kl))))
			kl = a[1]
			break
		}
	}
	if in.Branch(has) {
		return in.SymVal(c.V, "map.val", c.Base, kl), True
	}
	return in.Zero(c.V), False
}

func (in *In) MapSet(m, k, v Val, mt *types.Map) {
	c, o := in.mapOf(m, mt)
	if c == nil {
		in.panicProg("assignment to entry in nil map")
	}
	has := False
	if in.Hooks.MapLen == nil {
		_, has = in.MapContentGet(c, k)
	}
	n := c.clone()
	n.Over = append(n.Over, MapE{k, v, true})
	if has.K == BFalse {
		n.Len = n.Len.Plus(1)
	}
	in.mapWrite(o, n, k, v)
}

func (in *In) mapWrite(o *Obj, n *MapC, kv ...Val) {
	var t Val
	if len(kv) > 0 {
		t = TupleV(kv)
	}
	in.St.Writes = append(in.St.Writes, Write{Obj: o, Pos: in.Pos(), Val: t})
	if in.Hooks.Store != nil {
		in.Hooks.Store(in, &Ptr{Obj: o}, t)
	}
	in.St.Mem[o] = n
}

func (in *In) MapDelete(m, k Val, mt *types.Map) {
	c, o := in.mapOf(m, mt)
	if c == nil {
		return
	}
	if in.Hooks.MapLen == nil {
		if _, has := in.MapContentGet(c, k); has.K == BFalse {
			return
		}
	}
	n := c.clone()
	n.Over = append(n.Over, MapE{k, nil, false})
	n.Len = n.Len.Plus(-1)
	in.mapWrite(o, n, k)
}

func (in *In) MapClear(m Val, mt *types.Map) {
	c, o := in.mapOf(m, mt)
	if c == nil {
		return
	}
	in.mapWrite(o, &MapC{Base: C(0), Len: C(0), K: mt.Key(), V: mt.Elem()})
}

// rangeMap starts an iteration over a map.
func (in *In) rangeMap(fr *Frame, x *ssa.Range, mt *types.Map) {
	o := in.Alloc(types.Typ[types.Int], "iter", C(0))
	mv := in.val(fr, x.X)
	it := NewSym("iter")
	if c, _ := in.mapOf(mv, mt); c != nil {
		in.iters[it] = c
	}
	in.setv(fr, x, TupleV{&Ptr{Obj: o}, mv, V(it)})
}

// next is one step of a range over a map. The iteration enumerates the keys
// present when it started as map.key(iteration, 0..len-1).
func (in *In) next(fr *Frame, x *ssa.Next) {
	if x.IsString {
		in.Undecided("range over a string")
	}
	it := in.val(fr, x.Iter).(TupleV)
	rg := x.Iter.(*ssa.Range)
	mt := under(in.typ(fr, rg.X.Type())).(*types.Map)
	pos := it[0].(*Ptr)
	if in.Exact {
		in.nextExact(fr, x, it, pos, mt)
		return
	}
	j := in.lin(in.Load(pos))
	its, _ := it[2].(Lin).Single()
	snap := in.iters[its]
	if snap == nil {
		in.setv(fr, x, TupleV{False, in.Zero(mt.Key()), in.Zero(mt.Elem())})
		return
	}
	n := in.MapLen(snap)
	if !in.Branch(LT(j, n)) {
		in.setv(fr, x, TupleV{False, in.Zero(mt.Key()), in.Zero(mt.Elem())})
		return
	}
	k := in.SymVal(mt.Key(), "map.key", it[2].(Lin), j)
	in.St.Mem[pos.Obj] = j.Plus(1)
	c, _ := in.mapOf(it[1], mt)
	if c == nil || !in.ownChanges(snap, c, it[2].(Lin)) {
		in.Undecided("a map changes while it is enumerated")
	}
	w, has := in.MapContentGet(snap, k)
	if has.K == BFalse {
		in.Dead() // an enumerated key is present
	}
	if c != snap {
		if u, h := in.MapContentGet(c, k); h.K == BTrue {
			w = u
		} else {
			in.Undecided("a map changes while it is enumerated")
		}
	}
	in.setv(fr, x, TupleV{True, k, w})
}

// nextExact is one step of a range over a map of known keys, in any order.
func (in *In) nextExact(fr *Frame, x *ssa.Next, it TupleV, pos *Ptr, mt *types.Map) {
	done := func() { in.setv(fr, x, TupleV{False, in.Zero(mt.Key()), in.Zero(mt.Elem())}) }
	its, _ := it[2].(Lin).Single()
	snap := in.iters[its]
	c, _ := in.mapOf(it[1], mt)
	if snap == nil || c == nil {
		done()
		return
	}
	seen, _ := in.Load(pos).(TupleV)
	isIn := func(k Val, ks []Val) bool {
		for _, q := range ks {
			if in.Branch(in.eqCond(q, k, mt.Key())) {
				return true
			}
		}
		return false
	}
	var first []Val
	for _, e := range in.MapEntries(snap) {
		first = append(first, e.Key)
	}
	var cands []MapE
	sure := false
	for _, e := range in.MapEntries(c) {
		if !isIn(e.Key, seen) {
			cands = append(cands, e)
			sure = sure || isIn(e.Key, first)
		}
	}
	if len(cands) == 0 || !sure && in.Choose(2) == 0 {
		// what was added since may or may not be met
		done()
		return
	}
	i := 0
	if len(cands) > 1 {
		i = in.Choose(len(cands))
	}
	in.St.Mem[pos.Obj] = append(append(TupleV(nil), seen...), cands[i].Key)
	in.setv(fr, x, TupleV{True, cands[i].Key, cands[i].Val})
}

// MapEntries are the entries of a map of known keys.
func (in *In) MapEntries(c *MapC) []MapE {
	if !c.Base.IsConst(0) || len(c.Bulk) > 0 {
		in.Undecided("the keys of a map are not known")
	}
	var r []MapE
next:
	for _, o := range c.Over {
		for i := range r {
			if in.Branch(in.eqCond(r[i].Key, o.Key, c.K)) {
				if o.Present {
					r[i].Val = o.Val
				} else {
					r = append(r[:i:i], r[i+1:]...)
				}
				continue next
			}
		}
		if o.Present {
			r = append(r, o)
		}
	}
	return r
}

// ownChanges tells whether all changes of a map since an iteration over it
// started are of keys the iteration met.
func (in *In) ownChanges(snap, c *MapC, it Lin) bool {
	if snap == c {
		return true
	}
	if !snap.Base.Same(c.Base) || len(c.Over) < len(snap.Over) || len(c.Bulk) < len(snap.Bulk) {
		return false
	}
	own := func(k Val) bool {
		l, ok := k.(Lin)
		if !ok {
			return false
		}
		i, _, ok := MapKey(l)
		return ok && i.Same(it)
	}
	for i, o := range c.Over {
		if i < len(snap.Over) {
			if p := snap.Over[i]; p.Present != o.Present || !in.sameVal(o.Key, p.Key) || o.Present && !in.sameVal(o.Val, p.Val) {
				return false
			}
		} else if !own(o.Key) {
			return false
		}
	}
	for i := range c.Bulk {
		if i < len(snap.Bulk) {
			if !in.sameBulk(&c.Bulk[i], &snap.Bulk[i]) {
				return false
			}
			continue
		}
		for _, b := range c.Bulk[i].Cases {
			if !b.None && !own(b.Key) {
				return false
			}
		}
	}
	return true
}

// mapForm: iteration j does what the case that holds says.
type mapForm struct {
	init *MapC
	b    MapBulk
	dlen *int64 // change of the size by each iteration
}

func (f mapForm) at(in *In, k Lin) Val {
	if k.IsConst(0) {
		return f.init
	}
	m := f.init.clone()
	b := f.b
	b.N = k
	b.After = len(m.Over)
	m.Bulk = append(m.Bulk, b)
	if f.dlen != nil {
		m.Len = m.Len.Add(k.Scale(*f.dlen))
	} else {
		nonneg["map.bulklen"] = true
		m.Len = UFL("map.bulklen", m.Len, V(b.J), k)
	}
	return m
}
func (f mapForm) String() string { return "map" }

// fits checks one iteration of a loop that changes a map by cases.
func (f mapForm) fits(in *In, v Val, k1 Lin) bool {
	w := f.at(in, k1).(*MapC)
	m, ok := v.(*MapC)
	if !ok {
		return false
	}
	if len(f.b.Cases) == 1 {
		return in.sameMap(m, w)
	}
	k := k1.Plus(-1)
	cur, _ := f.at(in, k).(*MapC)
	if len(m.Over) < len(cur.Over) || len(m.Over) > len(cur.Over)+1 || len(m.Bulk) != len(cur.Bulk) {
		return false
	}
	got := BulkCase{None: true}
	head := *m
	if len(m.Over) > len(cur.Over) {
		o := m.Over[len(cur.Over)]
		got = BulkCase{Del: !o.Present, Key: o.Key, Val: o.Val}
		head.Over = m.Over[:len(cur.Over)]
	}
	head.Len = cur.Len
	if !in.sameMap(&head, cur) || in.Hooks.MapLen == nil && !in.LinEq(m.Len, w.Len) {
		return false
	}
	for i := range f.b.Cases {
		c := f.b.Cases[i].subst(f.b.J, k)
		all := true
		for _, g := range c.GE {
			all = all && in.Must(GE(g))
		}
		for _, g := range c.NE {
			all = all && in.Must(NE(g))
		}
		if all {
			return in.sameChange(&c, &got)
		}
	}
	return false
}

func (in *In) refineMap(c *cell, init *MapC, cur Val, vals []Val, outs []outcome, k Sym) bool {
	cm := cur.(*MapC)
	j := NewSym("j")
	f := mapForm{init: init, b: MapBulk{J: j}}
	for i, v := range vals {
		m, ok := v.(*MapC)
		if !ok {
			return false
		}
		n := len(m.Over) - len(cm.Over)
		if n < 0 || n > 1 || len(m.Bulk) != len(cm.Bulk) {
			return false
		}
		nb := BulkCase{GE: outs[i].ge, NE: outs[i].ne, None: true}
		if n == 1 {
			e := m.Over[len(m.Over)-1]
			nb = BulkCase{GE: outs[i].ge, NE: outs[i].ne, Del: !e.Present, Key: e.Key, Val: e.Val}
		}
		f.b.Cases = append(f.b.Cases, nb.subst(k, V(j)))
		d, isC := m.Len.Sub(cm.Len).Const()
		if !isC || i > 0 && (f.dlen == nil || *f.dlen != d) {
			f.dlen = nil
		} else {
			f.dlen = &d
		}
	}
	if len(f.b.Cases) == 0 {
		return false
	}
	for t := range f.b.Cases {
		same := true
		for i := range f.b.Cases {
			x, y := f.b.Cases[i].subst(j, V(k)), f.b.Cases[t].subst(j, V(k))
			save := in.St
			in.St = outs[i].st.clone()
			same = same && x.None == y.None && x.Del == y.Del && (x.None || in.eqv(x.Key, y.Key) && (x.Del || in.eqv(x.Val, y.Val)))
			in.St = save
		}
		if !same {
			continue
		}
		f.b.Cases = f.b.Cases[t : t+1]
		f.b.Cases[0].GE, f.b.Cases[0].NE = nil, nil
		if f.b.Cases[0].None {
			return false
		}
		break
	}
	c.form = f
	return true
}

// LastIdx is the position in [0,n) of an element of the part of a sequence
// from lo on that equals x, or -1.
func (in *In) LastIdx(a *Atom, lo, n, x Lin) Lin {
	args := append(a.Args[:len(a.Args):len(a.Args)], lo, n, x)
	i := UFL("seq.idx:"+a.Name, args...)
	in.Assume(GE(i.Plus(1)))
	in.Assume(LT(i, n))
	if in.Branch(GE(i)) {
		in.Assume(EQ(in.keyLin(in.Elem(a, lo.Add(i))).Sub(x)))
	}
	return i
}

// seqBulk looks a key up in the effect of a loop over the elements of a
// sequence.
func (in *In) seqBulk(m *MapC, b *MapBulk, k Val) (v Val, has Bool, hit, ok bool) {
	c := b.Cases[0]
	a, idx, ok := in.AsElem(c.Key)
	if !ok || !c.Del && MentionsVal(c.Val, b.J) {
		return nil, False, false, false
	}
	e, step := idx.Subst(b.J, C(0)), idx.Coef(b.J)
	if step != 1 && step != -1 || e.Add(V(b.J).Scale(step)).Sub(idx).IsConst(0) == false {
		return nil, False, false, false
	}
	if step < 0 {
		e = e.Sub(b.N).Plus(1)
	}
	i := in.LastIdx(a, e, b.N, in.keyLin(k))
	if !in.Branch(GE(i)) {
		return nil, False, false, true
	}
	if c.Del {
		return in.Zero(m.V), False, true, true
	}
	return c.Val, True, true, true
}
