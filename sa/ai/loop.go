package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Phis   []*ssa.Phi
}

func (l *Loop) Has(b *ssa.BasicBlock) bool { return l.Blocks[b] }

// LoopsOf finds the natural loops of a function.
func (in *In) LoopsOf(fn *ssa.Function) []*Loop {
	if ls, ok := in.loops[fn]; ok {
		return ls
	}
	by := map[*ssa.BasicBlock]*Loop{}
	var ls []*Loop
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := by[h]
			if l == nil {
				l = &Loop{Fn: fn, Header: h, Blocks: map[*ssa.BasicBlock]bool{h: true}}
				for _, x := range h.Instrs {
					if p, ok := x.(*ssa.Phi); ok {
						l.Phis = append(l.Phis, p)
					}
				}
				by[h] = l
				ls = append(ls, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.Blocks[x] {
					continue
				}
				l.Blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	in.loops[fn] = ls
	return ls
}

func (in *In) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	for _, l := range in.LoopsOf(fn) {
		if l.Header == b {
			return l
		}
	}
	return nil
}

// cell is a loop-carried location: a phi, a memory leaf, or the trace.
type cell struct {
	phi   *ssa.Phi
	obj   *Obj
	path  []Step
	trace bool
	init  Val
	form  form
}

func (c *cell) String() string {
	switch {
	case c.phi != nil:
		return c.phi.Name() + "(" + c.phi.Comment + ")"
	case c.trace:
		return "trace"
	}
	return (&Ptr{c.obj, c.path}).String()
}

// form is a closed form: the value of a cell as a function of the iteration.
type form interface {
	at(in *In, k Lin) Val
	String() string
}

type invForm struct{ v Val }

func (f invForm) at(in *In, k Lin) Val { return f.v }
func (f invForm) String() string       { return "inv" }

// affForm: init + k*step.
type affForm struct {
	init Lin
	step Lin
}

func (f affForm) at(in *In, k Lin) Val { return f.init.Add(in.Mul(k, f.step)) }
func (f affForm) String() string       { return f.init.String() + "+k*" + f.step.String() }

// cycForm: a position that advances by one and wraps from n to 0.
type cycForm struct {
	init, n Lin
	ok      bool
}

func (f cycForm) at(in *In, k Lin) Val {
	if k.IsConst(0) {
		return f.init
	}
	ufAxioms["cyc"] = func(s Sym, a []Lin) []Lin {
		return []Lin{V(s), a[2].Sub(V(s)).Plus(-1)}
	}
	return UFL("cyc", f.init, k, f.n)
}
func (f cycForm) String() string { return "cyc" }

// elemForm: element base + k*step of an opaque sequence (a list cursor).
type elemForm struct {
	a    *Atom
	base Lin
	step int64
}

func (f elemForm) at(in *In, k Lin) Val { return in.Elem(f.a, f.base.Add(k.Scale(f.step))) }
func (f elemForm) String() string       { return "elem" }

// fnForm is a form given by functions.
type fnForm struct {
	name string
	f    func(in *In, k Lin) Val
}

func (f fnForm) at(in *In, k Lin) Val { return f.f(in, k) }
func (f fnForm) String() string       { return f.name }

// sliceForm: a window whose bounds move.
type sliceForm struct {
	s             Slice
	off, len, cap form
}

func (f sliceForm) at(in *In, k Lin) Val {
	s := f.s
	s.Off, s.Len, s.Cap = f.off.at(in, k).(Lin), f.len.at(in, k).(Lin), f.cap.at(in, k).(Lin)
	s.NilB = False
	return s
}
func (f sliceForm) String() string { return "slice" }

// havocForm: any value of its type.
type havocForm struct {
	t   types.Type
	lo  *Lin // known lower bound
	hi  *Lin
	why string
}

func (f havocForm) at(in *In, k Lin) Val {
	s := NewSym("any")
	v := in.SymVal(f.t, "any", V(s))
	if l, ok := v.(Lin); ok {
		if f.lo != nil {
			in.Assume(GE(l.Sub(*f.lo)))
		}
		if f.hi != nil {
			in.Assume(GE(f.hi.Sub(l)))
		}
	}
	return v
}
func (f havocForm) String() string { return "any" }

// wordForm: a sequence to which every iteration appends (dir 0), or whose
// elements at base+k*dir are replaced.
type wordForm struct {
	init  Word
	dir   int64
	base  Lin
	cases []Case
	kvar  Sym
	elem  types.Type
	wrap  func(in *In, w Word, k Lin) Val
}

func (f wordForm) word(in *In, k Lin) Word {
	comp := func(n Lin) Word {
		return in.mkComp(f.kvar, n, f.cases)
	}
	switch f.dir {
	case 0:
		return f.init.Cat(comp(k))
	case 1:
		// every iteration wrote within the bounds
		in.Assume(LE(f.base.Add(k), f.init.Len()))
		pre, rest := in.cut(f.init, f.base)
		_, post := in.cut(rest, k)
		return in.Norm(pre.Cat(comp(k), post))
	default:
		// positions base-k+1 .. base
		cut := f.base.Sub(k).Plus(1)
		in.Assume(GE(cut))
		pre, rest := in.cut(f.init, cut)
		_, post := in.cut(rest, k)
		// the item at position cut+m was written by iteration k-1-m
		m := NewSym("m")
		var cs []Case
		e := k.Plus(-1).Sub(V(m))
		for _, c := range f.cases {
			cs = append(cs, Case{substLins(c.GE, f.kvar, e), substLins(c.NE, f.kvar, e), substWord(c.Items, f.kvar, e)})
		}
		return in.Norm(pre.Cat(in.mkComp(m, k, cs), post))
	}
}

func (f wordForm) at(in *In, k Lin) Val { return f.wrap(in, f.word(in, k), k) }
func (f wordForm) String() string {
	return fmt.Sprintf("word(dir %d, base %s, %v)", f.dir, f.base, f.cases)
}

// mkComp is the word of the items of iterations 0..n-1, simplified when it is
// a contiguous part of an opaque sequence or a repetition.
func (in *In) mkComp(k Sym, n Lin, cases []Case) Word {
	if n.IsConst(0) {
		return nil
	}
	if len(cases) == 1 && len(cases[0].Items) == 0 {
		return nil
	}
	if len(cases) == 1 && len(cases[0].Items) == 1 && cases[0].Items[0].Kind != PComp {
		it := cases[0].Items[0]
		v := it.V
		if it.Kind == PSeg && in.Must(EQ(it.Hi.Sub(it.Lo).Plus(-1))) {
			v = in.Elem(it.A, it.Lo)
		}
		if v != nil {
			if !MentionsVal(v, k) {
				return Word{Fill(v, n)}
			}
			if a, idx, ok := in.AsElem(v); ok {
				okA := true
				for _, x := range a.Args {
					if x.Mentions(k) {
						okA = false
					}
				}
				d := idx.Sub(V(k))
				if okA && !d.Mentions(k) {
					return Word{Seg(a, d, d.Add(n))}
				}
			}
			it = Item(v)
			cases = []Case{{cases[0].GE, cases[0].NE, Word{it}}}
		}
	}
	p := Piece{Kind: PComp, K: k, N: n, Cases: cases}
	if unitComp(p) {
		p.LenL = n
	} else {
		nonneg["complen"] = true
		p.LenL = UFL("complen", V(k), n)
		in.St.Facts.AddGE(p.LenL)
	}
	return Word{p}
}

// outcome is the end of a generic iteration at the back edge.
type outcome struct {
	phis   map[*ssa.Phi]Val
	st     *State
	ge, ne []Lin // facts gained in the iteration
}

func newFacts(f *Facts, base *Facts) (ge, ne []Lin) {
	for _, g := range f.ge {
		if !base.has[g.key()] {
			ge = append(ge, g)
		}
	}
	old := map[string]bool{}
	for _, d := range base.ne {
		old[d.key()] = true
	}
	for _, d := range f.ne {
		if !old[d.key()] {
			ne = append(ne, d)
		}
	}
	return
}

var DebugLoops bool
var debugCount int
var DebugMax = 40

// enterLoop replaces a loop by the closed forms of what it changes. On return
// the state is that at the loop header at a generic iteration. If done, the
// rest of the function was replaced and its result is ret.
func (in *In) enterLoop(fr *Frame, l *Loop, inits map[*ssa.Phi]Val) (ret Val, done bool) {
	in.LoopsSeen[l] = true
	if in.Hooks.Loop != nil {
		if r, ok := in.Hooks.Loop(in, fr, l, inits); ok {
			return r, true
		}
	}
	if in.Hooks.Cut != nil {
		in.peel = 0
		if in.Hooks.Cut(in, fr, l, inits) {
			fr.watches = append(fr.watches, &watch{loop: l, peel: in.peel, more: in.more})
			in.peel, in.more = 0, nil
			return nil, false
		}
	}
	if n := in.constTrips(fr, l, inits); n >= 0 {
		for k, v := range inits {
			fr.Env[k] = v
		}
		fr.watches = append(fr.watches, &watch{loop: l, peel: n + 2})
		return nil, false
	}
	in.summarise(fr, l, inits)
	return nil, false
}

// Unroll is called by a Cut hook to have at most n iterations taken one by one;
// more is called if there is another.
func (in *In) Unroll(fr *Frame, inits map[*ssa.Phi]Val, n int, more func()) bool {
	for k, v := range inits {
		fr.Env[k] = v
	}
	in.peel, in.more = n+1, more
	return true
}

// Stack are the functions being analysed, outermost first.
func (in *In) Stack() []*ssa.Function { return in.stack }

// Invariant is called by a Cut hook before it replaces the loop-carried values by
// arbitrary ones. It returns true if the first iterations are to be taken one by
// one instead, leaving out the others. What fails after a cut is not a violation:
// the invariant may be too weak.
func (in *In) Invariant(fr *Frame, l *Loop, inits map[*ssa.Phi]Val) (peel bool) {
	if in.PeelOnly > 0 {
		for k, v := range inits {
			fr.Env[k] = v
		}
		in.peel = in.PeelOnly + 1
		return true
	}
	in.CutLoops++
	in.St.Approx = append(in.St.Approx, "invariant of the loop of "+l.Fn.Name())
	return false
}

// Iterate analyses one iteration of a loop from the current state with the
// given phi values; back is called at each back edge (with the values of the
// next iteration), exit when control leaves the loop or the function returns.
func (in *In) Iterate(fr *Frame, l *Loop, phis map[*ssa.Phi]Val, end func(s Stop)) {
	base := fr
	in.inLoop++
	defer func() { in.inLoop-- }()
	in.sub(func() any {
		f := base.clone()
		for k, v := range phis {
			f.Env[k] = v
		}
		f.watches = append(f.watches, &watch{loop: l, sub: true})
		var s stop
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(stop); ok {
						s = x
						return
					}
					panic(r)
				}
			}()
			r := in.run(f, l.Header, nil)
			s = stop{kind: 2, ret: r}
		}()
		return s
	}, func(r any, pp *ProgPanic) {
		if pp != nil {
			end(Stop{Kind: StopPanic, PP: pp})
			return
		}
		s := r.(stop)
		end(Stop{Kind: StopKind(s.kind), Phis: s.phis, Ret: s.ret, To: s.to})
	})
}

// StopKind tells how an iteration ended.
type StopKind int

const (
	StopBack StopKind = iota
	StopExit
	StopReturn
	StopPanic
)

// Stop is the end of an analysed iteration.
type Stop struct {
	Kind StopKind
	Phis map[*ssa.Phi]Val
	Ret  Val
	To   *ssa.BasicBlock
	PP   *ProgPanic
}

// constTrips tells how often a loop with constant bounds runs, if at most 4
// times; else -1.
func (in *In) constTrips(fr *Frame, l *Loop, inits map[*ssa.Phi]Val) int {
	// the loop's test must be decided by constants
	ifi, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	eval := func(env map[ssa.Value]Val) (int64, int64, bool) {
		f := fr.clone()
		for k, v := range env {
			f.Env[k] = v
		}
		var ok bool
		var a, b int64
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case Undecided, deadPath, ProgPanic:
						ok = false
					default:
						panic(r)
					}
				}
			}()
			save := in.St.clone()
			defer func() { in.St = save }()
			cur := in.cur
			defer func() { in.cur = cur }()
			for _, x := range l.Header.Instrs {
				if _, isPhi := x.(*ssa.Phi); isPhi || x == ssa.Instruction(bo) {
					continue
				}
				switch x.(type) {
				case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr:
					in.cur = x
					in.instr(f, x)
				case *ssa.Call:
					c := x.(*ssa.Call)
					if _, isB := c.Call.Value.(*ssa.Builtin); !isB {
						return
					}
					in.instr(f, x)
				case *ssa.If:
				default:
					return
				}
			}
			x, ok1 := in.val(f, bo.X).(Lin)
			y, ok2 := in.val(f, bo.Y).(Lin)
			if !ok1 || !ok2 {
				return
			}
			var k1, k2 bool
			a, k1 = x.Const()
			b, k2 = y.Const()
			ok = k1 && k2
		}()
		return a, b, ok
	}
	env := map[ssa.Value]Val{}
	for k, v := range inits {
		env[k] = v
	}
	a, b, ok := eval(env)
	if !ok {
		return -1
	}
	d := b - a
	if d < 0 {
		d = -d
	}
	if d > 4 {
		return -1
	}
	return int(d) + 1
}

// diffVal reports the leaves in which two contents differ.
func (in *In) diffVal(a, b Val, p []Step, emit func(p []Step, a, b Val)) {
	if in.sameVal(a, b) {
		return
	}
	x, ok1 := a.(*StructV)
	y, ok2 := b.(*StructV)
	if ok1 && ok2 && len(x.F) == len(y.F) {
		for i := range x.F {
			in.diffVal(x.F[i], y.F[i], append(p[:len(p):len(p)], Step{F: i}), emit)
		}
		return
	}
	emit(p, a, b)
}

func cellKey(o *Obj, p []Step) string {
	return fmt.Sprint(o.ID, p)
}

// summarise finds closed forms for what the loop changes, checks them by
// induction, and sets the state at the header of a generic iteration.
func (in *In) summarise(fr *Frame, l *Loop, inits map[*ssa.Phi]Val) {
	st0 := in.St
	in.normMaps()
	var cells []*cell
	for _, p := range l.Phis {
		cells = append(cells, &cell{phi: p, init: inits[p], form: invForm{inits[p]}})
	}
	memCells := map[string]*cell{}
	tr := &cell{trace: true, init: StrV{st0.Trace}, form: invForm{StrV{st0.Trace}}}
	cells = append(cells, tr)

	k := NewSym("k")
	var outs []outcome
	var baseFacts Facts
	stable, forked := false, false
	last := map[*cell][]Val{}
	for round := 0; round < 8 && !stable; round++ {
		stable = true
		outs = nil
		forked = false
		type gen struct {
			cur map[*cell]Val
		}
		var refs []func()
		_ = refs
		// the generic iteration
		save := in.St
		in.St = st0.clone()
		in.St.Facts.AddGE(V(k))
		pos0 := in.p.pos
		cur := in.setForms(fr, cells, V(k))
		forked = forked || in.p.pos != pos0
		gst := in.St
		baseFacts = gst.Facts.Clone()
		phis := map[*ssa.Phi]Val{}
		for _, c := range cells {
			if c.phi != nil {
				phis[c.phi] = cur[c]
			}
		}
		type res struct {
			cell *cell
			vals []Val
			outs []outcome
		}
		results := map[*cell]*res{}
		var order []*cell
		nwrites := len(gst.Writes)
		in.Iterate(fr, l, phis, func(s Stop) {
			if s.Kind != StopBack {
				return
			}
			o := outcome{phis: s.Phis, st: in.St.clone()}
			o.ge, o.ne = newFacts(&in.St.Facts, &baseFacts)
			outs = append(outs, o)
		})
		// compare with the forms at k+1
		for oi := range outs {
			o := outs[oi]
			in.St = o.st.clone()
			note := func(c *cell, v Val) {
				r := results[c]
				if r == nil {
					r = &res{cell: c}
					results[c] = r
					order = append(order, c)
				}
				r.vals = append(r.vals, v)
				r.outs = append(r.outs, o)
			}
			for _, c := range cells {
				switch {
				case c.phi != nil:
					note(c, o.phis[c.phi])
				case c.trace:
					note(c, StrV{o.st.Trace})
				}
			}
			// memory
			for _, w := range o.st.Writes[min(nwrites, len(o.st.Writes)):] {
				if !w.Obj.Fresh && gst.Mem[w.Obj] == nil {
					in.Undecided("loop of %s changes objects of a family", l.Fn.Name())
				}
			}
			var objs []*Obj
			for ob := range gst.Mem {
				objs = append(objs, ob)
			}
			sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
			for _, ob := range objs {
				nv, ok := o.st.Mem[ob]
				if !ok {
					in.Undecided("object consumed in a loop")
				}
				in.diffVal(gst.Mem[ob], nv, nil, func(p []Step, a, b Val) {
					key := cellKey(ob, p)
					c := memCells[key]
					if c == nil {
						iv, _ := in.loadPath(st0.Mem[ob], ob.Typ, p)
						if st0.Mem[ob] == nil {
							return
						}
						c = &cell{obj: ob, path: p, init: iv, form: invForm{iv}}
						memCells[key] = c
						cells = append(cells, c)
						cur[c] = a
						stable = false
					}
				})
			}
			for _, c := range cells {
				if c.obj != nil {
					v, _ := in.loadPath(o.st.Mem[c.obj], c.obj.Typ, c.path)
					note(c, v)
				}
			}
		}
		for _, c := range order {
			r := results[c]
			last[c] = r.vals
			if len(r.vals) != len(outs) {
				// discovered late: some outcomes lack it
				stable = false
				continue
			}
			ok := true
			for i, v := range r.vals {
				in.St = r.outs[i].st.clone()
				if !in.fits(c, v, V(k).Plus(1)) {
					ok = false
					break
				}
			}
			if ok {
				continue
			}
			stable = false
			in.St = gst
			if DebugLoops && debugCount < DebugMax {
				debugCount++
				fmt.Printf("loop %s b%d round %d: cell %s form %s does not fit\n", l.Fn.Name(), l.Header.Index, round, c, c.form)
				for _, v := range r.vals {
					fmt.Printf("   cur %s -> %s\n", ValString(cur[c]), ValString(v))
				}
			}
			in.refine(fr, c, cur[c], r.vals, r.outs, k, round, nwrites)
		}
		in.St = save
	}
	if !stable {
		in.Undecided("loop of %s has no closed form", l.Fn.Name())
	}
	if DebugLoops && debugCount < DebugMax {
		debugCount++
		fmt.Printf("loop %s b%d stable, %d outcomes\n", l.Fn.Name(), l.Header.Index, len(outs))
		for _, o := range outs {
			fmt.Printf("   when %v, not zero %v\n", o.ge, o.ne)
		}
		for _, c := range cells {
			fmt.Printf("   %s = %s\n", c, c.form)
		}
	}
	// the generic iteration of the main analysis
	in.St = st0
	in.St.Facts.AddGE(V(k))
	cur := in.setForms(fr, cells, V(k))
	for _, c := range cells {
		if c.phi != nil {
			fr.Env[c.phi] = cur[c]
		}
		if h, ok := c.form.(havocForm); ok && h.why != "" {
			in.St.Approx = append(in.St.Approx, h.why)
		}
	}
	if forked {
		// outs are the iterations of one partition only
		in.St.Approx = append(in.St.Approx, "history of the loop of "+l.Fn.Name())
	} else {
		in.history(fr, l, k, cells, outs, last)
	}
	fr.watches = append(fr.watches, &watch{loop: l})
}

// normMaps simplifies the contents of all maps.
func (in *In) normMaps() {
	var objs []*Obj
	for o, v := range in.St.Mem {
		if m, ok := v.(*MapC); ok && len(m.Bulk) > 0 {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, o := range objs {
		in.St.Mem[o] = in.NormMap(in.St.Mem[o].(*MapC))
	}
}

// setForms sets every cell to its form at iteration k.
func (in *In) setForms(fr *Frame, cells []*cell, k Lin) map[*cell]Val {
	cur := map[*cell]Val{}
	for _, c := range cells {
		v := c.form.at(in, k)
		cur[c] = v
		switch {
		case c.obj != nil:
			in.St.Mem[c.obj] = in.storePath(in.St.Mem[c.obj], c.obj.Typ, c.path, v)
		case c.trace:
			in.St.Trace = v.(StrV).W
		}
	}
	return cur
}

// fits checks that the value at the end of an iteration is the form's value
// for the next one.
func (in *In) fits(c *cell, v Val, k1 Lin) bool {
	switch f := c.form.(type) {
	case havocForm:
		if l, ok := v.(Lin); ok {
			if f.lo != nil && !in.Must(GE(l.Sub(*f.lo))) {
				return false
			}
			if f.hi != nil && !in.Must(GE(f.hi.Sub(l))) {
				return false
			}
		}
		return true
	case growForm:
		s, ok := v.(Slice)
		if !ok {
			return false
		}
		return in.WordEq(in.Content(s), f.wf.word(in, k1))
	case cycForm:
		return f.ok
	case mapForm:
		return f.fits(in, v, k1)
	case flagForm:
		b, ok := v.(Bool)
		return ok && (b.K == f.set.K || in.sameVal(b, f.at(in, k1.Plus(-1))))
	}
	w := c.form.at(in, k1)
	if a, ok := v.(StrV); ok {
		b, ok := w.(StrV)
		return ok && in.WordEq(a.W, b.W)
	}
	return in.ValEq(v, w)
}

// growForm: a slice to which every iteration appends. Its storage is some new
// array (or that of the initial slice, the difference being unobservable
// through it).
type growForm struct {
	wf   wordForm
	init Slice
}

func (f growForm) at(in *In, k Lin) Val {
	if k.IsConst(0) {
		return f.init
	}
	w := f.wf.word(in, k)
	n := w.Len()
	c := V(NewSym("cap"))
	in.St.Facts.AddGE(c.Sub(n))
	return in.NewArr(f.wf.elem, w.Cat(Word{Fill(C(0), c.Sub(n))}), n, c)
}
func (f growForm) String() string { return "grow " + f.wf.String() }

func (in *In) refine(fr *Frame, c *cell, cur Val, vals []Val, outs []outcome, k Sym, round, nwrites int) {
	var t types.Type
	if c.phi != nil {
		t = SubstType(c.phi.Type(), fr.Tenv)
	}
	switch init := c.init.(type) {
	case Lin:
		if _, isInv := c.form.(invForm); isInv {
			// constant step?
			var step *Lin
			same := true
			for _, v := range vals {
				l, ok := v.(Lin)
				if !ok {
					same = false
					break
				}
				d := l.Sub(cur.(Lin))
				if d.Mentions(k) {
					same = false
				}
				if step == nil {
					step = &d
				} else if !step.Same(d) {
					same = false
				}
			}
			// a cursor along an opaque sequence
			if a, base, ok := in.AsElem(init); ok && c.isPtr(t) {
				good := true
				var st int64
				for i, v := range vals {
					b, idx, ok := in.AsElem(v)
					if !ok || !sameAtom(a, b) {
						good = false
						break
					}
					d, isC := idx.Sub(base).Const()
					if !isC || i > 0 && d != st {
						good = false
						break
					}
					st = d
				}
				if good && st != 0 {
					c.form = elemForm{a, base, st}
					return
				}
			}
			if same && step != nil && !c.isPtr(t) {
				c.form = affForm{init, *step}
				return
			}
			// cyclic position
			if f, ok := in.cyclic(init, cur, vals, outs); ok {
				c.form = f
				return
			}
		}
		if c.isPtr(t) {
			in.Undecided("pointer %s has no closed form in the loop", c)
		}
		if h, ok := c.form.(havocForm); ok {
			// bounds did not hold
			h.lo, h.hi = nil, nil
			c.form = h
			return
		}
		h := havocForm{t: types.Typ[types.Int], why: "value of " + c.String()}
		if t != nil {
			h.t = t
		}
		up, down := true, true
		for i, v := range vals {
			l, ok := v.(Lin)
			if !ok {
				up, down = false, false
				break
			}
			f := &outs[i].st.Facts
			if !f.EntailsGE(l.Sub(cur.(Lin))) {
				up = false
			}
			if !f.EntailsGE(cur.(Lin).Sub(l)) {
				down = false
			}
		}
		if up {
			h.lo = &init
		} else if down {
			h.hi = &init
		}
		c.form = h
	case Bool:
		if _, isInv := c.form.(invForm); isInv && in.refineFlag(c, init, cur.(Bool), vals) {
			return
		}
		tt := types.Type(types.Typ[types.Bool])
		c.form = havocForm{t: tt, why: "value of " + c.String()}
	case Slice:
		if in.refineSlice(fr, c, cur, vals, outs, k) {
			return
		}
		in.Undecided("slice %s has no closed form in the loop", c)
	case *ArrV:
		if in.refineWord(c, init.W, cur, vals, outs, k, nwrites, init.Elem) {
			return
		}
		in.Undecided("array %s has no closed form in the loop", c)
	case *StructV:
		// an object a specification turns into the sequence it stands for
		for _, v := range vals {
			if _, ok := v.(StrV); !ok {
				in.Undecided("cell %s (%s) has no closed form in the loop", c, ValString(c.init))
			}
		}
		cw, _ := cur.(StrV)
		wrap := func(in *In, w Word, k Lin) Val { return StrV{w} }
		if in.refineAppend(c, nil, cw.W, vals, outs, k, func(v Val, o outcome) Word { return v.(StrV).W }, wrap, nil) {
			return
		}
		in.Undecided("sequence %s has no closed form in the loop", c)
	case StrV:
		wrap := func(in *In, w Word, k Lin) Val { return StrV{w} }
		if in.refineAppend(c, init.W, cur.(StrV).W, vals, outs, k, func(v Val, o outcome) Word { return v.(StrV).W }, wrap, nil) {
			return
		}
		if in.refineDrop(c, init.W, cur.(StrV).W, vals, outs) {
			return
		}
		in.Undecided("sequence %s has no closed form in the loop", c)
	case *MapC:
		if in.refineMap(c, init, cur, vals, outs, k) {
			return
		}
		in.Undecided("map %s has no closed form in the loop", c)
	case *Ptr:
		in.Undecided("pointer %s has no closed form in the loop", c)
	default:
		if c.phi != nil {
			in.Undecided("value %s has no closed form in the loop", c)
		}
		in.Undecided("cell %s (%s) has no closed form in the loop", c, ValString(c.init))
	}
}

func (c *cell) isPtr(t types.Type) bool {
	if t == nil && c.obj != nil {
		t = c.obj.Typ
		for _, s := range c.path {
			if s.Idx == nil {
				if u, ok := under(t).(*types.Struct); ok {
					t = u.Field(s.F).Type()
				}
			}
		}
	}
	if t == nil {
		return false
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// cyclic recognises pos' = pos+1, or 0 where pos+1 reaches n.
func (in *In) cyclic(init Lin, cur Val, vals []Val, outs []outcome) (form, bool) {
	// the induction uses an arbitrary position, so the forms hold for any pos
	c0, ok := cur.(Lin)
	if !ok {
		return nil, false
	}
	var n *Lin
	for i, v := range vals {
		l, ok := v.(Lin)
		if !ok {
			return nil, false
		}
		d := l.Sub(c0)
		if d.IsConst(1) {
			continue
		}
		if !l.IsConst(0) && !outs[i].st.Facts.EntailsEQ(l) {
			return nil, false
		}
		// pos + 1 == n
		for _, g := range outs[i].ge {
			// pos+1 >= n or pos+1-n >= 0
			rest := c0.Plus(1).Sub(g)
			if rest.Mentions(0) {
				continue
			}
			r := rest
			if outs[i].st.Facts.EntailsEQ(c0.Plus(1).Sub(r)) && len(r.T) > 0 {
				n = &r
			}
		}
	}
	if n == nil {
		return nil, false
	}
	return cycForm{init: init, n: *n, ok: true}, true
}

func (in *In) refineSlice(fr *Frame, c *cell, cur Val, vals []Val, outs []outcome, k Sym) bool {
	init := c.init.(Slice)
	// a moving window on one array
	if _, grow := c.form.(growForm); !grow {
		same := init.Arr != nil
		for _, v := range vals {
			s, ok := v.(Slice)
			if !ok || s.Arr != init.Arr || !samePath(s.Path, init.Path) {
				same = false
			}
		}
		if same {
			part := func(get func(s Slice) Lin) (form, bool) {
				a := get(init)
				var d Lin
				for i, v := range vals {
					e := get(v.(Slice)).Sub(get(cur.(Slice)))
					if e.Mentions(k) || i > 0 && !e.Same(d) {
						return nil, false
					}
					d = e
				}
				return affForm{a, d}, true
			}
			o, ok1 := part(func(s Slice) Lin { return s.Off })
			n, ok2 := part(func(s Slice) Lin { return s.Len })
			cp, ok3 := part(func(s Slice) Lin { return s.Cap })
			if ok1 && ok2 && ok3 {
				if _, isW := c.form.(sliceForm); !isW {
					c.form = sliceForm{init, o, n, cp}
					return true
				}
			}
		}
	}
	elem := types.Type(nil)
	if c.phi != nil {
		if st, ok := under(SubstType(c.phi.Type(), fr.Tenv)).(*types.Slice); ok {
			elem = st.Elem()
		}
	}
	if elem == nil {
		for _, v := range vals {
			if s, ok := v.(Slice); ok && s.Arr != nil {
				elem = s.Arr.Typ
			}
		}
	}
	// appended to
	w0 := in.Content(init)
	if init.Arr == nil {
		w0 = nil
	}
	curW := in.Content(cur.(Slice))
	get := func(v Val, o outcome) Word { return in.Content(v.(Slice)) }
	tmp := &cell{form: c.form}
	if g, ok := c.form.(growForm); ok {
		tmp.form = g.wf
	}
	if !in.refineAppend(tmp, w0, curW, vals, outs, k, get, nil, elem) {
		return false
	}
	c.form = growForm{tmp.form.(wordForm), init}
	return true
}

// refineAppend: every iteration appends to a sequence.
func (in *In) refineAppend(c *cell, w0, cur Word, vals []Val, outs []outcome, k Sym, get func(Val, outcome) Word, wrap func(*In, Word, Lin) Val, elem types.Type) bool {
	var cases []Case
	for i, v := range vals {
		in.St = outs[i].st.clone()
		w := get(v, outs[i])
		items, ok := in.suffix(cur, w)
		if !ok {
			return false
		}
		cases = append(cases, Case{GE: outs[i].ge, NE: outs[i].ne, Items: items})
	}
	k, cases = rename(k, mergeCases(in, cases))
	c.form = wordForm{init: w0, dir: 0, cases: cases, kvar: k, elem: elem, wrap: wrap}
	return true
}

// refineDrop: every iteration takes the first item of a sequence, or the last.
func (in *In) refineDrop(c *cell, w0, cur Word, vals []Val, outs []outcome) bool {
	if _, ok := c.form.(invForm); !ok {
		return false
	}
	try := func(front bool) bool {
		for i, v := range vals {
			in.St = outs[i].st.clone()
			w := v.(StrV).W
			if !in.Must(EQ(cur.Len().Sub(w.Len()).Plus(-1))) {
				return false
			}
			lo, hi := C(1), cur.Len()
			if !front {
				lo, hi = C(0), cur.Len().Plus(-1)
			}
			if !in.Always(func() bool { return in.wordEq(in.Sub(cur, lo, hi), w) }) {
				return false
			}
		}
		return true
	}
	switch {
	case try(true):
		c.form = fnForm{"drop", func(in *In, k Lin) Val {
			_, post := in.Split(w0, k)
			return StrV{post}
		}}
	case try(false):
		c.form = fnForm{"drop-last", func(in *In, k Lin) Val {
			pre, _ := in.Split(w0, w0.Len().Sub(k))
			return StrV{pre}
		}}
	default:
		return false
	}
	return true
}

// rename gives the cases a bound iteration symbol of their own.
func rename(k Sym, cs []Case) (Sym, []Case) {
	b := NewSym("j")
	var r []Case
	for _, c := range cs {
		r = append(r, Case{substLins(c.GE, k, V(b)), substLins(c.NE, k, V(b)), substWord(c.Items, k, V(b))})
	}
	return b, r
}

// mergeCases: if all cases add the same items their conditions do not matter.
func mergeCases(in *In, cs []Case) []Case {
	for _, c := range cs[1:] {
		if !in.sameWord(c.Items, cs[0].Items) {
			return cs
		}
	}
	return []Case{{Items: cs[0].Items}}
}

// suffix is what w has after the prefix p.
func (in *In) suffix(p, w Word) (Word, bool) {
	n := p.Len()
	for i := range p {
		if i < len(w) && in.sameWord(p[:i+1], w[:i+1]) {
			if i == len(p)-1 {
				return w[len(p):], true
			}
			continue
		}
		break
	}
	if len(p) == 0 {
		return w, true
	}
	// general: split at len(p) and compare, without case splits
	var pre, post Word
	cnt := 0
	in.sub(func() any {
		a, b := in.Split(w, n)
		return [2]Word{a, b}
	}, func(r any, pp *ProgPanic) {
		cnt++
		if pp == nil {
			x := r.([2]Word)
			pre, post = x[0], x[1]
		}
	})
	if cnt != 1 {
		return nil, false
	}
	if !in.WordEq(pre, p) {
		return nil, false
	}
	return in.Norm(post), true
}

// refineWord: elements of an array at positions that move with the iteration
// are replaced.
func (in *In) refineWord(c *cell, w0 Word, cur Val, vals []Val, outs []outcome, k Sym, nwrites int, elem types.Type) bool {
	var pos *Lin
	// the positions written
	for _, o := range outs {
		for _, w := range o.st.Writes[min(nwrites, len(o.st.Writes)):] {
			if w.Obj != c.obj {
				continue
			}
			if len(w.Path) <= len(c.path) || !samePath(w.Path[:len(c.path)], c.path) {
				continue
			}
			ix := w.Path[len(c.path)].Idx
			if ix == nil {
				return false
			}
			if sv, isRange := w.Val.(StrV); isRange && !in.Must(EQ(sv.W.Len().Plus(-1))) {
				return false
			}
			if pos == nil {
				pos = ix
			} else if !o.st.Facts.EntailsEQ(pos.Sub(*ix)) {
				return false
			}
		}
	}
	if pos == nil {
		return false
	}
	dir := pos.Coef(k)
	base := pos.Sub(V(k).Scale(dir))
	if base.Mentions(k) {
		return false
	}
	if dir != 1 && dir != -1 {
		if _, isInv := c.form.(invForm); isInv {
			// the position has no closed form yet: look again in the next round
			return dir == 0 && in.retry(c)
		}
		return false
	}
	var cases []Case
	for i, v := range vals {
		in.St = outs[i].st.clone()
		a, ok := v.(*ArrV)
		if !ok {
			return false
		}
		var item Val
		cnt := 0
		in.sub(func() any { return TupleV{in.At(a.W, *pos)} }, func(r any, pp *ProgPanic) {
			cnt++
			if pp == nil {
				item = r.(TupleV)[0]
			}
		})
		if cnt != 1 || item == nil {
			return false
		}
		cases = append(cases, Case{GE: outs[i].ge, NE: outs[i].ne, Items: Word{Item(item)}})
	}
	k, cases = rename(k, mergeCases(in, cases))
	c.form = wordForm{init: w0, dir: dir, base: base, cases: cases, kvar: k, elem: elem, wrap: func(in *In, w Word, k Lin) Val { return &ArrV{w, elem} }}
	return true
}

// retry leaves a cell's form for the next round.
func (in *In) retry(c *cell) bool { return true }

func join(s []string) string { return strings.Join(s, ", ") }
