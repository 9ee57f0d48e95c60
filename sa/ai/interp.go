package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control: trace partitions ----

type deadPath struct{}

// Undecided is raised when the analysed code uses a construct the abstraction
// does not cover, so that no verdict is possible.
type Undecided struct{ Msg, Pos string }

// ProgPanic is a panic of the analysed program.
type ProgPanic struct{ Msg, Pos string }

type path struct {
	key   string // of the point where the exploration started
	nsub  int    // explorations started on this path
	ch, n []int
	pos   int
}

func (p *path) next() bool {
	for len(p.ch) > 0 {
		i := len(p.ch) - 1
		p.ch[i]++
		if p.ch[i] < p.n[i] {
			return true
		}
		p.ch, p.n = p.ch[:i], p.n[:i]
	}
	return false
}

// State is the abstract state at a program point.
type State struct {
	Facts   Facts
	Mem     map[*Obj]Val
	ObjOf   map[Sym]*Obj
	Trace   Word
	Writes  []Write
	AtomIdx map[string][]Lin
	Foralls []Forall
	Approx  []string
	Notes   []string
	Ghost   any // a specification's own immutable record of the partition
}

// Write records a store.
type Write struct {
	Obj  *Obj
	Path []Step
	Pos  string
	Val  Val
}

// Forall records a summarised loop: each iteration K in [0,N) went one of the
// ways of Cases.
type Forall struct {
	K     Sym
	N     Lin
	Cases []Case
	Loop  *Loop
}

func (s *State) clone() *State {
	n := &State{Facts: s.Facts.Clone(), Mem: make(map[*Obj]Val, len(s.Mem)), ObjOf: make(map[Sym]*Obj, len(s.ObjOf)),
		Trace: s.Trace[:len(s.Trace):len(s.Trace)], Writes: s.Writes[:len(s.Writes):len(s.Writes)],
		AtomIdx: make(map[string][]Lin, len(s.AtomIdx)), Foralls: s.Foralls[:len(s.Foralls):len(s.Foralls)],
		Approx: s.Approx[:len(s.Approx):len(s.Approx)], Notes: s.Notes[:len(s.Notes):len(s.Notes)], Ghost: s.Ghost}
	for k, v := range s.Mem {
		n.Mem[k] = v
	}
	for k, v := range s.ObjOf {
		n.ObjOf[k] = v
	}
	for k, v := range s.AtomIdx {
		n.AtomIdx[k] = v[:len(v):len(v)]
	}
	return n
}

// Hooks are the points where a specification supplies the abstraction: the
// contracts of recursive functions and callbacks, and shape predicates.
type Hooks struct {
	// Call may give the result of a call to a known function instead of inlining it.
	Call func(in *In, fr *Frame, fn *ssa.Function, args []Val, tenv Tenv) (Val, bool)
	// CallSym gives the result of a call to an unknown function value.
	CallSym func(in *In, f FnSym, args []Val, sig *types.Signature) (Val, bool)
	// Invoke gives the result of a method call on an unknown interface value.
	Invoke func(in *In, recv Val, method string, args []Val, sig *types.Signature) (Val, bool)
	// Loop may replace the rest of the function from a loop header on.
	Loop func(in *In, fr *Frame, l *Loop, inits map[*ssa.Phi]Val) (Val, bool)
	// Cut may set the loop-carried values of a loop to arbitrary ones that satisfy
	// an inductive invariant, which it has checked.
	Cut func(in *In, fr *Frame, l *Loop, inits map[*ssa.Phi]Val) bool
	// Materialize gives the content of a pre-existing object.
	Materialize func(in *In, p Sym, t types.Type) (Val, bool)
	// MayAlias says whether two pre-existing pointers may be equal.
	MayAlias func(in *In, p, q Sym, t types.Type) bool
	// MapHas resolves a lookup in the unknown base content of a map.
	MapHas func(in *In, base, key Lin, k Val) (v Val, present, ok bool)
	// MapLen gives the size of a map instead of counting changes.
	MapLen func(in *In, m *MapC) (Lin, bool)
	// EqVal may decide the equality of two scalars of a spec's families.
	EqVal func(in *In, a, b Lin) (Bool, bool)
	// Less may decide the order of two scalars of a spec's families.
	Less func(in *In, x, y Lin) (Bool, bool)
	// Store is told of every store.
	Store func(in *In, p *Ptr, v Val)
	// Mod may give the remainder of a number.
	Mod func(in *In, x, m Lin) (Lin, bool)
	// Global gives the content of a global.
	Global func(in *In, g *ssa.Global) (Val, bool)
}

// Violation is a refuted obligation.
type Violation struct {
	Rule, Msg, Pos string
	Notes          []string
}

// In is the interpreter.
type In struct {
	Fset      *token.FileSet
	Hooks     Hooks
	St        *State
	p         *path
	cur       ssa.Instruction
	curFr     *Frame
	depth     int
	stack     []*ssa.Function
	nobj      int
	inLoop    int
	peel      int
	more      func()
	memos     map[string]memo
	noClose   int
	loops     map[*ssa.Function][]*Loop
	Exact     bool          // maps have known keys, and ranges over them are unrolled
	MoreSteps int           // beyond the usual ones that a function may take
	iters     map[Sym]*MapC // the maps that iterations enumerate
	Viol      []Violation
	suspect   *Lin // the last that were found different
	Und       map[string]int

	Fns        map[*ssa.Function]bool
	Paths      int
	Checks     int
	LoopsSeen  map[*Loop]bool
	Deadline   time.Time
	PeelOnly   int // >0: of loops with a Cut only so many iterations
	CutLoops   int // loops cut
	MaxPaths   int
	top        *ssa.Function // the function last analysed
	EachCallee func(*ssa.Function)
}

// NewIn returns an interpreter.
func NewIn(fset *token.FileSet) *In {
	return &In{Fset: fset, loops: map[*ssa.Function][]*Loop{}, iters: map[Sym]*MapC{}, Fns: map[*ssa.Function]bool{}, LoopsSeen: map[*Loop]bool{}, Und: map[string]int{}, MaxPaths: 30000}
}

func (in *In) Pos() string {
	if in.cur == nil {
		if in.top != nil {
			p := in.Fset.Position(in.top.Pos())
			return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, in.top.Name())
		}
		return "?"
	}
	pos := in.cur.Pos()
	if !pos.IsValid() {
		// a nearby instruction of the block that has a position
		b := in.cur.Block()
		idx := -1
		for i, x := range b.Instrs {
			if x == in.cur {
				idx = i
			}
		}
		for i := idx; i < len(b.Instrs) && i >= 0; i++ {
			if b.Instrs[i].Pos().IsValid() {
				pos = b.Instrs[i].Pos()
				break
			}
		}
		for i := idx; i >= 0 && !pos.IsValid(); i-- {
			pos = b.Instrs[i].Pos()
		}
		if !pos.IsValid() {
			pos = in.cur.Parent().Pos()
		}
	}
	p := in.Fset.Position(pos)
	return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, in.cur.Parent().Name())
}

// Undecided abandons the obligation.
func (in *In) Undecided(f string, a ...any) {
	panic(Undecided{fmt.Sprintf(f, a...), in.Pos()})
}

// Dead ends the trace partition.
func (in *In) Dead() { panic(deadPath{}) }

// Explore analyses every trace partition of body.
func (in *In) Explore(body func()) {
	save := in.p
	in.p = &path{}
	in.memos = map[string]memo{}
	defer func() { in.p = save }()
	n := 0
	for {
		n++
		in.p.pos, in.p.nsub = 0, 0
		if Debug && n%100 == 0 {
			fmt.Fprintf(os.Stderr, "partition %d: %v\n", n, in.p.ch)
		}
		in.runPath(body)
		if len(in.Viol) >= 3 || !in.p.next() {
			return
		}
		if n > in.MaxPaths || in.late() {
			in.und(Undecided{"too many trace partitions", in.Pos()})
			return
		}
	}
}

func (in *In) late() bool { return !in.Deadline.IsZero() && time.Now().After(in.Deadline) }

func (in *In) und(u Undecided) { in.Und[u.Msg+" at "+u.Pos]++ }

// Debug makes internal errors crash.
var Debug bool

func (in *In) runPath(body func()) {
	in.Paths++
	ResetSyms()
	in.nobj = 0
	in.top = nil
	in.suspect = nil
	in.depth = 0
	in.stack = nil
	in.curFr = nil
	in.iters = map[Sym]*MapC{}
	in.St = &State{Mem: map[*Obj]Val{}, ObjOf: map[Sym]*Obj{}, AtomIdx: map[string][]Lin{}}
	defer func() {
		switch r := recover().(type) {
		case nil, deadPath:
		case Undecided:
			in.und(r)
		case ProgPanic:
			in.fail("no-panic", "panics: "+r.Msg, r.Pos)
		case violated:
		default:
			if Debug {
				panic(r)
			}
			in.und(Undecided{fmt.Sprint("internal: ", r), in.Pos()})
		}
	}()
	body()
}

type violated struct{}

func (in *In) fail(rule, msg, pos string) {
	in.Close()
	if !in.St.Facts.Feasible() {
		return
	}
	if len(in.St.Approx) > 0 {
		if os.Getenv("SADBG") != "" {
			fmt.Fprintln(os.Stderr, "UNPROVED", msg, "FACTS", &in.St.Facts, "NOTES", strings.Join(in.St.Notes, " ; "))
		}
		in.und(Undecided{"not proved (" + rule + ": " + msg + ") with approximation " + strings.Join(in.St.Approx, "; "), pos})
		return
	}
	for _, v := range in.Viol {
		if v.Rule == rule && v.Pos == pos {
			return
		}
	}
	if !in.refutes() {
		in.und(Undecided{"not proved, and no small numbers found that refute it (" + rule + ": " + msg + ")", pos})
		return
	}
	if Debug {
		fmt.Fprintln(os.Stderr, "facts:", &in.St.Facts)
	}
	in.Viol = append(in.Viol, Violation{rule, msg, pos, append([]string(nil), in.St.Notes...)})
}

// Fail records a violation and ends the trace partition.
func (in *In) Fail(rule, f string, a ...any) {
	in.fail(rule, fmt.Sprintf(f, a...), in.Pos())
	panic(violated{})
}

// Check records an obligation and a violation if it does not hold.
func (in *In) Check(ok bool, rule, f string, a ...any) {
	in.Checks++
	defer func() { in.suspect = nil }()
	if !ok {
		in.Fail(rule, f, a...)
	}
}

// Choose splits the trace partition n ways.
func (in *In) Choose(n int) int {
	p := in.p
	if p.pos == len(p.ch) {
		p.ch = append(p.ch, 0)
		p.n = append(p.n, n)
	}
	c := p.ch[p.pos]
	p.pos++
	return c
}

// sub analyses every trace partition of body from a copy of the current state
// and calls out for each that returns, with how it ended.
func (in *In) sub(body func() any, out func(r any, pp *ProgPanic)) {
	save, st, cur, fr, depth := in.p, in.St, in.cur, in.curFr, in.depth
	stack := in.stack
	in.p = &path{key: in.pathKey()}
	save.nsub++
	defer func() { in.p, in.St, in.cur, in.curFr, in.depth, in.stack = save, st, cur, fr, depth, stack }()
	n := 0
	for {
		n++
		in.p.pos, in.p.nsub = 0, 0
		in.St = st.clone()
		in.cur, in.curFr, in.depth, in.stack = cur, fr, depth, stack
		func() {
			var res any
			var pp *ProgPanic
			dead := false
			func() {
				defer func() {
					switch r := recover().(type) {
					case nil:
					case deadPath:
						dead = true
					case ProgPanic:
						pp = &r
					default:
						panic(r)
					}
				}()
				res = body()
			}()
			if !dead {
				out(res, pp)
			}
		}()
		if !in.p.next() {
			return
		}
		if n > in.MaxPaths || in.late() {
			in.Undecided("too many trace partitions")
		}
	}
}

// pathKey names a point of the exploration: what led here.
func (in *In) pathKey() string {
	b := append([]byte(in.p.key), '/')
	for _, c := range in.p.ch[:in.p.pos] {
		b = append(b, byte('0'+c))
	}
	return string(appendInt(append(b, '#'), int64(in.p.nsub)))
}

type memo struct {
	v    any
	nsub int
}

// Memo is the result of f, which leaves the state as it is; when the analysis
// comes by the same way again, the one it had then.
func (in *In) Memo(f func() any) any {
	k := in.pathKey()
	if m, ok := in.memos[k]; ok {
		in.p.nsub = m.nsub
		return m.v
	}
	p := in.p.pos
	v := f()
	if in.p.pos != p {
		panic("partition in Memo")
	}
	in.memos[k] = memo{v, in.p.nsub}
	return v
}

// Always reports whether body returns true in every trace partition of it.
func (in *In) Always(body func() bool) bool {
	all := true
	in.sub(func() any { return body() }, func(r any, pp *ProgPanic) {
		if all && (pp != nil || !r.(bool)) {
			if in.Close(); in.St.Facts.Feasible() {
				all = false
			}
		}
	})
	return all
}

// Scratch analyses every trace partition of body, each from a copy of the current
// state, and goes back to it.
func (in *In) Scratch(body func()) {
	in.sub(func() any { body(); return nil }, func(any, *ProgPanic) {})
}

// TryPanic runs f and tells whether the program panicked.
func (in *In) TryPanic(f func()) (pp *ProgPanic) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(ProgPanic); ok {
				pp = &p
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (in *In) note(f string, a ...any) {
	if len(in.St.Notes) < 60 {
		in.St.Notes = append(in.St.Notes, fmt.Sprintf(f, a...))
	}
}

// Assume adds a condition; the partition dies if it is impossible.
func (in *In) Assume(c Bool) {
	f := &in.St.Facts
	switch c.K {
	case BTrue:
	case BFalse:
		in.Dead()
	case BGE:
		if f.EntailsGE(c.E.Neg().Plus(-1)) {
			in.Dead()
		}
		f.AddGE(c.E)
	case BEQ:
		if f.EntailsNE(c.E) {
			in.Dead()
		}
		f.AddEQ(c.E)
	case BNE:
		if f.EntailsEQ(c.E) {
			in.Dead()
		}
		f.AddNE(c.E)
	}
	if f.bad {
		in.Dead()
	}
}

// Known tells whether a condition is known to hold or known not to.
func (in *In) Known(c Bool) (val, known bool) {
	f := &in.St.Facts
	switch c.K {
	case BTrue:
		return true, true
	case BFalse:
		return false, true
	case BGE:
		if f.EntailsGE(c.E) {
			return true, true
		}
		if f.EntailsGE(c.E.Neg().Plus(-1)) {
			return false, true
		}
	case BEQ:
		if f.EntailsEQ(c.E) {
			return true, true
		}
		if f.EntailsNE(c.E) {
			return false, true
		}
	case BNE:
		v, k := in.Known(EQ(c.E))
		return !v, k
	}
	return false, false
}

// Must reports whether the condition is known to hold.
func (in *In) Must(c Bool) bool { v, k := in.Known(c); return k && v }

// Branch partitions on a condition.
func (in *In) Branch(c Bool) bool {
	if v, k := in.Known(c); k {
		return v
	}
	if in.Choose(2) == 0 {
		in.addFact(c)
		return true
	}
	in.addFact(c.Not())
	return false
}

func (in *In) addFact(c Bool) {
	f := &in.St.Facts
	switch c.K {
	case BGE:
		f.AddGE(c.E)
	case BEQ:
		f.AddEQ(c.E)
	case BNE:
		f.AddNE(c.E)
	}
	if f.bad {
		in.Dead()
	}
}

// ---- symbolic values ----

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return s
}

// SymVal is the unknown value of a type whose leaves are uninterpreted
// functions of args.
func (in *In) SymVal(t types.Type, fn string, args ...Lin) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			bool01[fn] = true
			return BoolSym(UFL(fn, args...))
		case u.Info()&types.IsString != 0:
			nonneg[fn+".len"] = true
			return StrV{Word{Seg(&Atom{Name: fn + ".bytes", Args: args, Elem: types.Typ[types.Uint8]}, C(0), UFL(fn+".len", args...))}}
		case u.Info()&types.IsUnsigned != 0:
			nonneg[fn] = true
		}
		return UFL(fn, args...)
	case *types.Struct:
		s := &StructV{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, in.SymVal(u.Field(i).Type(), fn+"."+u.Field(i).Name(), args...))
		}
		return s
	case *types.Array:
		return &ArrV{Word{Seg(&Atom{Name: fn + "[]", Args: args, Elem: u.Elem()}, C(0), C(u.Len()))}, u.Elem()}
	case *types.Slice:
		nonneg[fn+".len"] = true
		p := UF(fn+".arr", args...)
		o := in.St.ObjOf[p]
		ln, cp := UFL(fn+".len", args...), UFL(fn+".cap", args...)
		if o == nil {
			in.St.Facts.AddGE(cp.Sub(ln))
			o = in.newObj(u.Elem(), fn+".arr", false)
			o.Sym = p
			in.St.ObjOf[p] = o
			in.St.Mem[o] = &ArrV{Word{Seg(&Atom{Name: fn + "[]", Args: args, Elem: u.Elem()}, C(0), cp)}, u.Elem()}
		}
		bool01[fn+".nil"] = true
		return Slice{Arr: o, Off: C(0), Len: ln, Cap: cp, NilB: BoolSym(UFL(fn+".nil", args...))}
	case *types.Signature:
		return FnSym{UFL(fn, args...)}
	}
	return UFL(fn, args...)
}

// Zero is the zero value of a type.
func (in *In) Zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return StrV{}
		}
		return C(0)
	case *types.Struct:
		s := &StructV{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, in.Zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &ArrV{Word{Fill(in.Zero(u.Elem()), C(u.Len()))}, u.Elem()}
	case *types.Slice:
		return Slice{NilB: True}
	case *types.Signature:
		return FnSym{C(0)}
	case *types.TypeParam:
		return UFL("zero:" + u.Obj().Name())
	}
	return C(0)
}

// Elem is element idx of an opaque sequence.
func (in *In) Elem(a *Atom, idx Lin) Val {
	key := a.Name
	for _, x := range a.Args {
		key += "|" + x.key()
	}
	used := in.St.AtomIdx[key]
	found := false
	for _, u := range used {
		if u.Same(idx) {
			found = true
			break
		}
	}
	if !found {
		for _, u := range used {
			if in.St.Facts.EntailsEQ(u.Sub(idx)) {
				idx = u
				found = true
				break
			}
		}
	}
	if !found {
		in.St.AtomIdx[key] = append(used[:len(used):len(used)], idx)
	}
	args := append(a.Args[:len(a.Args):len(a.Args)], idx)
	atomProto[a.Name] = a
	return in.SymVal(a.Elem, a.Name, args...)
}

// ElemAt is Elem for a position that was looked at.
func (in *In) ElemAt(a *Atom, idx Lin) Val {
	return in.SymVal(a.Elem, a.Name, append(a.Args[:len(a.Args):len(a.Args)], idx)...)
}

// Mentioned are the positions of an opaque sequence that were looked at.
func (in *In) Mentioned(a *Atom) []Lin {
	key := a.Name
	for _, x := range a.Args {
		key += "|" + x.key()
	}
	return in.St.AtomIdx[key]
}

var atomProto = map[string]*Atom{}

// AsElem recognises an element of an opaque sequence.
func (in *In) AsElem(v Val) (*Atom, Lin, bool) {
	leaf, ok := firstLeaf(v)
	if !ok {
		return nil, Lin{}, false
	}
	s, ok := leaf.Single()
	if !ok {
		return nil, Lin{}, false
	}
	fn, args := s.App()
	if len(args) == 0 {
		return nil, Lin{}, false
	}
	for name, a := range atomProto {
		if fn != name && !strings.HasPrefix(fn, name+".") {
			continue
		}
		at := &Atom{Name: name, Args: args[:len(args)-1], Elem: a.Elem}
		idx := args[len(args)-1]
		if in.sameVal(in.SymVal(a.Elem, name, args...), v) {
			return at, idx, true
		}
	}
	return nil, Lin{}, false
}

func firstLeaf(v Val) (Lin, bool) {
	switch v := v.(type) {
	case Lin:
		return v, true
	case Bool:
		if v.K == BEQ {
			return v.E.Plus(1), true
		}
	case FnSym:
		return v.L, true
	case Slice:
		return v.Len, true
	case StrV:
		if len(v.W) == 1 && v.W[0].Kind == PSeg {
			return v.W[0].Hi, true
		}
	case *StructV:
		for _, f := range v.F {
			if l, ok := firstLeaf(f); ok {
				return l, true
			}
		}
	}
	return Lin{}, false
}

func (in *In) newObj(t types.Type, name string, fresh bool) *Obj {
	in.nobj++
	o := &Obj{ID: in.nobj, Typ: t, Name: fmt.Sprintf("%s~%d", name, in.nobj), Fresh: fresh}
	return o
}

// Forget drops what is known of a pre-existing pointer's target.
func (in *In) Forget(p Sym) { delete(in.St.ObjOf, p) }

// InProgress tells whether a function is being analysed (is on the stack).
func (in *In) InProgress(fn *ssa.Function) bool {
	for _, f := range in.stack {
		if f == fn {
			return true
		}
	}
	return false
}

// Alloc makes a fresh object.
func (in *In) Alloc(t types.Type, name string, content Val) *Obj {
	o := in.newObj(t, name, true)
	o.Sym = NewSym("&" + name)
	in.St.Facts.AddNE(V(o.Sym))
	in.St.Mem[o] = content
	in.St.ObjOf[o.Sym] = o
	return o
}

// NewArr makes a fresh array object and the slice of all of it.
func (in *In) NewArr(elem types.Type, w Word, length, cap Lin) Slice {
	o := in.Alloc(elem, "array", &ArrV{w, elem})
	return Slice{Arr: o, Off: C(0), Len: length, Cap: cap, NilB: False}
}

func (in *In) panicProg(f string, a ...any) { panic(ProgPanic{fmt.Sprintf(f, a...), in.Pos()}) }

// ObjAt resolves a pointer value to the address it holds.
func (in *In) ObjAt(v Val, elem types.Type) *Ptr {
	switch v := v.(type) {
	case *Ptr:
		return v
	case Lin:
		if v.IsConst(0) {
			in.panicProg("nil pointer dereference")
		}
		s, ok := v.Single()
		if !ok {
			in.Undecided("pointer expression %s", v)
		}
		if o := in.St.ObjOf[s]; o != nil {
			return &Ptr{Obj: o}
		}
		if c, ok := in.nilCond(v); ok {
			if in.Branch(c) {
				in.panicProg("nil pointer dereference")
			}
		} else if !in.Branch(NE(v)) {
			in.panicProg("nil pointer dereference")
		}
		// may be an object already known under another name
		var cand []Sym
		for q, o := range in.St.ObjOf {
			if !o.Fresh && q != s && types.Identical(o.Typ, elem) {
				cand = append(cand, q)
			}
		}
		sort.Slice(cand, func(i, j int) bool { return cand[i] < cand[j] })
		for _, q := range cand {
			if c := in.ptrEqSyms(s, q); c.K == BTrue || in.Must(c) || in.Hooks.MayAlias != nil && in.Hooks.MayAlias(in, s, q, elem) && in.Branch(c) {
				o := in.St.ObjOf[q]
				in.St.ObjOf[s] = o
				return &Ptr{Obj: o}
			}
		}
		o := in.newObj(elem, "*"+s.Name(), false)
		o.Sym = s
		in.St.ObjOf[s] = o
		if in.Hooks.Materialize != nil {
			if c, ok := in.Hooks.Materialize(in, s, elem); ok {
				in.St.Mem[o] = c
				return &Ptr{Obj: o}
			}
		}
		if m, ok := under(elem).(*types.Map); ok {
			nonneg["map.len"] = true
			in.St.Mem[o] = &MapC{Base: v, Len: UFL("map.len", v), K: m.Key(), V: m.Elem()}
			return &Ptr{Obj: o}
		}
		in.St.Mem[o] = in.SymVal(elem, "*"+typeName(elem), v)
		return &Ptr{Obj: o}
	}
	in.Undecided("dereference of %s", ValString(v))
	return nil
}

// ptrEqSyms is the condition that two pre-existing pointers are equal:
// elements of one injective family are equal when their indices are.
func (in *In) ptrEqSyms(p, q Sym) Bool {
	if p == q {
		return True
	}
	f, a := p.App()
	g, b := q.App()
	if f == g && f != "" && len(a) == len(b) && len(a) > 0 && InjectivePtr[f] {
		same := true
		for i := 0; i < len(a)-1; i++ {
			if !a[i].Same(b[i]) {
				same = false
			}
		}
		if same {
			return EQ(a[len(a)-1].Sub(b[len(b)-1]))
		}
	}
	return EQ(V(p).Sub(V(q)))
}

// NilFam gives, for a pointer family, the condition that a member is nil.
var NilFam = map[string]func(in *In, args []Lin) Bool{}

func (in *In) nilCond(v Lin) (Bool, bool) {
	s, ok := v.Single()
	if !ok {
		return Bool{}, false
	}
	fn, args := s.App()
	if f := NilFam[fn]; f != nil {
		return f(in, args), true
	}
	return Bool{}, false
}

// InjectivePtr are the pointer families with distinct members.
var InjectivePtr = map[string]bool{}

// PtrEq is the condition that two pointer values are equal.
func (in *In) PtrEq(a, b Val) Bool {
	switch x := a.(type) {
	case *Ptr:
		switch y := b.(type) {
		case *Ptr:
			if x.Obj != y.Obj || len(x.Path) != len(y.Path) {
				return False
			}
			for i := range x.Path {
				if x.Path[i].Idx != nil && y.Path[i].Idx != nil {
					c := EQ(x.Path[i].Idx.Sub(*y.Path[i].Idx))
					if !in.Branch(c) {
						return False
					}
				} else if x.Path[i].F != y.Path[i].F || x.Path[i].Idx != y.Path[i].Idx {
					return False
				}
			}
			return True
		case Lin:
			if y.IsConst(0) {
				return False
			}
			if len(x.Path) > 0 {
				return False
			}
			if x.Obj.Fresh {
				if s, ok := y.Single(); ok && in.St.ObjOf[s] == x.Obj {
					return True
				}
				return False
			}
			return in.PtrEq(V(x.Obj.Sym), y)
		}
	case Lin:
		switch y := b.(type) {
		case *Ptr:
			return in.PtrEq(b, a)
		case Lin:
			s, ok1 := x.Single()
			t, ok2 := y.Single()
			if y.IsConst(0) {
				if ok1 && in.St.ObjOf[s] != nil {
					return False
				}
				if c, ok := in.nilCond(x); ok {
					return c
				}
			}
			if x.IsConst(0) {
				if ok2 && in.St.ObjOf[t] != nil {
					return False
				}
				if c, ok := in.nilCond(y); ok {
					return c
				}
			}
			if ok1 && ok2 && s != t {
				cx, fx := in.nilCond(x)
				cy, fy := in.nilCond(y)
				if fx && in.St.ObjOf[s] == nil && in.Branch(cx) {
					return in.PtrEq(C(0), y)
				}
				if fy && in.St.ObjOf[t] == nil && in.Branch(cy) {
					return in.PtrEq(x, C(0))
				}
			}
			if ok1 && ok2 {
				o, r := in.St.ObjOf[s], in.St.ObjOf[t]
				if o != nil && r != nil {
					return B(o == r)
				}
				if o != nil && o.Fresh || r != nil && r.Fresh {
					return False
				}
				return in.ptrEqSyms(s, t)
			}
			return EQ(x.Sub(y))
		}
	}
	in.Undecided("pointer comparison of %s and %s", ValString(a), ValString(b))
	return False
}

// ---- memory ----

func (in *In) expand(v Val, t types.Type) Val {
	if l, ok := v.(Lin); ok {
		if _, ok := under(t).(*types.Struct); ok {
			return in.SymVal(t, "val."+typeName(t), l)
		}
	}
	return v
}

func (in *In) loadPath(v Val, t types.Type, p []Step) (Val, types.Type) {
	for _, s := range p {
		if s.Idx != nil {
			a, ok := v.(*ArrV)
			if !ok {
				in.Undecided("index into %s", ValString(v))
			}
			v = in.At(a.W, *s.Idx)
			t = a.Elem
			continue
		}
		v = in.expand(v, t)
		st, ok := v.(*StructV)
		if !ok {
			in.Undecided("field of %s", ValString(v))
		}
		v = st.F[s.F]
		if u, ok := under(st.Typ).(*types.Struct); ok {
			t = u.Field(s.F).Type()
		}
	}
	return v, t
}

// Lazy is the content of an object that Hooks.Materialize gives when it is used.
type Lazy struct{}

// content is the content of an object.
func (in *In) content(o *Obj) (Val, bool) {
	c, ok := in.St.Mem[o]
	if _, lazy := c.(Lazy); lazy {
		if c, ok = in.Hooks.Materialize(in, o.Sym, o.Typ); ok {
			in.St.Mem[o] = c
		}
	}
	return c, ok
}

// Load reads the memory at an address.
func (in *In) Load(p *Ptr) Val {
	c, ok := in.content(p.Obj)
	if !ok {
		in.Undecided("read of dead object %s", p.Obj)
	}
	v, _ := in.loadPath(c, p.Obj.Typ, p.Path)
	return v
}

func (in *In) storePath(v Val, t types.Type, p []Step, x Val) Val {
	if len(p) == 0 {
		return x
	}
	s := p[0]
	if s.Idx != nil {
		a, ok := v.(*ArrV)
		if !ok {
			in.Undecided("index into %s", ValString(v))
		}
		pre, post := in.Split(a.W, *s.Idx)
		old, rest := in.popHead(post)
		return &ArrV{pre.Cat(Word{Item(in.storePath(old, a.Elem, p[1:], x))}, rest), a.Elem}
	}
	v = in.expand(v, t)
	st, ok := v.(*StructV)
	if !ok {
		in.Undecided("field of %s", ValString(v))
	}
	u := under(st.Typ).(*types.Struct)
	return st.set(s.F, in.storePath(st.F[s.F], u.Field(s.F).Type(), p[1:], x))
}

// StoreAt writes the memory at an address.
func (in *In) StoreAt(p *Ptr, x Val) {
	c, ok := in.content(p.Obj)
	if !ok {
		in.Undecided("write of dead object %s", p.Obj)
	}
	in.St.Writes = append(in.St.Writes, Write{p.Obj, p.Path, in.Pos(), x})
	if in.Hooks.Store != nil {
		in.Hooks.Store(in, p, x)
	}
	in.St.Mem[p.Obj] = in.storePath(c, p.Obj.Typ, p.Path, x)
}

// ---- words ----

// popHead takes the first item of a non-empty word.
func (in *In) popHead(w Word) (Val, Word) {
	for len(w) > 0 {
		p := w[0]
		switch p.Kind {
		case PItem:
			return p.V, w[1:]
		case PSeg:
			if in.Branch(LT(p.Lo, p.Hi)) {
				v := in.Elem(p.A, p.Lo)
				q := p
				q.Lo = p.Lo.Plus(1)
				return v, Word{q}.Cat(w[1:])
			}
			w = w[1:]
		case PFill:
			if in.Branch(LT(C(0), p.N)) {
				q := p
				q.N = p.N.Plus(-1)
				return p.V, Word{q}.Cat(w[1:])
			}
			w = w[1:]
		case PComp:
			if !in.Branch(LT(C(0), p.Len())) {
				w = w[1:]
				continue
			}
			if !unitComp(p) {
				in.Undecided("element of a conditional loop result")
			}
			v := in.compItem(p, C(0))
			return v, Word{compDrop(p, C(1))}.Cat(w[1:])
		}
	}
	in.Dead()
	return nil, nil
}

func unitComp(p Piece) bool {
	for _, c := range p.Cases {
		if !(len(c.Items) == 1 && c.Items[0].Kind == PItem) {
			return false
		}
	}
	return len(p.Cases) > 0
}

// compItem is the item iteration j of a loop summary contributed.
func (in *In) compItem(p Piece, j Lin) Val {
	c := p.Cases[0]
	if len(p.Cases) > 1 {
		c = p.Cases[in.Choose(len(p.Cases))]
	}
	in.assumeCase(c, p.K, j)
	return substVal(c.Items[0].V, p.K, j)
}

func (in *In) assumeCase(c Case, k Sym, j Lin) {
	for _, g := range c.GE {
		in.Assume(GE(g.Subst(k, j)))
	}
	for _, g := range c.NE {
		in.Assume(NE(g.Subst(k, j)))
	}
}

// compDrop is the loop summary without its first n iterations.
func compDrop(p Piece, n Lin) Piece {
	q := p
	q.N = p.N.Sub(n)
	q.LenL = q.N
	q.Cases = nil
	for _, c := range p.Cases {
		e := V(p.K).Add(n)
		q.Cases = append(q.Cases, Case{substLins(c.GE, p.K, e), substLins(c.NE, p.K, e), substWord(c.Items, p.K, e)})
	}
	return q
}

// Split cuts a word at position i, 0 <= i <= len.
func (in *In) Split(w Word, i Lin) (Word, Word) {
	for n := range w {
		p := w[n]
		l := p.Len()
		if i.IsConst(0) || in.Must(LE(i, C(0))) {
			return w[:n:n], w[n:]
		}
		if in.Branch(LE(l, i)) {
			i = i.Sub(l)
			continue
		}
		// 0 < i < l, or 0 == i
		if !in.Branch(LT(C(0), i)) {
			return w[:n:n], w[n:]
		}
		a, b := p, p
		switch p.Kind {
		case PSeg:
			a.Hi = p.Lo.Add(i)
			b.Lo = a.Hi
		case PFill:
			a.N = i
			b.N = p.N.Sub(i)
		case PComp:
			if !unitComp(p) {
				in.Undecided("position inside a conditional loop result")
			}
			a.N, a.LenL = i, i
			b = compDrop(p, i)
		default:
			in.Dead()
		}
		return append(w[:n:n], a), append(Word{b}, w[n+1:]...)
	}
	return w, nil
}

// cut is Split at a position known to be within the word; it does not
// partition if there is one piece only.
func (in *In) cut(w Word, i Lin) (Word, Word) {
	if len(w) == 1 && (w[0].Kind == PSeg || w[0].Kind == PFill) {
		a, b := w[0], w[0]
		if a.Kind == PSeg {
			a.Hi = a.Lo.Add(i)
			b.Lo = a.Hi
		} else {
			a.N = i
			b.N = b.N.Sub(i)
		}
		return in.Norm(Word{a}), in.Norm(Word{b})
	}
	return in.Split(w, i)
}

// At is the element at position i of a word, 0 <= i < len.
func (in *In) At(w Word, i Lin) Val {
	_, post := in.Split(w, i)
	v, _ := in.popHead(post)
	return v
}

// Sub is the part [i,j) of a word.
func (in *In) Sub(w Word, i, j Lin) Word {
	_, post := in.Split(w, i)
	r, _ := in.Split(post, j.Sub(i))
	return r
}

// Norm merges adjacent pieces and drops those known to be empty.
func (in *In) Norm(w Word) Word {
	var r Word
	for _, p := range w {
		if l, ok := p.Len().Const(); ok && l == 0 && p.Kind != PComp {
			continue
		}
		if p.Kind != PItem && in.Must(LE(p.Len(), C(0))) {
			continue
		}
		if p.Kind == PItem {
			if a, idx, ok := in.AsElem(p.V); ok {
				p = Seg(a, idx, idx.Plus(1))
			}
		}
		if len(r) > 0 {
			q := &r[len(r)-1]
			if p.Kind == PSeg && q.Kind == PSeg && sameAtom(p.A, q.A) && in.Must(EQ(q.Hi.Sub(p.Lo))) {
				q.Hi = p.Hi
				continue
			}
			if p.Kind == PFill && q.Kind == PFill && in.sameVal(p.V, q.V) {
				q.N = q.N.Add(p.N)
				continue
			}
		}
		r = append(r, p)
	}
	return r
}

func sameAtom(a, b *Atom) bool {
	if a == b {
		return true
	}
	if a.Name != b.Name || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if !a.Args[i].Same(b.Args[i]) {
			return false
		}
	}
	return true
}

// WordEq reports whether two words are known to be equal.
func (in *In) WordEq(a, b Word) bool {
	return in.Always(func() bool { return in.wordEq(a, b) })
}

func (in *In) wordEq(a, b Word) bool {
	most := 60 + len(a) + len(b)
	for steps := 0; ; steps++ {
		for len(a) > 0 && len(b) > 0 && a[0].Kind == PItem && b[0].Kind == PItem {
			if !in.ValEq(a[0].V, b[0].V) {
				return false
			}
			a, b = a[1:], b[1:]
		}
		if steps > most {
			if in.Exact {
				in.Undecided("too many pieces to compare")
			}
			return false
		}
		a, b = in.dropEmpty(a), in.dropEmpty(b)
		if len(a) == 0 || len(b) == 0 {
			return len(a) == 0 && len(b) == 0
		}
		p, q := a[0], b[0]
		switch {
		case p.Kind == PItem && q.Kind == PItem:
			if !in.ValEq(p.V, q.V) {
				return false
			}
			a, b = a[1:], b[1:]
		case p.Kind == PItem || q.Kind == PItem:
			var x, y Val
			x, a = in.popHead(a)
			y, b = in.popHead(b)
			if !in.ValEq(x, y) {
				return false
			}
		case p.Kind == PComp && !unitComp(p) || q.Kind == PComp && !unitComp(q):
			if p.Kind != PComp || q.Kind != PComp || !in.compEq(p, q) {
				return false
			}
			a, b = a[1:], b[1:]
		default:
			// pointwise on the common length
			n := p.Len()
			if !in.Branch(LE(n, q.Len())) {
				n = q.Len()
			}
			if !(p.Kind == PSeg && q.Kind == PSeg && sameAtom(p.A, q.A) && in.Must(EQ(p.Lo.Sub(q.Lo)))) {
				ok := in.Always(func() bool {
					j := V(NewSym("j"))
					in.Assume(GE(j))
					in.Assume(LT(j, n))
					return in.ValEq(in.pieceAt(p, j), in.pieceAt(q, j))
				})
				if !ok {
					return false
				}
			}
			_, a = in.Split(a, n)
			_, b = in.Split(b, n)
		}
	}
}

func (in *In) pieceAt(p Piece, j Lin) Val {
	switch p.Kind {
	case PItem:
		return p.V
	case PSeg:
		return in.Elem(p.A, p.Lo.Add(j))
	case PFill:
		return p.V
	}
	return in.compItem(p, j)
}

// compEq: the same iterations contribute the same items.
func (in *In) compEq(p, q Piece) bool {
	if !in.Must(EQ(p.N.Sub(q.N))) {
		return false
	}
	return in.Always(func() bool {
		j := V(NewSym("j"))
		in.Assume(GE(j))
		in.Assume(LT(j, p.N))
		c := p.Cases[in.Choose(len(p.Cases))]
		in.assumeCase(c, p.K, j)
		d := q.Cases[in.Choose(len(q.Cases))]
		in.assumeCase(d, q.K, j)
		return in.wordEq(substWord(c.Items, p.K, j), substWord(d.Items, q.K, j))
	})
}

func (in *In) dropEmpty(w Word) Word {
	for len(w) > 0 {
		p := w[0]
		if p.Kind == PItem {
			return w
		}
		if p.Kind == PComp && !unitComp(p) {
			if in.Branch(LE(p.N, C(0))) {
				w = w[1:]
				continue
			}
			return w
		}
		if in.Branch(LE(p.Len(), C(0))) {
			w = w[1:]
			continue
		}
		return w
	}
	return w
}

// sameVal is structural identity.
func (in *In) sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Lin:
		y, ok := b.(Lin)
		return ok && x.Same(y)
	case Bool:
		y, ok := b.(Bool)
		return ok && x.K == y.K && (x.K == BTrue || x.K == BFalse || x.E.Same(y.E) || x.K != BGE && x.E.Same(y.E.Neg()))
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return false
		}
		return samePath(x.Path, y.Path)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.Arr == y.Arr && (x.Arr == nil || samePath(x.Path, y.Path) && x.Off.Same(y.Off) && x.Len.Same(y.Len) && x.Cap.Same(y.Cap))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !in.sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !in.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case FnSym:
		y, ok := b.(FnSym)
		return ok && x.L.Same(y.L)
	case *ArrV:
		y, ok := b.(*ArrV)
		return ok && (x == y || in.sameWord(x.W, y.W))
	case StrV:
		y, ok := b.(StrV)
		return ok && in.sameWord(x.W, y.W)
	case *Closure:
		y, ok := b.(*Closure)
		if !ok || x.Fn != y.Fn || len(x.Free) != len(y.Free) {
			return false
		}
		for i := range x.Free {
			if !in.sameVal(x.Free[i], y.Free[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.T, y.T) && in.sameVal(x.V, y.V)
	case *MapC:
		y, ok := b.(*MapC)
		return ok && (x == y || in.sameMap(x, y))
	case Opaque:
		y, ok := b.(Opaque)
		return ok && x == y
	}
	return false
}

func sameLins(a, b []Lin) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Same(b[i]) {
			return false
		}
	}
	return true
}

// sameMap: equal changes of the same content.
func (in *In) sameMap(x, y *MapC) bool {
	x, y = in.NormMap(x), in.NormMap(y)
	if in.Hooks.MapLen == nil && !in.LinEq(x.Len, y.Len) {
		return false
	}
	if !x.Base.Same(y.Base) || len(x.Over) != len(y.Over) || len(x.Bulk) != len(y.Bulk) {
		return false
	}
	for i, o := range x.Over {
		p := y.Over[i]
		if o.Present != p.Present || !in.sameVal(o.Key, p.Key) || o.Present && !in.sameVal(o.Val, p.Val) {
			return false
		}
	}
	for i := range x.Bulk {
		if !in.sameBulk(&x.Bulk[i], &y.Bulk[i]) {
			return false
		}
	}
	return true
}

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].F != b[i].F || (a[i].Idx == nil) != (b[i].Idx == nil) || a[i].Idx != nil && !a[i].Idx.Same(*b[i].Idx) {
			return false
		}
	}
	return true
}

func (in *In) sameWord(a, b Word) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, q := a[i], b[i]
		if p.Kind != q.Kind {
			return false
		}
		switch p.Kind {
		case PItem:
			if !in.sameVal(p.V, q.V) {
				return false
			}
		case PSeg:
			if !sameAtom(p.A, q.A) || !p.Lo.Same(q.Lo) || !p.Hi.Same(q.Hi) {
				return false
			}
		case PFill:
			if !in.sameVal(p.V, q.V) || !p.N.Same(q.N) {
				return false
			}
		case PComp:
			if !p.N.Same(q.N) || len(p.Cases) != len(q.Cases) {
				return false
			}
			for j, c := range p.Cases {
				d := q.Cases[j]
				if p.K != q.K {
					d = Case{substLins(d.GE, q.K, V(p.K)), substLins(d.NE, q.K, V(p.K)), substWord(d.Items, q.K, V(p.K))}
				}
				if !sameLins(c.GE, d.GE) || !sameLins(c.NE, d.NE) || !in.sameWord(c.Items, d.Items) {
					return false
				}
			}
		}
	}
	return true
}

// LinEq: known equality, with congruence of function symbols.
func (in *In) LinEq(a, b Lin) bool {
	if a.Same(b) || in.St.Facts.EntailsEQ(a.Sub(b)) {
		return true
	}
	s, ok1 := a.Single()
	t, ok2 := b.Single()
	if ok1 && ok2 {
		f, x := s.App()
		g, y := t.App()
		if f != "" && f == g && len(x) == len(y) && len(x) > 0 {
			for i := range x {
				if !in.LinEq(x[i], y[i]) {
					return false
				}
			}
			return true
		}
	}
	if in.noClose == 0 && in.Close(a, b) && in.St.Facts.EntailsEQ(a.Sub(b)) {
		return true
	}
	d := a.Sub(b)
	for _, m := range products(d) {
		if in.known0(m) && in.St.Facts.EntailsEQ(d) {
			return true
		}
	}
	in.suspect = &d
	return false
}

// products are the products in an expression.
func products(e Lin) []Sym {
	var r []Sym
	for _, t := range e.T {
		if fn, _ := t.S.App(); fn == "mul" {
			r = append(r, t.S)
		}
	}
	return r
}

// known0 adds what is known of a product with a factor that is 0 or 1.
func (in *In) known0(m Sym) bool {
	f := &in.St.Facts
	_, args := m.App()
	for i, a := range args {
		if f.EntailsEQ(a) {
			f.AddEQ(V(m))
			return true
		}
		if len(args) == 2 && f.EntailsEQ(a.Plus(-1)) {
			f.AddEQ(V(m).Sub(args[1-i]))
			return true
		}
	}
	return false
}

// refutes reports whether there are small numbers for which the products in the
// facts are what they should be, and what was found different is.
func (in *In) refutes() bool {
	f := in.St.Facts
	if in.suspect != nil {
		f = in.St.Facts.Clone()
		f.AddNE(*in.suspect)
	}
	if f.machine() {
		return false // nothing is known about what some operations give
	}
	return f.FeasibleSmall(func(g *Facts) bool {
		st := in.St
		defer func() { in.St = st }()
		in.St = st.clone()
		in.St.Facts = g.Clone()
		for n := 0; n < 3 && in.Close(); n++ {
		}
		return in.St.Facts.Feasible()
	})
}

// Close adds to the facts the equalities that follow by congruence: a function
// has one value for equal arguments. It reports whether there were any.
func (in *In) Close(qs ...Lin) bool {
	f := &in.St.Facts
	fam := map[string][]Sym{}
	var order []string
	seen := map[Sym]bool{}
	var add func(l Lin)
	add = func(l Lin) {
		for _, t := range l.T {
			if seen[t.S] {
				continue
			}
			seen[t.S] = true
			if fn, a := t.S.App(); fn != "" && len(a) > 0 {
				if fam[fn] == nil {
					order = append(order, fn)
				}
				fam[fn] = append(fam[fn], t.S)
				for _, x := range a {
					add(x)
				}
			}
		}
	}
	for _, g := range f.ge {
		add(g)
	}
	for _, g := range f.ne {
		add(g)
	}
	for _, q := range qs {
		add(q)
	}
	done := map[[2]Sym]bool{}
	any := false
	for changed := true; changed; {
		changed = false
		for _, fn := range order {
			ss := fam[fn]
			if len(ss) > 60 {
				continue
			}
			for i, s := range ss {
				_, x := s.App()
				for _, t := range ss[:i] {
					if done[[2]Sym{s, t}] {
						continue
					}
					_, y := t.App()
					eq := len(x) == len(y)
					for j := 0; eq && j < len(x); j++ {
						eq = x[j].Same(y[j]) || f.EntailsEQ(x[j].Sub(y[j]))
					}
					if !eq {
						continue
					}
					done[[2]Sym{s, t}] = true
					if d := V(s).Sub(V(t)); !f.EntailsEQ(d) {
						f.AddEQ(d)
						changed, any = true, true
					}
				}
			}
		}
	}
	return any
}

// eqv is ValEq without congruence closure.
func (in *In) eqv(a, b Val) bool {
	in.noClose++
	defer func() { in.noClose-- }()
	return in.ValEq(a, b)
}

// ValEq reports whether two values are known to be equal.
func (in *In) ValEq(a, b Val) bool {
	if in.sameVal(a, b) {
		return true
	}
	switch x := a.(type) {
	case Lin:
		switch y := b.(type) {
		case Lin:
			if in.LinEq(x, y) {
				return true
			}
			if in.Hooks.EqVal != nil {
				if c, ok := in.Hooks.EqVal(in, x, y); ok {
					return in.Must(c)
				}
			}
			if c, ok := in.nilCond(x); ok && y.IsConst(0) {
				return in.Must(c)
			}
			if c, ok := in.nilCond(y); ok && x.IsConst(0) {
				return in.Must(c)
			}
			s, ok1 := x.Single()
			t, ok2 := y.Single()
			if ok1 && ok2 && in.St.ObjOf[s] != nil {
				return in.St.ObjOf[s] == in.St.ObjOf[t]
			}
		case *Ptr:
			return in.Must(in.PtrEq(x, y))
		case *StructV:
			return in.ValEq(in.expand(x, y.Typ), y)
		}
	case *Ptr:
		switch b.(type) {
		case *Ptr, Lin:
			return in.Must(in.PtrEq(a, b))
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			return in.Always(func() bool { return in.Branch(x) == in.Branch(y) })
		}
	case *StructV:
		switch y := b.(type) {
		case *StructV:
			if len(x.F) != len(y.F) {
				return false
			}
			for i := range x.F {
				if !in.ValEq(x.F[i], y.F[i]) {
					return false
				}
			}
			return true
		case Lin:
			return in.ValEq(x, in.expand(y, x.Typ))
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			for i := range x {
				if !in.ValEq(x[i], y[i]) {
					return false
				}
			}
			return true
		}
	case FnSym:
		if y, ok := b.(FnSym); ok {
			return in.LinEq(x.L, y.L)
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return in.WordEq(x.W, y.W)
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			return in.WordEq(x.W, y.W)
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			if x.Arr == nil || y.Arr == nil {
				return in.LinEq(x.Len, y.Len) && in.Must(EQ(x.Len))
			}
			return x.Arr == y.Arr && samePath(x.Path, y.Path) && in.LinEq(x.Off, y.Off) && in.LinEq(x.Len, y.Len)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			return types.Identical(x.T, y.T) && in.ValEq(x.V, y.V)
		}
	}
	return false
}

// Content is the word of the elements of a slice.
func (in *In) Content(s Slice) Word {
	if s.Arr == nil {
		return nil
	}
	c, ok := in.St.Mem[s.Arr]
	if !ok {
		in.Undecided("read of dead array %s", s.Arr)
	}
	v, _ := in.loadPath(c, s.Arr.Typ, s.Path)
	a, ok := v.(*ArrV)
	if !ok {
		in.Undecided("slice of %s", ValString(v))
	}
	return in.Sub(a.W, s.Off, s.Off.Add(s.Len))
}

// WriteRange replaces the elements from position pos of a slice's window on.
func (in *In) WriteRange(s Slice, pos Lin, w Word) {
	n := w.Len()
	if in.Must(EQ(n)) {
		return
	}
	c := in.St.Mem[s.Arr]
	if c == nil {
		in.Undecided("write of dead array %s", s.Arr)
	}
	v, _ := in.loadPath(c, s.Arr.Typ, s.Path)
	a, ok := v.(*ArrV)
	if !ok {
		in.Undecided("slice of %s", ValString(v))
	}
	at := s.Off.Add(pos)
	pre, rest := in.Split(a.W, at)
	_, post := in.Split(rest, n)
	nv := &ArrV{pre.Cat(w, post), a.Elem}
	in.St.Writes = append(in.St.Writes, Write{s.Arr, append(s.Path[:len(s.Path):len(s.Path)], Step{Idx: &at}), in.Pos(), StrV{w}})
	if in.Hooks.Store != nil {
		in.Hooks.Store(in, &Ptr{s.Arr, append(s.Path[:len(s.Path):len(s.Path)], Step{Idx: &at})}, StrV{w})
	}
	in.St.Mem[s.Arr] = in.replace(c, s.Arr.Typ, s.Path, nv)
}

func (in *In) replace(c Val, t types.Type, p []Step, v Val) Val {
	return in.storePath(c, t, p, v)
}

// ---- constants ----

func (in *In) constVal(c *ssa.Const, env Tenv) Val {
	t := SubstType(c.Type(), env)
	if c.Value == nil {
		return in.Zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return C(i)
		}
		return UFL("const:" + c.Value.ExactString())
	case constant.String:
		s := constant.StringVal(c.Value)
		var w Word
		for i := 0; i < len(s); i++ {
			w = append(w, Item(C(int64(s[i]))))
		}
		return StrV{w}
	case constant.Float:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return C(i)
		}
		return UFL("const:" + c.Value.ExactString())
	}
	in.Undecided("constant %s", c)
	return nil
}

// PreObj makes an object that existed before the analysed operation.
func (in *In) PreObj(t types.Type, name string, content Val) *Obj {
	o := in.newObj(t, name, false)
	o.Sym = NewSym("&" + name)
	in.St.Facts.AddNE(V(o.Sym))
	in.St.Mem[o] = content
	in.St.ObjOf[o.Sym] = o
	return o
}

// MulGE adds the lemma that the product of two numbers known to be
// non-negative is so.
func (in *In) MulGE(a, b Lin) {
	if in.Must(GE(a)) && in.Must(GE(b)) {
		in.St.Facts.AddGE(in.Mul(a, b))
	}
}

// RowFacts adds what 0 <= y < h says of the row's place in a grid of width w.
func (in *In) RowFacts(x, y, w, h Lin) {
	in.MulGE(y, w)
	in.MulGE(h.Sub(y).Plus(-1), w)
	in.MulGE(h, w)
}

// RowOrder adds what the order of two rows says of their places.
func (in *In) RowOrder(y, y2, w Lin) {
	in.MulGE(y2.Sub(y).Plus(-1), w)
	in.MulGE(y.Sub(y2).Plus(-1), w)
	if in.Must(EQ(y.Sub(y2))) {
		in.St.Facts.AddEQ(in.Mul(y, w).Sub(in.Mul(y2, w)))
	}
}

// Touched are the members of a pointer family that were materialised.
func (in *In) Touched(fam string) []*Obj {
	var r []*Obj
	for s, o := range in.St.ObjOf {
		if f, _ := s.App(); f == fam && o.Sym == s {
			r = append(r, o)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// RegisterAtom makes the elements of an opaque sequence recognisable.
func RegisterAtom(a *Atom) { atomProto[a.Name] = a }

// Panic is a panic of the analysed program.
func (in *In) Panic(f string, a ...any) { in.panicProg(f, a...) }

// Instantiate applies what is known of all iterations of the summarised loops
// about an enumeration to the one for an element x of the content enumerated.
func (in *In) Instantiate(x Lin, snapHas func(m *MapC) bool) {
	var its []Sym
	for s := range in.iters {
		its = append(its, s)
	}
	sort.Slice(its, func(i, j int) bool { return its[i] < its[j] })
	for _, it := range its {
		var about []Forall
		for _, f := range in.St.Foralls {
			m := false
			for _, c := range f.Cases {
				for _, g := range c.GE {
					m = m || g.Mentions(it)
				}
				for _, g := range c.NE {
					m = m || g.Mentions(it)
				}
			}
			if m {
				about = append(about, f)
			}
		}
		if len(about) == 0 || !snapHas(in.iters[it]) {
			continue
		}
		w := UFL("map.idx", V(it), x)
		in.Assume(GE(w))
		in.Assume(LT(w, in.MapLen(in.iters[it])))
		in.Assume(EQ(UFL("map.key", V(it), w).Sub(x)))
		for _, f := range about {
			if !in.Branch(LT(w, f.N)) {
				continue
			}
			i := in.Choose(len(f.Cases))
			in.assumeCase(f.Cases[i], f.K, w)
		}
	}
}

// HasTerms are the keys whose membership in a base content was asked.
func HasTerms(base Lin) []Lin {
	var r []Lin
	for _, s := range ufByFn["map.has"] {
		_, a := s.App()
		if len(a) == 2 && a[0].Same(base) {
			r = append(r, a[1])
		}
	}
	return r
}

// InLoop tells whether the current state is that of a loop whose effect is not
// established yet.
func (in *In) InLoop() bool { return in.inLoop > 0 }

// Parts analyses every trace partition of body from a copy of the current state.
func (in *In) Parts(body func() bool, out func(r bool)) {
	in.sub(func() any { return body() }, func(r any, pp *ProgPanic) {
		if pp == nil {
			out(r.(bool))
		}
	})
}

// Bool01 declares a family of conditions.
func Bool01(fn string) { bool01[fn] = true }

// Nonneg declares a family of natural numbers.
func Nonneg(fn string) { nonneg[fn] = true }

// Lin is a scalar value as a linear expression.
func (in *In) Lin(v Val) Lin { return in.lin(v) }

// DropEmpty drops the empty pieces at the start of a word.
func (in *In) DropEmpty(w Word) Word { return in.Norm(w) }

// Method calls a method of a value of an interface type.
func (in *In) Method(recv Val, name string, args ...Val) Val {
	i, ok := recv.(*IfaceV)
	if !ok {
		in.Undecided("method %s of %s", name, ValString(recv))
	}
	o, _, _ := types.LookupFieldOrMethod(i.T, true, nil, name)
	m, ok := o.(*types.Func)
	if !ok {
		in.Undecided("method %s of %s", name, i.T)
	}
	return in.callMethod(nil, i.V, i.T, m, args)
}
