package ai

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value: one of Lin, Bool, *Ptr, Slice, *StructV, *ArrV,
// TupleV, *Closure, FnSym, StrV, *IfaceV, *MapC (as the content of a map
// object).
type Val interface{}

// BKind is the kind of a condition.
type BKind uint8

const (
	BTrue BKind = iota
	BFalse
	BGE
	BEQ
	BNE
)

// Bool is a condition on a linear expression.
type Bool struct {
	K BKind
	E Lin
}

var True, False = Bool{K: BTrue}, Bool{K: BFalse}

func GE(e Lin) Bool {
	if k, ok := e.Const(); ok {
		return B(k >= 0)
	}
	return Bool{BGE, e}
}
func EQ(e Lin) Bool {
	if k, ok := e.Const(); ok {
		return B(k == 0)
	}
	return Bool{BEQ, e}
}
func NE(e Lin) Bool {
	if k, ok := e.Const(); ok {
		return B(k != 0)
	}
	return Bool{BNE, e}
}
func LT(a, b Lin) Bool { return GE(b.Sub(a).Plus(-1)) }
func LE(a, b Lin) Bool { return GE(b.Sub(a)) }
func B(b bool) Bool {
	if b {
		return True
	}
	return False
}
func (b Bool) Not() Bool {
	switch b.K {
	case BTrue:
		return False
	case BFalse:
		return True
	case BGE:
		return GE(b.E.Neg().Plus(-1))
	case BEQ:
		return NE(b.E)
	}
	return EQ(b.E)
}
func (b Bool) String() string {
	switch b.K {
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	case BGE:
		return b.E.String() + ">=0"
	case BEQ:
		return b.E.String() + "==0"
	}
	return b.E.String() + "!=0"
}

// BoolSym is the condition that a 0/1 symbol is 1.
func BoolSym(l Lin) Bool { return EQ(l.Plus(-1)) }

// Obj is an abstract memory object: one allocation site instance, one global,
// or one object that existed before the analysed operation.
type Obj struct {
	ID    int
	Sym   Sym
	Fresh bool
	Typ   types.Type
	Name  string
	Const bool // stores into it are violations of the spec's frame
}

func (o *Obj) String() string { return o.Name }

// Step is a step into an object: a field (Idx==nil) or an element.
type Step struct {
	F   int
	Idx *Lin
}

// Ptr is the address of an object or of a part of it.
type Ptr struct {
	Obj  *Obj
	Path []Step
}

func (p *Ptr) with(s Step) *Ptr {
	return &Ptr{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], s)}
}
func (p *Ptr) String() string {
	s := "&" + p.Obj.Name
	for _, x := range p.Path {
		if x.Idx != nil {
			s += "[" + x.Idx.String() + "]"
		} else {
			s += fmt.Sprintf(".%d", x.F)
		}
	}
	return s
}

// Slice is a slice value: a window on an array.
type Slice struct {
	Arr           *Obj // nil: the nil slice
	Path          []Step
	Off, Len, Cap Lin
	NilB          Bool // whether it is nil
}

// StructV is a struct value.
type StructV struct {
	Typ types.Type
	F   []Val
}

func (s *StructV) set(i int, v Val) *StructV {
	n := &StructV{s.Typ, append([]Val(nil), s.F...)}
	n.F[i] = v
	return n
}

// ArrV is an array value, and the content of array objects.
type ArrV struct {
	W    Word
	Elem types.Type
}

type TupleV []Val

// Closure is a known function with its captured variables.
type Closure struct {
	Fn   *ssa.Function
	Free []Val
	Tenv Tenv
}

// FnSym is an unknown function value.
type FnSym struct{ L Lin }

// StrV is a string: a word of bytes.
type StrV struct{ W Word }

// IfaceV is an interface value with a known dynamic type.
type IfaceV struct {
	T types.Type
	V Val
}

// Opaque is a value about which nothing is modelled.
type Opaque struct{ Name string }

// MapC is the content of a map: a base content and later changes.
type MapC struct {
	Base Lin // symbol of the unknown base content; 0 for empty
	Over []MapE
	Bulk []MapBulk
	Len  Lin
	K, V types.Type
}

// MapE is an override of one key.
type MapE struct {
	Key     Val
	Val     Val
	Present bool
}

// MapBulk is the effect of a loop: iteration J in [0,N) did what the one of
// Cases whose conditions hold says.
type MapBulk struct {
	After int // number of overrides it comes after
	J     Sym
	N     Lin
	Cases []BulkCase
}

// BulkCase: under the conditions, Key was set to Val (or deleted), or nothing
// was done.
type BulkCase struct {
	GE, NE   []Lin
	None     bool
	Del      bool
	Key, Val Val
}

func (b *BulkCase) subst(s Sym, e Lin) BulkCase {
	n := BulkCase{substLins(b.GE, s, e), substLins(b.NE, s, e), b.None, b.Del, b.Key, b.Val}
	if !b.None {
		n.Key = substVal(b.Key, s, e)
		if !b.Del {
			n.Val = substVal(b.Val, s, e)
		}
	}
	return n
}

func (m *MapC) clone() *MapC {
	n := *m
	n.Over = append([]MapE(nil), m.Over...)
	n.Bulk = append([]MapBulk(nil), m.Bulk...)
	return &n
}

// ---- words ----

// PieceKind is the kind of a piece of a word.
type PieceKind uint8

const (
	PItem PieceKind = iota
	PSeg
	PFill
	PComp
)

// Case is one way an iteration of a summarised loop can go.
type Case struct {
	GE, NE []Lin
	Items  Word
}

// Piece is a part of a word: one item, the elements [Lo,Hi) of an opaque
// sequence A, N copies of V, or the items the iterations 0..N-1 of a loop add
// (K the bound iteration symbol).
type Piece struct {
	Kind   PieceKind
	V      Val
	A      *Atom
	Lo, Hi Lin
	N      Lin
	K      Sym
	Cases  []Case
	LenL   Lin // length of a conditional comprehension
}

// Atom is an opaque sequence: the unknown content of a slice or string.
type Atom struct {
	Name string
	Args []Lin
	Elem types.Type
	Tenv Tenv
}

// Word is a finite sequence described by pieces.
type Word []Piece

func Item(v Val) Piece              { return Piece{Kind: PItem, V: v} }
func Seg(a *Atom, lo, hi Lin) Piece { return Piece{Kind: PSeg, A: a, Lo: lo, Hi: hi} }
func Fill(v Val, n Lin) Piece       { return Piece{Kind: PFill, V: v, N: n} }
func (w Word) Cat(o ...Word) Word {
	r := append(Word(nil), w...)
	for _, x := range o {
		r = append(r, x...)
	}
	return r
}

func (p Piece) Len() Lin {
	switch p.Kind {
	case PItem:
		return C(1)
	case PSeg:
		return p.Hi.Sub(p.Lo)
	case PFill:
		return p.N
	}
	return p.LenL
}

func (w Word) Len() Lin {
	r := C(0)
	for _, p := range w {
		r = r.Add(p.Len())
	}
	return r
}

func (w Word) String() string {
	var s []string
	for _, p := range w {
		switch p.Kind {
		case PItem:
			s = append(s, ValString(p.V))
		case PSeg:
			s = append(s, fmt.Sprintf("%s[%s:%s]", p.A.Name, p.Lo, p.Hi))
		case PFill:
			s = append(s, fmt.Sprintf("%s x(%s)", ValString(p.V), p.N))
		case PComp:
			var cs []string
			for _, c := range p.Cases {
				cs = append(cs, fmt.Sprintf("{%v,%v: %s}", c.GE, c.NE, c.Items))
			}
			s = append(s, fmt.Sprintf("for %s<%s %s", p.K.Name(), p.N, strings.Join(cs, "|")))
		}
	}
	return "<" + strings.Join(s, " ") + ">"
}

func ValString(v Val) string {
	switch v := v.(type) {
	case nil:
		return "_"
	case Lin:
		return v.String()
	case Bool:
		return v.String()
	case *Ptr:
		return v.String()
	case Slice:
		if v.Arr == nil {
			return "nil[]"
		}
		return fmt.Sprintf("%s[%s:+%s]", (&Ptr{v.Arr, v.Path}).String(), v.Off, v.Len)
	case *StructV:
		var s []string
		for _, f := range v.F {
			s = append(s, ValString(f))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *ArrV:
		return "arr" + v.W.String()
	case TupleV:
		var s []string
		for _, f := range v {
			s = append(s, ValString(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *Closure:
		return "func " + v.Fn.Name()
	case FnSym:
		return "fn " + v.L.String()
	case StrV:
		return "str" + v.W.String()
	case *IfaceV:
		return "iface " + ValString(v.V)
	case *MapC:
		return fmt.Sprintf("map(%s,%v,%v)", v.Base, v.Over, v.Bulk)
	}
	return fmt.Sprintf("%v", v)
}

// ---- substitution of a symbol in values (loop templates) ----

func substVal(v Val, s Sym, e Lin) Val {
	switch v := v.(type) {
	case Lin:
		return v.Subst(s, e)
	case Bool:
		switch v.K {
		case BTrue, BFalse:
			return v
		case BGE:
			return GE(v.E.Subst(s, e))
		case BEQ:
			return EQ(v.E.Subst(s, e))
		}
		return NE(v.E.Subst(s, e))
	case *StructV:
		n := &StructV{Typ: v.Typ}
		for _, f := range v.F {
			n.F = append(n.F, substVal(f, s, e))
		}
		return n
	case TupleV:
		n := TupleV{}
		for _, f := range v {
			n = append(n, substVal(f, s, e))
		}
		return n
	case FnSym:
		return FnSym{v.L.Subst(s, e)}
	case Slice:
		v.Off, v.Len, v.Cap = v.Off.Subst(s, e), v.Len.Subst(s, e), v.Cap.Subst(s, e)
		v.NilB = substVal(v.NilB, s, e).(Bool)
		v.Path = substPath(v.Path, s, e)
		return v
	case *Ptr:
		return &Ptr{v.Obj, substPath(v.Path, s, e)}
	case StrV:
		return StrV{substWord(v.W, s, e)}
	case *ArrV:
		return &ArrV{substWord(v.W, s, e), v.Elem}
	case *IfaceV:
		return &IfaceV{v.T, substVal(v.V, s, e)}
	case *MapC:
		n := v.clone()
		n.Base, n.Len = n.Base.Subst(s, e), n.Len.Subst(s, e)
		for i := range n.Over {
			o := &n.Over[i]
			o.Key = substVal(o.Key, s, e)
			if o.Present {
				o.Val = substVal(o.Val, s, e)
			}
		}
		for i := range n.Bulk {
			b := &n.Bulk[i]
			b.N = b.N.Subst(s, e)
			if b.J != s {
				cs := make([]BulkCase, len(b.Cases))
				for j := range b.Cases {
					cs[j] = b.Cases[j].subst(s, e)
				}
				b.Cases = cs
			}
		}
		return n
	case *Closure:
		n := &Closure{Fn: v.Fn, Tenv: v.Tenv}
		for _, f := range v.Free {
			n.Free = append(n.Free, substVal(f, s, e))
		}
		return n
	}
	return v
}

func substPath(p []Step, s Sym, e Lin) []Step {
	var r []Step
	for _, x := range p {
		if x.Idx != nil {
			l := x.Idx.Subst(s, e)
			x.Idx = &l
		}
		r = append(r, x)
	}
	return r
}

func substLins(ls []Lin, s Sym, e Lin) []Lin {
	var r []Lin
	for _, l := range ls {
		r = append(r, l.Subst(s, e))
	}
	return r
}

func substAtom(a *Atom, s Sym, e Lin) *Atom {
	ch := false
	for _, x := range a.Args {
		if x.Mentions(s) {
			ch = true
		}
	}
	if !ch {
		return a
	}
	n := *a
	n.Args = substLins(a.Args, s, e)
	return &n
}

func substWord(w Word, s Sym, e Lin) Word {
	var r Word
	for _, p := range w {
		switch p.Kind {
		case PItem:
			p.V = substVal(p.V, s, e)
		case PSeg:
			p.A = substAtom(p.A, s, e)
			p.Lo, p.Hi = p.Lo.Subst(s, e), p.Hi.Subst(s, e)
		case PFill:
			p.V = substVal(p.V, s, e)
			p.N = p.N.Subst(s, e)
		case PComp:
			p.N = p.N.Subst(s, e)
			p.LenL = p.LenL.Subst(s, e)
			var cs []Case
			for _, c := range p.Cases {
				cs = append(cs, Case{substLins(c.GE, s, e), substLins(c.NE, s, e), substWord(c.Items, s, e)})
			}
			p.Cases = cs
		}
		r = append(r, p)
	}
	return r
}

// MentionsVal reports whether a value depends on a symbol.
func MentionsVal(v Val, s Sym) bool {
	m := func(l Lin) bool { return l.Mentions(s) }
	switch v := v.(type) {
	case Lin:
		return m(v)
	case Bool:
		return m(v.E)
	case *StructV:
		for _, f := range v.F {
			if MentionsVal(f, s) {
				return true
			}
		}
	case TupleV:
		for _, f := range v {
			if MentionsVal(f, s) {
				return true
			}
		}
	case FnSym:
		return m(v.L)
	case Slice:
		if m(v.Off) || m(v.Len) || m(v.Cap) {
			return true
		}
		for _, x := range v.Path {
			if x.Idx != nil && m(*x.Idx) {
				return true
			}
		}
	case *Ptr:
		for _, x := range v.Path {
			if x.Idx != nil && m(*x.Idx) {
				return true
			}
		}
	case StrV:
		return mentionsWord(v.W, s)
	case *ArrV:
		return mentionsWord(v.W, s)
	case *IfaceV:
		return MentionsVal(v.V, s)
	case *Closure:
		for _, f := range v.Free {
			if MentionsVal(f, s) {
				return true
			}
		}
	}
	return false
}

func mentionsWord(w Word, s Sym) bool {
	for _, p := range w {
		switch p.Kind {
		case PItem:
			if MentionsVal(p.V, s) {
				return true
			}
		case PSeg:
			if p.Lo.Mentions(s) || p.Hi.Mentions(s) {
				return true
			}
			for _, x := range p.A.Args {
				if x.Mentions(s) {
					return true
				}
			}
		case PFill:
			if MentionsVal(p.V, s) || p.N.Mentions(s) {
				return true
			}
		case PComp:
			if p.N.Mentions(s) {
				return true
			}
			for _, c := range p.Cases {
				if mentionsWord(c.Items, s) {
					return true
				}
			}
		}
	}
	return false
}
