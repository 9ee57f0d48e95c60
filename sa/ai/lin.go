// Package ai is a forward abstract interpreter over the go/ssa form of the
// analysed packages. Its abstract domain is a product of
//
//   - linear inequalities over symbolic scalars (this file),
//   - a symbolic heap with lazily materialised summary nodes (heap.go), and
//   - a sequence domain: words over opaque segments (word.go).
//
// Nothing is executed: every loop and every recursion is replaced by an
// abstraction that covers all its iterations (loops.go, the specs' contracts).
package ai

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Sym is a symbolic scalar: an unknown integer, key, value, pointer, ...
type Sym int32

type symInfo struct {
	name string
	fn   string
	args []Lin
}

var syms = []symInfo{{name: "0"}}
var ufTable = map[string]Sym{}
var ufByFn = map[string][]Sym{}

// ResetSyms forgets every symbol: each trace partition is analysed afresh.
func ResetSyms() {
	syms = syms[:1]
	ufTable = map[string]Sym{}
	ufByFn = map[string][]Sym{}
}

// NewSym returns a new unconstrained symbol.
func NewSym(name string) Sym {
	syms = append(syms, symInfo{name: fmt.Sprintf("%s#%d", name, len(syms))})
	return Sym(len(syms) - 1)
}

// UF returns the symbol that stands for an uninterpreted function applied to
// the arguments: the same function and arguments give the same symbol.
func UF(fn string, args ...Lin) Sym {
	key := fn
	for _, a := range args {
		key += "|" + a.key()
	}
	if s, ok := ufTable[key]; ok {
		return s
	}
	n := fn
	if len(args) > 0 {
		n += "("
		for i, a := range args {
			if i > 0 {
				n += ","
			}
			n += a.String()
		}
		n += ")"
	}
	syms = append(syms, symInfo{name: n, fn: fn, args: args})
	s := Sym(len(syms) - 1)
	ufTable[key] = s
	ufByFn[fn] = append(ufByFn[fn], s)
	return s
}

func (s Sym) Name() string { return syms[s].name }

// App returns the function and arguments of a symbol made by UF.
func (s Sym) App() (string, []Lin) { return syms[s].fn, syms[s].args }

// Term is a coefficient times a symbol.
type Term struct {
	S Sym
	C int64
}

// Lin is a linear expression K + sum(T), its terms sorted by symbol.
type Lin struct {
	K int64
	T []Term
}

func C(k int64) Lin { return Lin{K: k} }
func V(s Sym) Lin   { return Lin{T: []Term{{s, 1}}} }

// UFL is UF as an expression.
func UFL(fn string, args ...Lin) Lin { return V(UF(fn, args...)) }

func (a Lin) Add(b Lin) Lin {
	r := Lin{K: a.K + b.K}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || i < len(a.T) && a.T[i].S < b.T[j].S:
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].S < a.T[i].S:
			r.T = append(r.T, b.T[j])
			j++
		default:
			if c := a.T[i].C + b.T[j].C; c != 0 {
				r.T = append(r.T, Term{a.T[i].S, c})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) Scale(c int64) Lin {
	if c == 0 {
		return Lin{}
	}
	r := Lin{K: a.K * c, T: make([]Term, len(a.T))}
	for i, t := range a.T {
		r.T[i] = Term{t.S, t.C * c}
	}
	return r
}
func (a Lin) Neg() Lin         { return a.Scale(-1) }
func (a Lin) Sub(b Lin) Lin    { return a.Add(b.Neg()) }
func (a Lin) Plus(k int64) Lin { a.K += k; return a }

func (a Lin) Const() (int64, bool) { return a.K, len(a.T) == 0 }
func (a Lin) IsConst(k int64) bool { return len(a.T) == 0 && a.K == k }

// Single returns the symbol if the expression is exactly one symbol.
func (a Lin) Single() (Sym, bool) {
	if a.K == 0 && len(a.T) == 1 && a.T[0].C == 1 {
		return a.T[0].S, true
	}
	return 0, false
}
func (a Lin) Same(b Lin) bool {
	if a.K != b.K || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}
func (a Lin) Coef(s Sym) int64 {
	for _, t := range a.T {
		if t.S == s {
			return t.C
		}
	}
	return 0
}

// Subst replaces symbol s by e, within the arguments of function symbols too.
func (a Lin) Subst(s Sym, e Lin) Lin {
	r := Lin{K: a.K}
	ch := false
	var add []Lin
	for _, t := range a.T {
		if t.S == s {
			add = append(add, e.Scale(t.C))
			ch = true
			continue
		}
		if n := substSym(t.S, s, e); n != t.S {
			add = append(add, V(n).Scale(t.C))
			ch = true
			continue
		}
		r.T = append(r.T, t)
	}
	if !ch {
		return a
	}
	for _, x := range add {
		r = r.Add(x)
	}
	return r
}

func substSym(t, s Sym, e Lin) Sym {
	fn, args := t.App()
	if len(args) == 0 {
		return t
	}
	ch := false
	na := make([]Lin, len(args))
	for i, x := range args {
		na[i] = x.Subst(s, e)
		if !na[i].Same(x) {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return UF(fn, na...)
}

// drop removes the term of symbol s.
func (a Lin) drop(s Sym) Lin {
	r := Lin{K: a.K}
	for _, t := range a.T {
		if t.S != s {
			r.T = append(r.T, t)
		}
	}
	return r
}

// elim replaces symbol s by e at the top level only.
func (a Lin) elim(s Sym, e Lin) Lin {
	c := a.Coef(s)
	if c == 0 {
		return a
	}
	return a.drop(s).Add(e.Scale(c))
}

// Mentions reports whether the expression contains symbol s, at any depth.
func (a Lin) Mentions(s Sym) bool {
	for _, t := range a.T {
		if t.S == s {
			return true
		}
		_, args := t.S.App()
		for _, x := range args {
			if x.Mentions(s) {
				return true
			}
		}
	}
	return false
}

func (a Lin) String() string {
	if len(a.T) == 0 {
		return fmt.Sprint(a.K)
	}
	var b strings.Builder
	for i, t := range a.T {
		switch {
		case t.C == 1 && i > 0:
			b.WriteByte('+')
		case t.C == -1:
			b.WriteByte('-')
		case t.C != 1:
			fmt.Fprintf(&b, "%+d*", t.C)
		}
		b.WriteString(t.S.Name())
	}
	if a.K != 0 {
		fmt.Fprintf(&b, "%+d", a.K)
	}
	return b.String()
}

func (a Lin) key() string {
	b := make([]byte, 0, 16+12*len(a.T))
	b = appendInt(b, a.K)
	for _, t := range a.T {
		b = append(b, ';')
		b = appendInt(b, int64(t.S))
		b = append(b, '*')
		b = appendInt(b, t.C)
	}
	return string(b)
}
func (a Lin) tkey() string {
	b := make([]byte, 0, 12*len(a.T))
	for _, t := range a.T {
		b = append(b, ';')
		b = appendInt(b, int64(t.S))
		b = append(b, '*')
		b = appendInt(b, t.C)
	}
	return string(b)
}
func appendInt(b []byte, v int64) []byte { return strconv.AppendInt(b, v, 10) }

// Facts is a conjunction of linear constraints: what is known on entry to a
// program point. ge are expressions known to be >= 0, ne known to be != 0.
type Facts struct {
	ge  []Lin
	ne  []Lin
	has map[string]bool
	bad bool
	ent map[string]bool
	sol *solved
}

func (f *Facts) Clone() Facts {
	n := Facts{ge: f.ge[:len(f.ge):len(f.ge)], ne: append([]Lin(nil), f.ne...), bad: f.bad, sol: f.sol, has: make(map[string]bool, len(f.has)+4)}
	for k := range f.has {
		n.has[k] = true
	}
	return n
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// normGE divides an inequality by the gcd of its coefficients, rounding the
// constant towards the integers.
func normGE(e Lin) Lin {
	if len(e.T) == 0 {
		return e
	}
	g := int64(0)
	for _, t := range e.T {
		g = gcd(g, t.C)
	}
	if g > 1 {
		r := Lin{K: floorDiv(e.K, g), T: make([]Term, len(e.T))}
		for i, t := range e.T {
			r.T[i] = Term{t.S, t.C / g}
		}
		return r
	}
	return e
}

// AddGE adds e >= 0.
func (f *Facts) AddGE(e Lin) {
	e = normGE(e)
	if k, ok := e.Const(); ok {
		if k < 0 {
			f.bad = true
		}
		return
	}
	k := e.key()
	if f.has[k] {
		return
	}
	if f.has == nil {
		f.has = map[string]bool{}
	}
	f.has[k] = true
	f.ge = append(f.ge, e)
	f.ent = nil
	// pending disequalities may now be decided
	for i := 0; i < len(f.ne); i++ {
		d := f.ne[i]
		if f.EntailsGE(d) {
			f.ne = append(f.ne[:i:i], f.ne[i+1:]...)
			f.AddGE(d.Plus(-1))
			i = -1
		} else if f.EntailsGE(d.Neg()) {
			f.ne = append(f.ne[:i:i], f.ne[i+1:]...)
			f.AddGE(d.Neg().Plus(-1))
			i = -1
		}
	}
}
func (f *Facts) AddEQ(e Lin) { f.AddGE(e); f.AddGE(e.Neg()) }
func (f *Facts) AddNE(e Lin) {
	if k, ok := e.Const(); ok {
		if k == 0 {
			f.bad = true
		}
		return
	}
	if f.EntailsGE(e) {
		f.AddGE(e.Plus(-1))
	} else if f.EntailsGE(e.Neg()) {
		f.AddGE(e.Neg().Plus(-1))
	} else {
		f.ne = append(f.ne[:len(f.ne):len(f.ne)], e)
		f.ent = nil
	}
}

// EntailsGE reports whether the facts imply e >= 0.
func (f *Facts) EntailsGE(e Lin) bool {
	if f.bad {
		return true
	}
	e = normGE(e)
	if k, ok := e.Const(); ok {
		return k >= 0
	}
	k := e.key()
	if f.has[k] {
		return true
	}
	if v, ok := f.ent[k]; ok {
		return v
	}
	v := f.decide(e)
	if f.ent == nil {
		f.ent = map[string]bool{}
	}
	f.ent[k] = v
	return v
}
func (f *Facts) EntailsEQ(e Lin) bool {
	if k, ok := e.Const(); ok {
		return k == 0 || f.bad
	}
	return f.EntailsGE(e) && f.EntailsGE(e.Neg())
}
func (f *Facts) EntailsNE(e Lin) bool {
	if f.bad {
		return true
	}
	if k, ok := e.Const(); ok {
		return k != 0
	}
	if f.EntailsGE(e.Plus(-1)) || f.EntailsGE(e.Neg().Plus(-1)) {
		return true
	}
	for _, d := range f.ne {
		// d != 0 and e == +-d (modulo known equalities)
		if f.EntailsEQ(e.Sub(d)) || f.EntailsEQ(e.Add(d)) {
			return true
		}
	}
	return false
}

// nonneg and bool01 are the functions whose values are known to be at least
// zero, or zero or one; ufAxioms gives further axioms of a function.
var nonneg = map[string]bool{}
var bool01 = map[string]bool{}
var ufAxioms = map[string]func(s Sym, args []Lin) []Lin{
	// quotient of a non-negative number by a constant, rounded down
	"div": func(s Sym, a []Lin) []Lin {
		c := a[1].K
		return []Lin{a[0].Sub(V(s).Scale(c)), V(s).Scale(c).Plus(c - 1).Sub(a[0])}
	},
}

func axioms(s Sym) []Lin {
	fn, args := s.App()
	if fn == "" {
		return nil
	}
	var r []Lin
	if nonneg[fn] || bool01[fn] {
		r = append(r, V(s))
	}
	if bool01[fn] {
		r = append(r, C(1).Sub(V(s)))
	}
	if f := ufAxioms[fn]; f != nil {
		r = append(r, f(s, args)...)
	} else if strings.HasSuffix(fn, ".cap") {
		l := strings.TrimSuffix(fn, ".cap") + ".len"
		nonneg[l] = true
		r = append(r, V(s).Sub(UFL(l, args...)))
	}
	return r
}

// solved is a fact set with its equalities substituted away.
type solved struct {
	n   int // of the facts, those that are in
	ver int
	sub map[Sym]Lin    // what eliminated symbols are, in terms of the others
	cs  []Lin          // what is left
	idx map[string]int // the place in cs of each coefficient vector
	by  map[Sym][]int  // the constraints that mention a symbol
	ax  map[Sym]bool   // the symbols whose axioms are in
	bad bool
}

func axVersion() int { return len(nonneg) + len(bool01) + len(ufAxioms) }

func (s *solved) clone() *solved {
	n := &solved{n: s.n, ver: s.ver, cs: append([]Lin(nil), s.cs...), bad: s.bad,
		sub: make(map[Sym]Lin, len(s.sub)), idx: make(map[string]int, len(s.idx)), by: make(map[Sym][]int, len(s.by)), ax: make(map[Sym]bool, len(s.ax))}
	for k, v := range s.sub {
		n.sub[k] = v
	}
	for k, v := range s.idx {
		n.idx[k] = v
	}
	for k, v := range s.by {
		n.by[k] = v[:len(v):len(v)]
	}
	for k, v := range s.ax {
		n.ax[k] = v
	}
	return n
}

// reduce writes an expression in terms of the symbols left.
func (s *solved) reduce(e Lin) Lin {
	if len(s.sub) == 0 {
		return e
	}
	for _, t := range e.T {
		if _, ok := s.sub[t.S]; ok {
			r := Lin{K: e.K}
			var rest []Lin
			for _, t := range e.T {
				if v, ok := s.sub[t.S]; ok {
					rest = append(rest, v.Scale(t.C))
				} else {
					r.T = append(r.T, t)
				}
			}
			for _, x := range rest {
				r = r.Add(x)
			}
			return r
		}
	}
	return e
}

func (s *solved) missing(e Lin) bool {
	for _, t := range e.T {
		if !s.ax[t.S] {
			return true
		}
	}
	return false
}

func (s *solved) add(queue ...Lin) {
	for len(queue) > 0 && !s.bad {
		e := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		for _, t := range e.T {
			if !s.ax[t.S] {
				s.ax[t.S] = true
				queue = append(queue, axioms(t.S)...)
			}
		}
		e = normGE(s.reduce(e))
		if k, ok := e.Const(); ok {
			if k < 0 {
				s.bad = true
			}
			continue
		}
		k := e.tkey()
		if i, ok := s.idx[k]; ok {
			if s.cs[i].K <= e.K {
				continue
			}
			s.cs[i] = e
		} else {
			s.idx[k] = len(s.cs)
			for _, t := range e.T {
				s.by[t.S] = append(s.by[t.S], len(s.cs))
			}
			s.cs = append(s.cs, e)
		}
		j, ok := s.idx[e.Neg().tkey()]
		if !ok {
			continue
		}
		sum := e.K + s.cs[j].K
		if sum < 0 {
			s.bad = true
			return
		}
		if sum > 0 {
			continue
		}
		// an equality: substitute the newest symbol with a unit coefficient
		for n := len(e.T) - 1; n >= 0; n-- {
			t := e.T[n]
			if t.C != 1 && t.C != -1 {
				continue
			}
			val := e.drop(t.S).Scale(-t.C)
			for k, v := range s.sub {
				s.sub[k] = v.elim(t.S, val)
			}
			s.sub[t.S] = val
			old := s.cs
			s.cs = nil
			s.idx = make(map[string]int, len(old))
			s.by = map[Sym][]int{}
			for _, c := range old {
				if c.Coef(t.S) != 0 {
					queue = append(queue, c)
					continue
				}
				s.idx[c.tkey()] = len(s.cs)
				for _, t := range c.T {
					s.by[t.S] = append(s.by[t.S], len(s.cs))
				}
				s.cs = append(s.cs, c)
			}
			break
		}
	}
}

func (f *Facts) solve(e Lin) *solved {
	s := f.sol
	switch {
	case s == nil || s.ver != axVersion() || s.n > len(f.ge):
		s = &solved{sub: map[Sym]Lin{}, idx: map[string]int{}, by: map[Sym][]int{}, ax: map[Sym]bool{}, ver: axVersion()}
	case s.n == len(f.ge) && !s.missing(e):
		return s
	default:
		s = s.clone()
	}
	s.add(append([]Lin(nil), f.ge[s.n:]...)...)
	s.n = len(f.ge)
	for _, t := range e.T {
		if !s.ax[t.S] {
			s.ax[t.S] = true
			s.add(axioms(t.S)...)
		}
	}
	s.ver = axVersion()
	f.sol = s
	return s
}

// diff tells whether an expression is to - from + K, a symbol or zero each.
func diff(e Lin) (from, to Sym, ok bool) {
	switch len(e.T) {
	case 1:
		switch e.T[0].C {
		case 1:
			return 0, e.T[0].S, true
		case -1:
			return e.T[0].S, 0, true
		}
	case 2:
		a, b := e.T[0], e.T[1]
		switch {
		case a.C == 1 && b.C == -1:
			return b.S, a.S, true
		case a.C == -1 && b.C == 1:
			return a.S, b.S, true
		}
	}
	return 0, 0, false
}

// decide reports whether the facts imply e >= 0.
func (f *Facts) decide(e Lin) bool {
	s := f.solve(e)
	if s.bad {
		return true
	}
	e = normGE(s.reduce(e))
	if k, ok := e.Const(); ok {
		return k >= 0
	}
	if i, ok := s.idx[e.tkey()]; ok && s.cs[i].K <= e.K {
		return true
	}
	cs, all := s.component(e)
	if from, to, ok := diff(e); ok {
		// shortest paths over the differences: each c = y - x + K >= 0 is an
		// edge from y to x of length K, and a path from to ... from of length d
		// says to - from >= -d
		type edge struct {
			a, b Sym
			k    int64
		}
		var es []edge
		for _, c := range cs {
			if x, y, ok := diff(c); ok {
				es = append(es, edge{y, x, c.K})
			}
		}
		dist := map[Sym]int64{to: 0}
		rounds := 0
		for changed := true; changed; rounds++ {
			changed = false
			for _, g := range es {
				if d, ok := dist[g.a]; ok {
					if o, ok := dist[g.b]; !ok || d+g.k < o {
						dist[g.b] = d + g.k
						changed = true
					}
				}
			}
			if rounds > len(es)+2 {
				s.bad = true // a negative cycle: the facts contradict each other
				return true
			}
		}
		if d, ok := dist[from]; ok && d <= e.K {
			return true
		}
		if all {
			return false
		}
	}
	return infeasible(cs, normGE(e.Neg().Plus(-1)))
}

// component returns the constraints that share symbols, transitively, with e,
// and tells whether they are all differences.
func (s *solved) component(e Lin) ([]Lin, bool) {
	in := map[Sym]bool{}
	used := make([]bool, len(s.cs))
	var todo []Sym
	visit := func(l Lin) {
		for _, t := range l.T {
			if !in[t.S] {
				in[t.S] = true
				todo = append(todo, t.S)
			}
		}
	}
	visit(e)
	var r []Lin
	all := true
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, i := range s.by[x] {
			if used[i] {
				continue
			}
			used[i] = true
			c := s.cs[i]
			r = append(r, c)
			if _, _, ok := diff(c); !ok {
				all = false
			}
			visit(c)
		}
	}
	return r, all
}

// FMLimit bounds the constraint systems of the linear domain's closure; a
// larger system is treated as satisfiable (nothing is concluded from it).
const fmLimit = 3000

var FMCalls, FMGaveUp int

// infeasible closes the system by Fourier-Motzkin elimination with integer
// rounding and reports whether it derives a contradiction.
func infeasible(cs []Lin, extra Lin) bool {
	FMCalls++
	sys := map[string]Lin{} // by coefficient vector, tightest constant
	contra := false
	add := func(m map[string]Lin, e Lin) {
		e = normGE(e)
		if k, ok := e.Const(); ok {
			if k < 0 {
				contra = true
			}
			return
		}
		k := e.tkey()
		if o, ok := m[k]; !ok || e.K < o.K {
			m[k] = e
		}
	}
	for _, c := range cs {
		add(sys, c)
	}
	add(sys, extra)
	for !contra && len(sys) > 0 {
		// substitute an equality with a unit coefficient, if there is one
		subst := false
		keys := make([]string, 0, len(sys))
		for k := range sys {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			e := sys[k]
			n, ok := sys[e.Neg().tkey()]
			if !ok {
				continue
			}
			if e.K+n.K < 0 {
				return true
			}
			if e.K+n.K > 0 {
				continue
			}
			for _, t := range e.T {
				if t.C == 1 || t.C == -1 {
					// t.C*s + rest = 0  =>  s = -rest/t.C
					rest := e.drop(t.S)
					val := rest.Scale(-t.C)
					m := map[string]Lin{}
					for _, kk := range keys {
						add(m, sys[kk].elim(t.S, val))
					}
					sys = m
					subst = true
					break
				}
			}
			if subst {
				break
			}
		}
		if subst {
			continue
		}
		type pn struct{ p, n int }
		cnt := map[Sym]*pn{}
		for _, e := range sys {
			for _, t := range e.T {
				c := cnt[t.S]
				if c == nil {
					c = &pn{}
					cnt[t.S] = c
				}
				if t.C > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		var best Sym
		bc := 1 << 30
		for s, c := range cnt {
			cost := c.p*c.n - c.p - c.n
			if cost < bc || cost == bc && s < best {
				best, bc = s, cost
			}
		}
		m := map[string]Lin{}
		var pos, neg []Lin
		for _, k := range keys {
			e := sys[k]
			switch c := e.Coef(best); {
			case c > 0:
				pos = append(pos, e)
			case c < 0:
				neg = append(neg, e)
			default:
				add(m, e)
			}
		}
		if len(pos)*len(neg)+len(m) > fmLimit {
			FMGaveUp++
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				cp, cn := p.Coef(best), -n.Coef(best)
				g := gcd(cp, cn)
				add(m, p.Scale(cn/g).Add(n.Scale(cp/g)))
			}
		}
		sys = m
	}
	return contra
}

// Feasible reports whether no contradiction is known.
func (f *Facts) Feasible() bool {
	if f.bad {
		return false
	}
	// the whole system, component by component
	s := f.solve(Lin{})
	if s.bad {
		return false
	}
	seen := map[Sym]bool{}
	for _, g := range s.cs {
		if seen[g.T[0].S] {
			continue
		}
		cs, _ := s.component(g)
		for _, c := range cs {
			for _, t := range c.T {
				seen[t.S] = true
			}
		}
		if infeasible(cs, g) {
			return false
		}
	}
	for _, d := range f.ne {
		if f.EntailsEQ(d) {
			return false
		}
	}
	return true
}

// machine reports whether the facts depend on the results of operations that have
// no meaning here.
func (f *Facts) machine() bool {
	seen := map[Sym]bool{}
	var in func(e Lin) bool
	in = func(e Lin) bool {
		for _, t := range e.T {
			if seen[t.S] {
				continue
			}
			seen[t.S] = true
			fn, a := t.S.App()
			if fn == "wrap" || strings.HasPrefix(fn, "op") && len(fn) > 2 && !(fn[2] >= 'a' && fn[2] <= 'z') || strings.HasPrefix(fn, "conv.") {
				if os.Getenv("SADBG") != "" {
					fmt.Fprintln(os.Stderr, "MACHINE", e)
				}
				return true
			}
			for _, x := range a {
				if in(x) {
					return true
				}
			}
		}
		return false
	}
	for _, es := range [][]Lin{f.ge, f.ne} {
		for _, e := range es {
			if in(e) {
				return true
			}
		}
	}
	return false
}

// FeasibleSmall reports whether the facts remain feasible when the factors of the
// products in them are given small values, so that the products are what they
// should be, and leaf agrees. Without products that is up to leaf.
func (f *Facts) FeasibleSmall(leaf func(f *Facts) bool) bool {
	n := map[Sym]int{}
	seen := map[Sym]bool{}
	var fs []Sym
	for _, es := range [][]Lin{f.ge, f.ne} {
		for _, e := range es {
			for _, m := range products(e) {
				if seen[m] {
					continue
				}
				seen[m] = true
				_, args := m.App()
				for _, a := range args {
					if s, ok := a.Single(); ok {
						if n[s]++; n[s] == 1 {
							fs = append(fs, s)
						}
					}
				}
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return n[fs[i]] > n[fs[j]] || n[fs[i]] == n[fs[j]] && fs[i] < fs[j] })
	budget := 3000
	return f.small(fs, leaf, &budget)
}

func (f *Facts) small(fs []Sym, leaf func(f *Facts) bool, budget *int) bool {
	if len(fs) == 0 {
		return leaf(f)
	}
	for _, v := range []int64{2, 1, 3, 0, 4} {
		if *budget--; *budget < 0 {
			return false
		}
		g := Facts{}
		put := func(e Lin) Lin {
			r := C(e.K)
			for _, t := range e.T {
				r = r.Add(fix(t.S, fs[0], v).Scale(t.C))
			}
			return r
		}
		for _, e := range f.ge {
			g.AddGE(put(e))
		}
		for _, e := range f.ne {
			g.AddNE(put(e))
		}
		g.AddEQ(V(fs[0]).Plus(-v))
		if g.Feasible() && g.small(fs[1:], leaf, budget) {
			return true
		}
	}
	return false
}

// fix is t where the factor s of a product is v.
func fix(t, s Sym, v int64) Lin {
	fn, args := t.App()
	if fn != "mul" {
		if t == s {
			return C(v)
		}
		return V(t)
	}
	k := int64(1)
	var rest []Lin
	for _, a := range args {
		if a.Same(V(s)) {
			k *= v
		} else {
			rest = append(rest, a)
		}
	}
	switch len(rest) {
	case 0:
		return C(k)
	case 1:
		return rest[0].Scale(k)
	}
	return UFL("mul", rest...).Scale(k)
}

func (f *Facts) String() string {
	var s []string
	for _, g := range f.ge {
		s = append(s, g.String()+">=0")
	}
	for _, g := range f.ne {
		s = append(s, g.String()+"!=0")
	}
	return strings.Join(s, ", ")
}

// Join keeps of two fact sets what both imply.
func (f *Facts) Join(o *Facts) Facts {
	var r Facts
	r.has = map[string]bool{}
	for _, g := range f.ge {
		if o.EntailsGE(g) {
			r.AddGE(g)
		}
	}
	for _, g := range o.ge {
		if f.EntailsGE(g) {
			r.AddGE(g)
		}
	}
	for _, d := range f.ne {
		if o.EntailsNE(d) {
			r.AddNE(d)
		}
	}
	for _, d := range o.ne {
		if f.EntailsNE(d) {
			r.AddNE(d)
		}
	}
	return r
}

// Mentions counts the facts that say something of the symbol.
func (f *Facts) Mentions(s Sym) int {
	var has func(l Lin) bool
	has = func(l Lin) bool {
		for _, t := range l.T {
			if t.S == s {
				return true
			}
			_, as := t.S.App()
			for _, a := range as {
				if has(a) {
					return true
				}
			}
		}
		return false
	}
	n := 0
	for _, ls := range [][]Lin{f.ge, f.ne} {
		for _, l := range ls {
			if has(l) {
				n++
			}
		}
	}
	return n
}
