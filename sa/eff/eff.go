// Package eff is a mod/ref and escape analysis: a context-sensitive,
// field-sensitive points-to analysis of one exported operation and everything
// it calls, which tells the memory that existed before the call from the memory
// the call allocates.
package eff

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// Kind tells where an object comes from.
type Kind int

// The kinds of objects.
const (
	Fresh   Kind = iota // allocated by the call
	Ext                 // reachable from a parameter before the call
	Global              // a package-level variable or what it points to
	Closure             // a function value made by the call
	Func                // a function value given from outside
)

// Obj is an abstract object.
type Obj struct {
	ID    int
	Kind  Kind
	Param int        // Ext: the parameter
	Type  types.Type // Ext, Global: the type of the region; Fresh: of the object
	Site  token.Pos
	Glob  *ssa.Global
	fn    *ssa.Function
	mc    *ssa.MakeClosure
	ctx   *ctx
	mem   map[string]pts
}

func (o *Obj) String() string {
	switch o.Kind {
	case Fresh:
		return "fresh " + tstr(o.Type)
	case Ext:
		return fmt.Sprintf("the %s reachable from parameter %d", tstr(o.Type), o.Param)
	case Global:
		return "package-level variable " + o.Glob.Name()
	}
	return "function"
}

func tstr(t types.Type) string {
	if t == nil {
		return "memory"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

type loc struct {
	o    *Obj
	path string
	full bool // a slice without spare capacity
}

type pts map[loc]bool

// av is an abstract value: the pointers in it by path.
type av map[string]pts

func (a av) add(path string, l loc) bool {
	p := a[path]
	if p == nil {
		p = pts{}
		a[path] = p
	}
	if p[l] {
		return false
	}
	p[l] = true
	return true
}

func (a av) join(b av) bool {
	ch := false
	for k, p := range b {
		for l := range p {
			if a.add(k, l) {
				ch = true
			}
		}
	}
	return ch
}

func (a av) sub(prefix string) av {
	r := av{}
	for k, p := range a {
		if strings.HasPrefix(k, prefix) {
			for l := range p {
				r.add(k[len(prefix):], l)
			}
		}
	}
	return r
}

func (a av) at(prefix string) av {
	r := av{}
	for k, p := range a {
		for l := range p {
			r.add(prefix+k, l)
		}
	}
	return r
}

type ctx struct {
	fn     *ssa.Function
	parent *ctx
	site   ssa.Instruction
	tenv   ai.Tenv
	vals   map[ssa.Value]av
	ret    av
	bind   *Obj // the closure called
	iter   pts  // the sets iterated over by the caller
	kids   map[string]*ctx
}

// Write is a store to memory that the call did not allocate.
type Write struct {
	Obj   *Obj
	Pos   token.Pos
	Fn    *ssa.Function
	What  string
	Chain string // the calls that lead there
}

// Result is what an operation does to memory.
type Result struct {
	Root    *ssa.Function
	Writes  []Write
	Unknown map[string]bool
	Fns     map[*ssa.Function]bool
	Instrs  int
	// IterRemove are removals from a set under iteration over the same set.
	IterRemove []Write
	// SharedGlobals are global objects stored into memory or returned.
	ret    av
	params []av
	a      *an
}

type an struct {
	fset   *token.FileSet
	root   *ssa.Function
	ctxs   []*ctx
	objs   map[string]*Obj
	n      int
	ch     bool
	res    *Result
	seenW  map[string]bool
	tname  map[string]types.Type
	impls  func(iface types.Type) []*types.Named
	iface  func(t types.Type) bool // is this interface opaque (known by contract)
	record bool
}

// Config configures an analysis.
type Config struct {
	Fset *token.FileSet
	// Impls lists the implementations of an interface met in memory that existed before the call.
	Impls func(iface types.Type) []*types.Named
	// Contract tells that an interface is known only by its contract: the
	// methods named in the map write the receiver (true) or only read it.
	Contract func(iface types.Type) map[string]bool
}

// Analyze analyses an operation.
func Analyze(cfg Config, root *ssa.Function) *Result {
	a := &an{fset: cfg.Fset, root: root, objs: map[string]*Obj{}, seenW: map[string]bool{}, tname: map[string]types.Type{}}
	a.cfg(cfg)
	a.res = &Result{Root: root, Unknown: map[string]bool{}, Fns: map[*ssa.Function]bool{}, a: a}
	c := &ctx{fn: root, vals: map[ssa.Value]av{}, ret: av{}, kids: map[string]*ctx{}}
	for i, p := range root.Params {
		v := a.extVal(i, p.Type(), 0)
		c.vals[p] = v
		a.res.params = append(a.res.params, v)
	}
	a.ctxs = []*ctx{c}
	for n := 0; n < 200; n++ {
		a.ch = false
		for i := 0; i < len(a.ctxs); i++ {
			a.run(a.ctxs[i])
		}
		if !a.ch {
			break
		}
		if n == 199 {
			a.res.Unknown["no fixpoint"] = true
		}
	}
	a.record = true
	for i := 0; i < len(a.ctxs); i++ {
		a.run(a.ctxs[i])
	}
	a.res.ret = c.ret
	return a.res
}

var contract func(t types.Type) map[string]bool

func (a *an) cfg(c Config) {
	a.impls = c.Impls
	contract = c.Contract
}

func (a *an) obj(key string, mk func() *Obj) *Obj {
	if o := a.objs[key]; o != nil {
		return o
	}
	o := mk()
	a.n++
	o.ID = a.n
	o.mem = map[string]pts{}
	a.objs[key] = o
	return o
}

func (a *an) ext(param int, t types.Type) *Obj {
	return a.obj(fmt.Sprintf("e%d %s", param, types.TypeString(t, nil)), func() *Obj { return &Obj{Kind: Ext, Param: param, Type: t} })
}

func (a *an) fresh(c *ctx, in ssa.Instruction, t types.Type, tag string) *Obj {
	return a.obj(fmt.Sprintf("f%p %p %s", c, in, tag), func() *Obj { return &Obj{Kind: Fresh, Type: t, Site: in.Pos()} })
}

func (a *an) extFunc() *Obj { return a.obj("func", func() *Obj { return &Obj{Kind: Func} }) }

func (a *an) glob(g *ssa.Global, t types.Type) *Obj {
	return a.obj(fmt.Sprintf("g%p %s", g, types.TypeString(t, nil)), func() *Obj { return &Obj{Kind: Global, Glob: g, Type: t} })
}

func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.(*types.TypeParam); ok {
		if u := ai.CoreType(p); u != nil {
			return u
		}
		return p
	}
	return t.Underlying()
}

// extVal is a value of type t found in memory that existed before the call.
func (a *an) extVal(param int, t types.Type, depth int) av {
	return a.outVal(t, func(r types.Type) *Obj { return a.ext(param, r) }, depth)
}

func (a *an) outVal(t types.Type, mk func(types.Type) *Obj, depth int) av {
	r := av{}
	if depth > 8 {
		return r
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		r.add("", loc{o: mk(u.Elem())})
	case *types.Slice, *types.Map, *types.Chan:
		r.add("", loc{o: mk(u)})
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			r.add("", loc{o: mk(u)})
		}
	case *types.Signature:
		r.add("", loc{o: a.extFunc()})
	case *types.Interface:
		if _, ok := types.Unalias(t).(*types.TypeParam); !ok && u.NumMethods() > 0 {
			r.add("", loc{o: mk(t)})
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r.join(a.outVal(u.Field(i).Type(), mk, depth+1).at(fmt.Sprintf(".%d", i)))
		}
	case *types.Array:
		r.join(a.outVal(u.Elem(), mk, depth+1).at("[]"))
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r.join(a.outVal(u.At(i).Type(), mk, depth+1).at(fmt.Sprintf("#%d", i)))
		}
	}
	return r
}

func (a *an) load(p pts, t types.Type) av {
	r := av{}
	for l := range p {
		if l.o.mem == nil {
			continue
		}
		for path, q := range l.o.mem {
			if strings.HasPrefix(path, l.path) {
				rest := path[len(l.path):]
				if rest == "" || strings.ContainsAny(rest[:1], ".[{<") {
					for x := range q {
						r.add(rest, x)
					}
				}
			}
		}
		switch l.o.Kind {
		case Ext:
			r.join(a.extVal(l.o.Param, t, 0))
		case Global:
			g := l.o.Glob
			r.join(a.outVal(t, func(rt types.Type) *Obj { return a.glob(g, rt) }, 0))
		}
	}
	return r
}

func (a *an) store(c *ctx, in ssa.Instruction, p pts, v av, what string) {
	for l := range p {
		if l.o.mem == nil {
			continue
		}
		for k, q := range v {
			path := l.path + k
			if l.o.Kind == Ext || l.o.Kind == Global {
				// the regions outside are typed, not shaped
				path = k
				if strings.Count(path, ".") > 6 {
					continue
				}
				path = l.path + k
			}
			m := l.o.mem[path]
			if m == nil {
				m = pts{}
				l.o.mem[path] = m
			}
			for x := range q {
				if !m[x] {
					m[x] = true
					a.ch = true
				}
			}
		}
		if l.o.Kind == Ext || l.o.Kind == Global {
			a.write(c, in, l.o, what)
		}
	}
}

func (a *an) chain(c *ctx) string {
	var s []string
	for x := c; x != nil; x = x.parent {
		s = append([]string{x.fn.Name()}, s...)
	}
	return strings.Join(s, " > ")
}

func (a *an) write(c *ctx, in ssa.Instruction, o *Obj, what string) {
	if !a.record {
		return
	}
	k := fmt.Sprintf("%d %d %s", o.ID, in.Pos(), what)
	if a.seenW[k] {
		return
	}
	a.seenW[k] = true
	a.res.Writes = append(a.res.Writes, Write{Obj: o, Pos: in.Pos(), Fn: c.fn, What: what, Chain: a.chain(c)})
}

func (a *an) unknown(c *ctx, in ssa.Instruction, what string) {
	a.res.Unknown[fmt.Sprintf("%s: %s", a.fset.Position(in.Pos()), what)] = true
}

func (a *an) typ(c *ctx, t types.Type) types.Type { return ai.SubstType(t, c.tenv) }

func (a *an) val(c *ctx, v ssa.Value) av {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		r := av{}
		r.add("", loc{o: a.glob(v, v.Type().(*types.Pointer).Elem())})
		return r
	case *ssa.Function:
		r := av{}
		r.add("", loc{o: a.obj(fmt.Sprintf("fn%p", v), func() *Obj { return &Obj{Kind: Closure, fn: v, ctx: c} })})
		return r
	case *ssa.FreeVar:
		if c.bind != nil && c.bind.mc != nil {
			for i, f := range c.fn.FreeVars {
				if f == v {
					return a.val(c.bind.ctx, c.bind.mc.Bindings[i])
				}
			}
		}
		return nil
	}
	return c.vals[v]
}

func (a *an) set(c *ctx, v ssa.Value, x av) {
	m := c.vals[v]
	if m == nil {
		m = av{}
		c.vals[v] = m
	}
	if m.join(x) {
		a.ch = true
	}
}

func one(l loc) av { r := av{}; r.add("", l); return r }

func (a *an) run(c *ctx) {
	a.res.Fns[c.fn] = true
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			if a.record {
				a.res.Instrs++
			}
			a.step(c, in)
		}
	}
}

func ext1(p pts, s string) pts {
	r := pts{}
	for l := range p {
		if len(l.path) < 60 {
			r[loc{o: l.o, path: l.path + s}] = true
		}
	}
	return r
}

func (a *an) tkey(t types.Type) string {
	k := types.TypeString(t, nil)
	a.tname[k] = t
	return "<" + k + ">"
}

func (a *an) step(c *ctx, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.set(c, x, one(loc{o: a.fresh(c, x, a.typ(c, x.Type().(*types.Pointer).Elem()), "")}))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a.set(c, v, one(loc{o: a.fresh(c, in, a.typ(c, v.Type()), "")}))
	case *ssa.MakeClosure:
		o := a.obj(fmt.Sprintf("c%p %p", c, x), func() *Obj { return &Obj{Kind: Closure, fn: x.Fn.(*ssa.Function), mc: x, ctx: c} })
		a.set(c, x, one(loc{o: o}))
	case *ssa.MakeInterface:
		t := a.typ(c, x.X.Type())
		a.set(c, x, a.val(c, x.X).at(a.tkey(t)))
		if r := a.val(c, x.X); len(r) == 0 {
			_ = r
		}
	case *ssa.ChangeInterface:
		a.set(c, x, a.val(c, x.X))
	case *ssa.ChangeType:
		a.set(c, x, a.val(c, x.X))
	case *ssa.MultiConvert:
		a.set(c, x, a.val(c, x.X))
	case *ssa.SliceToArrayPointer:
		a.set(c, x, a.val(c, x.X))
	case *ssa.Convert:
		if _, ok := under(a.typ(c, x.Type())).(*types.Slice); ok {
			if _, ok := under(a.typ(c, x.X.Type())).(*types.Slice); !ok {
				a.set(c, x, one(loc{o: a.fresh(c, x, a.typ(c, x.Type()), "")}))
				return
			}
		}
		a.set(c, x, a.val(c, x.X))
	case *ssa.TypeAssert:
		t := a.typ(c, x.AssertedType)
		src := a.val(c, x.X)
		r := av{}
		if types.IsInterface(t) {
			r.join(src)
		} else {
			r.join(src.sub(a.tkey(t)))
			for l := range src[""] {
				switch l.o.Kind {
				case Ext:
					r.join(a.extVal(l.o.Param, t, 0))
				case Global:
					g := l.o.Glob
					r.join(a.outVal(t, func(rt types.Type) *Obj { return a.glob(g, rt) }, 0))
				}
			}
		}
		if x.CommaOk {
			r = r.at("#0")
		}
		a.set(c, x, r)
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(c, x, a.val(c, e))
		}
	case *ssa.FieldAddr:
		r := av{}
		r[""] = ext1(a.val(c, x.X)[""], fmt.Sprintf(".%d", x.Field))
		a.set(c, x, r)
	case *ssa.Field:
		a.set(c, x, a.val(c, x.X).sub(fmt.Sprintf(".%d", x.Field)))
	case *ssa.IndexAddr:
		r := av{}
		r[""] = ext1(a.val(c, x.X)[""], "[]")
		a.set(c, x, r)
	case *ssa.Index:
		a.set(c, x, a.val(c, x.X).sub("[]"))
	case *ssa.Lookup:
		r := a.load(ext1(a.val(c, x.X)[""], "{v}"), a.typ(c, mapElem(a.typ(c, x.X.Type()))))
		if x.CommaOk {
			r = r.at("#0")
		}
		a.set(c, x, r)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.set(c, x, a.load(a.val(c, x.X)[""], a.typ(c, x.Type())))
		case token.ARROW:
			a.unknown(c, x, "channel receive")
		}
	case *ssa.Store:
		a.store(c, x, a.val(c, x.Addr)[""], a.val(c, x.Val), a.what(c, x.Addr))
	case *ssa.MapUpdate:
		m := a.val(c, x.Map)[""]
		a.store(c, x, ext1(m, "{k}"), a.val(c, x.Key), "a map entry")
		a.store(c, x, ext1(m, "{v}"), a.val(c, x.Value), "a map entry")
	case *ssa.Slice:
		src := a.val(c, x.X)
		r := av{}
		for l := range src[""] {
			l.full = x.Max != nil && (x.High != nil && sameVal(x.High, x.Max)) || x.High == nil && x.Max == nil && l.full
			r.add("", l)
		}
		a.set(c, x, r)
	case *ssa.Range:
		a.set(c, x, a.val(c, x.X))
	case *ssa.Next:
		if x.IsString {
			return
		}
		rg := x.Iter.(*ssa.Range)
		m := a.val(c, x.Iter)[""]
		if u, ok := under(a.typ(c, rg.X.Type())).(*types.Map); ok {
			r := a.load(ext1(m, "{k}"), u.Key()).at("#1")
			r.join(a.load(ext1(m, "{v}"), u.Elem()).at("#2"))
			a.set(c, x, r)
		}
	case *ssa.Extract:
		a.set(c, x, a.val(c, x.Tuple).sub(fmt.Sprintf("#%d", x.Index)))
	case *ssa.Return:
		r := av{}
		if len(x.Results) == 1 {
			r.join(a.val(c, x.Results[0]))
		} else {
			for i, v := range x.Results {
				r.join(a.val(c, v).at(fmt.Sprintf("#%d", i)))
			}
		}
		if c.ret.join(r) {
			a.ch = true
		}
	case *ssa.Call:
		r := a.call(c, x, &x.Call)
		a.set(c, x, r)
	case *ssa.Defer:
		a.call(c, x, &x.Call)
	case *ssa.Go:
		a.unknown(c, x, "goroutine")
	case *ssa.Send, *ssa.Select:
		a.unknown(c, in, "channel operation")
	}
}

func mapElem(t types.Type) types.Type {
	if m, ok := under(t).(*types.Map); ok {
		return m.Elem()
	}
	return types.Typ[types.Byte]
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if ok1 && ok2 && x.Value != nil && y.Value != nil {
		return x.Value.ExactString() == y.Value.ExactString()
	}
	// the same pure expression computed twice (len(b) and len(b), n and n)
	p, ok1 := a.(*ssa.Call)
	q, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		f, ok1 := p.Call.Value.(*ssa.Builtin)
		g, ok2 := q.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && f.Name() == g.Name() && f.Name() == "len" && p.Call.Args[0] == q.Call.Args[0]
	}
	return false
}

func (a *an) what(c *ctx, addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		t := a.typ(c, x.X.Type())
		if p, ok := under(t).(*types.Pointer); ok {
			if s, ok := under(p.Elem()).(*types.Struct); ok && x.Field < s.NumFields() {
				return "field " + s.Field(x.Field).Name() + " of " + tstr(p.Elem())
			}
		}
		return "a field"
	case *ssa.IndexAddr:
		return "an element of " + tstr(a.typ(c, x.X.Type()))
	case *ssa.Global:
		return "package-level variable " + x.Name()
	}
	if p, ok := under(a.typ(c, addr.Type())).(*types.Pointer); ok {
		return "a " + tstr(p.Elem())
	}
	return "memory"
}

func (a *an) enter(c *ctx, in ssa.Instruction, fn *ssa.Function, bind *Obj, targs []types.Type, args []av, iter pts) av {
	body := fn
	tenv := ai.Tenv{}
	if o := fn.Origin(); o != nil && o != fn {
		body = o
	}
	if fn.Parent() != nil && bind != nil {
		for k, v := range bind.ctx.tenv {
			tenv[k] = v
		}
	}
	tp := body.TypeParams()
	for i := 0; i < tp.Len() && i < len(targs); i++ {
		tenv[tp.At(i)] = targs[i]
	}
	key := fmt.Sprintf("%p %p", in, body)
	if bind != nil {
		key += fmt.Sprintf(" %d", bind.ID)
	}
	for i := 0; i < tp.Len(); i++ {
		if t, ok := tenv[tp.At(i)]; ok {
			key += " " + types.TypeString(t, nil)
		}
	}
	k := c.kids[key]
	if k == nil {
		// recursion: the activation on the stack stands for this one too
		for p := c; p != nil; p = p.parent {
			if p.fn == body && p.bind == bind && sameEnv(p.tenv, tenv) {
				k = p
				break
			}
		}
		if k == nil {
			k = &ctx{fn: body, parent: c, site: in, tenv: tenv, vals: map[ssa.Value]av{}, ret: av{}, bind: bind, kids: map[string]*ctx{}}
			if len(a.ctxs) < 20000 {
				a.ctxs = append(a.ctxs, k)
			} else {
				a.unknown(c, in, "too many contexts")
			}
			a.ch = true
		}
		c.kids[key] = k
	}
	for l := range iter {
		if k.iter == nil {
			k.iter = pts{}
		}
		if !k.iter[l] {
			k.iter[l] = true
			a.ch = true
		}
	}
	if len(body.Blocks) == 0 {
		a.unknown(c, in, "no body: "+body.String())
	}
	for i, p := range body.Params {
		if i < len(args) {
			a.set(k, p, args[i])
		}
	}
	return k.ret
}

func sameEnv(a, b ai.Tenv) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !types.Identical(v, w) {
			return false
		}
	}
	return true
}

func (a *an) call(c *ctx, in ssa.Instruction, cc *ssa.CallCommon) av {
	var args []av
	for _, x := range cc.Args {
		args = append(args, a.val(c, x))
	}
	if cc.IsInvoke() {
		return a.invoke(c, in, cc, a.val(c, cc.Value), args)
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return a.builtin(c, in, cc, f.Name(), args)
	case *ssa.Function:
		return a.static(c, in, cc, f, nil, args, nil)
	}
	r := av{}
	for l := range a.val(c, cc.Value)[""] {
		r.join(a.apply(c, in, cc.Signature(), l.o, args, nil))
	}
	return r
}

// apply calls a function value.
func (a *an) apply(c *ctx, in ssa.Instruction, sig *types.Signature, o *Obj, args []av, iter pts) av {
	switch o.Kind {
	case Closure:
		f := o.fn
		var bind *Obj
		if f.Parent() != nil || o.mc != nil {
			bind = o
		}
		cx := c
		if o.ctx != nil {
			cx = o.ctx
		}
		_ = cx
		return a.static(c, in, nil, f, bind, args, iter)
	case Func:
		// a function given from outside: what it does is the caller's business; what
		// it returns is taken as new
		if sig == nil {
			return nil
		}
		res := a.typ(c, sig.Results())
		r := av{}
		if t, ok := res.(*types.Tuple); ok {
			for i := 0; i < t.Len(); i++ {
				v := a.outVal(t.At(i).Type(), func(rt types.Type) *Obj {
					return a.fresh(c, in, rt, "ret"+types.TypeString(rt, nil))
				}, 0)
				if t.Len() == 1 {
					r.join(v)
				} else {
					r.join(v.at(fmt.Sprintf("#%d", i)))
				}
			}
		}
		return r
	}
	return nil
}

func (a *an) static(c *ctx, in ssa.Instruction, cc *ssa.CallCommon, f *ssa.Function, bind *Obj, args []av, iter pts) av {
	body := f
	if o := f.Origin(); o != nil {
		body = o
	}
	if len(body.Blocks) > 0 {
		var targs []types.Type
		env := c.tenv
		for _, t := range f.TypeArgs() {
			targs = append(targs, ai.SubstType(t, env))
		}
		return a.enter(c, in, f, bind, targs, args, iter)
	}
	return a.external(c, in, f, args)
}

func (a *an) invoke(c *ctx, in ssa.Instruction, cc *ssa.CallCommon, recv av, args []av) av {
	r := av{}
	it := a.typ(c, cc.Value.Type())
	name := cc.Method.Name()
	// concrete types made by the call
	done := map[string]bool{}
	for k := range recv {
		if strings.HasPrefix(k, "<") {
			// the type name may itself hold brackets
			for tn := range a.tname {
				if p := "<" + tn + ">"; strings.HasPrefix(k, p) && !done[tn] {
					done[tn] = true
					t := a.tname[tn]
					if con := contract(t); con != nil {
						a.byContract(c, in, cc, con, recv.sub(p).all(), args, r)
						continue
					}
					if fn, ta := method(t, name); fn != nil {
						r.join(a.enter(c, in, fn, nil, ta, append([]av{recv.sub(p)}, args...), nil))
					} else {
						a.unknown(c, in, "no method "+name+" of "+tn)
					}
				}
			}
		}
	}
	out := pts{}
	for l := range recv[""] {
		out[l] = true
	}
	if len(out) > 0 {
		if con := contract(it); con != nil {
			a.byContract(c, in, cc, con, out, args, r)
		} else if a.impls != nil {
			im := a.impls(it)
			if len(im) == 0 {
				for l := range out {
					if l.o.Kind != Fresh {
						a.unknown(c, in, "method of an unknown implementation of "+tstr(it))
					}
				}
			}
			for _, n := range im {
				for _, t := range []types.Type{n, types.NewPointer(n)} {
					if u, ok := under(it).(*types.Interface); !ok || types.NewMethodSet(t).Lookup(cc.Method.Pkg(), name) == nil || u == nil {
						continue
					}
					if types.NewMethodSet(n).Lookup(cc.Method.Pkg(), name) != nil && t != types.Type(n) {
						continue
					}
					fn, ta := method(t, name)
					if fn == nil {
						continue
					}
					rv := av{}
					for l := range out {
						switch l.o.Kind {
						case Ext:
							rv.join(a.extVal(l.o.Param, t, 0))
						case Global:
							g := l.o.Glob
							rv.join(a.outVal(t, func(rt types.Type) *Obj { return a.glob(g, rt) }, 0))
						case Fresh:
							rv.join(a.outVal(t, func(rt types.Type) *Obj { return a.fresh(c, in, rt, "impl"+types.TypeString(rt, nil)) }, 0))
						}
					}
					_ = ta
					r.join(a.enter(c, in, fn, nil, ta, append([]av{rv}, args...), nil))
				}
			}
		}
	}
	return r
}

func (a av) all() pts {
	r := pts{}
	for _, p := range a {
		for l := range p {
			r[l] = true
		}
	}
	return r
}

// byContract is a method of a set known by its interface: writers write the
// receiver, Each calls its argument with the set under iteration.
func (a *an) byContract(c *ctx, in ssa.Instruction, cc *ssa.CallCommon, con map[string]bool, recv pts, args []av, r av) {
	name := cc.Method.Name()
	w, ok := con[name]
	if !ok {
		a.unknown(c, in, "unknown method "+name)
		return
	}
	if w {
		for l := range recv {
			if l.o.Kind == Ext || l.o.Kind == Global {
				a.write(c, in, l.o, "the set (by "+name+")")
			}
			if name == "Remove" || name == "Clear" {
				for p := c; p != nil; p = p.parent {
					for m := range p.iter {
						if (m.o == l.o || m.o.Kind == Ext && l.o.Kind == Ext) && m.o.Kind != Func && l.o.Kind != Func && a.record {
							a.res.IterRemove = append(a.res.IterRemove, Write{Obj: l.o, Pos: in.Pos(), Fn: c.fn, What: name, Chain: a.chain(c)})
						}
					}
				}
			}
		}
	}
	if name == "Each" {
		for _, x := range args {
			for l := range x[""] {
				a.apply(c, in, nil, l.o, []av{nil}, recv)
			}
		}
	}
}

func method(t types.Type, name string) (*ssa.Function, []types.Type) {
	n := t
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		n = p.Elem()
	}
	nm, ok := types.Unalias(n).(*types.Named)
	if !ok {
		return nil, nil
	}
	for i := 0; i < nm.NumMethods(); i++ {
		m := nm.Method(i)
		if m.Name() == name {
			fn := ai.FuncOf(m.Origin())
			var ta []types.Type
			for j := 0; j < nm.TypeArgs().Len(); j++ {
				ta = append(ta, nm.TypeArgs().At(j))
			}
			return fn, ta
		}
	}
	return nil, nil
}

func (a *an) builtin(c *ctx, in ssa.Instruction, cc *ssa.CallCommon, name string, args []av) av {
	r := av{}
	switch name {
	case "append":
		v := in.(ssa.Value)
		t := a.typ(c, v.Type())
		et := elemOf(t)
		o := a.fresh(c, in, t, "")
		r.add("", loc{o: o})
		var items av
		if len(args) > 1 {
			items = a.load(ext1(args[1][""], "[]"), et)
		}
		old := a.load(ext1(args[0][""], "[]"), et)
		a.store(c, in, pts{loc{o: o, path: "[]"}: true}, items, "")
		a.store(c, in, pts{loc{o: o, path: "[]"}: true}, old, "")
		for l := range args[0][""] {
			if l.full {
				continue
			}
			r.add("", loc{o: l.o, path: l.path})
			a.store(c, in, pts{loc{o: l.o, path: l.path + "[]"}: true}, items, "the spare capacity of "+tstr(t)+" (append)")
		}
	case "copy":
		t := a.typ(c, cc.Args[0].Type())
		items := a.load(ext1(args[1][""], "[]"), elemOf(t))
		a.store(c, in, ext1(args[0][""], "[]"), items, "elements of "+tstr(t)+" (copy)")
	case "delete":
		a.store(c, in, ext1(args[0][""], "{v}"), nil, "a map entry (delete)")
	case "clear":
		a.store(c, in, ext1(args[0][""], "{v}"), nil, "everything in "+tstr(a.typ(c, cc.Args[0].Type()))+" (clear)")
	case "min", "max":
	case "ssa:wrapnilchk":
		return args[0]
	case "close", "recover":
		a.unknown(c, in, name)
	case "SliceData", "StringData", "String", "Slice", "Add":
		if len(args) > 0 {
			return args[0]
		}
	}
	return r
}

func elemOf(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	}
	return types.Typ[types.Byte]
}

var pure = map[string]bool{"fmt": true, "strings": true, "errors": true, "math": true, "math/bits": true, "strconv": true, "unicode": true, "unicode/utf8": true, "cmp": true, "bytes": true, "github.com/segmentio/fasthash/fnv1a": true}

// external is a call of a function outside the module.
func (a *an) external(c *ctx, in ssa.Instruction, f *ssa.Function, args []av) av {
	o := f
	if g := f.Origin(); g != nil {
		o = g
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Path()
	}
	name := o.Name()
	var rt types.Type
	if v, ok := in.(ssa.Value); ok {
		rt = a.typ(c, v.Type())
	}
	callAll := func() {
		for _, x := range args {
			for l := range x[""] {
				if l.o.Kind == Closure {
					a.apply(c, in, nil, l.o, nil, nil)
				}
			}
		}
	}
	mut := func(what string) {
		if len(args) > 0 {
			a.store(c, in, ext1(args[0][""], "[]"), nil, what)
		}
	}
	fresh := func() av {
		if rt == nil {
			return nil
		}
		return a.outVal(rt, func(t types.Type) *Obj { return a.fresh(c, in, t, "x"+types.TypeString(t, nil)) }, 0)
	}
	recv := f.Signature.Recv() != nil
	switch pkg {
	case "sort":
		switch name {
		case "Slice", "SliceStable", "Strings", "Ints", "Float64s", "Sort", "Stable":
			callAll()
			if len(args) > 0 {
				p := args[0].all()
				a.store(c, in, ext1(p, "[]"), nil, "the order of a slice (sort)")
			}
			return nil
		case "Search", "SearchInts", "SearchStrings", "SliceIsSorted", "StringsAreSorted", "IntsAreSorted":
			callAll()
			return nil
		}
	case "slices", "golang.org/x/exp/slices":
		callAll()
		switch name {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse":
			mut("the order of a slice (" + name + ")")
			return nil
		case "Insert", "Delete", "DeleteFunc", "Compact", "CompactFunc", "Replace", "Grow":
			mut("elements of a slice (" + name + ")")
			r := fresh()
			for l := range args[0][""] {
				r.add("", loc{o: l.o, path: l.path})
			}
			return r
		case "Clip":
			r := av{}
			for l := range args[0][""] {
				l.full = true
				r.add("", l)
			}
			return r
		case "Clone", "Concat", "Repeat", "Sorted", "Collect":
			r := fresh()
			if name != "Clone" && name != "Concat" {
				return r
			}
			for l := range r[""] {
				for _, x := range args {
					a.store(c, in, pts{loc{o: l.o, path: "[]"}: true}, a.load(ext1(x[""], "[]"), elemOf(rt)), "")
				}
			}
			return r
		case "Contains", "ContainsFunc", "Index", "IndexFunc", "Equal", "EqualFunc", "BinarySearch", "BinarySearchFunc", "IsSorted", "IsSortedFunc", "Max", "Min", "MaxFunc", "MinFunc", "Compare", "CompareFunc":
			return nil
		}
	case "maps", "golang.org/x/exp/maps":
		callAll()
		switch name {
		case "Clone", "Keys", "Values":
			if name == "Clone" || strings.HasPrefix(pkg, "golang.org") {
				return fresh()
			}
		case "Copy", "DeleteFunc", "Clear":
			if len(args) > 0 {
				a.store(c, in, ext1(args[0][""], "{v}"), nil, "map entries ("+name+")")
			}
			return nil
		case "Equal", "EqualFunc":
			return nil
		}
	}
	if pure[pkg] && !recv {
		return fresh()
	}
	bad := false
	for i, x := range args {
		for l := range x.all() {
			switch l.o.Kind {
			case Global:
				a.write(c, in, l.o, "through "+f.String())
			case Ext:
				if !(pure[pkg] && i > 0) {
					bad = true
				}
			}
		}
	}
	if bad || !pure[pkg] {
		a.unknown(c, in, "call of "+f.String())
	}
	return fresh()
}

// Reach lists the objects outside reachable from the results (or, with params
// set, the objects made by the call that ended up in memory outside).
func (r *Result) Reach() []*Obj {
	seen := map[*Obj]bool{}
	var out []*Obj
	var visit func(p pts)
	visit = func(p pts) {
		for l := range p {
			if seen[l.o] {
				continue
			}
			seen[l.o] = true
			switch l.o.Kind {
			case Ext, Global:
				out = append(out, l.o)
				continue
			case Closure:
				if l.o.mc != nil {
					for _, b := range l.o.mc.Bindings {
						visit(r.a.val(l.o.ctx, b).all())
					}
				}
			}
			for _, q := range l.o.mem {
				visit(q)
			}
		}
	}
	visit(r.ret.all())
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// FreshInside tells whether an object reachable from the results is also
// stored in memory outside.
func (r *Result) FreshInside() []*Obj {
	ret := map[*Obj]bool{}
	var mark func(p pts, m map[*Obj]bool)
	mark = func(p pts, m map[*Obj]bool) {
		for l := range p {
			if m[l.o] || l.o.Kind != Fresh {
				continue
			}
			m[l.o] = true
			for _, q := range l.o.mem {
				mark(q, m)
			}
		}
	}
	mark(r.ret.all(), ret)
	in := map[*Obj]bool{}
	for _, o := range r.a.objs {
		if o.Kind == Ext || o.Kind == Global {
			for _, q := range o.mem {
				mark(q, in)
			}
		}
	}
	var out []*Obj
	for o := range in {
		if ret[o] {
			out = append(out, o)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// GlobalsKept lists the global objects stored in memory or returned.
func (r *Result) GlobalsKept() []*Obj {
	m := map[*Obj]bool{}
	for l := range r.ret.all() {
		if l.o.Kind == Global {
			m[l.o] = true
		}
	}
	for _, o := range r.Reach() {
		if o.Kind == Global {
			m[o] = true
		}
	}
	for _, o := range r.a.objs {
		if o.Kind == Ext {
			for _, q := range o.mem {
				for l := range q {
					if l.o.Kind == Global {
						m[l.o] = true
					}
				}
			}
		}
	}
	var out []*Obj
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// RetObjs lists the objects the results point to directly, by path.
func (r *Result) RetObjs() map[string][]*Obj {
	m := map[string][]*Obj{}
	for k, p := range r.ret {
		seen := map[*Obj]bool{}
		for l := range p {
			if !seen[l.o] {
				seen[l.o] = true
				m[k] = append(m[k], l.o)
			}
		}
	}
	return m
}
