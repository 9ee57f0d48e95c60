package spec

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
	"verif/sa/eff"
)

// effCfg is the configuration of the effect analysis: sets are known by their
// interface only inside package set (any implementation may be used there);
// the other interfaces by the implementations in the module.
func effCfg(c *Ctx) eff.Config {
	setC := map[string]bool{"Put": true, "Remove": true, "Clear": true, "Has": false, "Size": false, "Each": false}
	var setOf, set *types.TypeName
	if sp := c.SSA["set"]; sp != nil {
		setOf, _ = sp.Pkg.Scope().Lookup("SetOf").(*types.TypeName)
		set, _ = sp.Pkg.Scope().Lookup("Set").(*types.TypeName)
	}
	named := func(t types.Type) *types.TypeName {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Origin().Obj()
		}
		return nil
	}
	return eff.Config{
		Fset: c.Fset,
		Contract: func(t types.Type) map[string]bool {
			if n := named(t); n != nil && (n == setOf || n == set) {
				return setC
			}
			return nil
		},
		Impls: func(t types.Type) []*types.Named {
			n := named(t)
			if n == nil || n.Pkg() == nil || !strings.HasPrefix(n.Pkg().Path(), Module) {
				return nil
			}
			u, ok := n.Type().Underlying().(*types.Interface)
			if !ok {
				return nil
			}
			var r []*types.Named
			sc := n.Pkg().Scope()
			for _, nm := range sc.Names() {
				o, ok := sc.Lookup(nm).(*types.TypeName)
				if !ok {
					continue
				}
				x, ok := types.Unalias(o.Type()).(*types.Named)
				if !ok || types.IsInterface(x) {
					continue
				}
				if hasMethods(x, u) {
					r = append(r, x)
				}
			}
			return r
		},
	}
}

// hasMethods compares method names (the types are generic).
func hasMethods(n *types.Named, u *types.Interface) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < u.NumMethods(); i++ {
		m := u.Method(i)
		if ms.Lookup(n.Obj().Pkg(), m.Name()) == nil {
			return false
		}
	}
	return true
}

// op is an exported operation.
type op struct {
	pkg, name string
	fn        *ssa.Function
}

func (o op) String() string { return o.pkg + "." + o.name }

// ops lists the exported functions and methods of the module, with the methods
// of unexported types that implement an exported interface.
func ops(c *Ctx) []op {
	var r []op
	var pk []string
	for p := range c.SSA {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, p := range pk {
		if p == "zzmodel" {
			continue
		}
		sc := c.SSA[p].Pkg.Scope()
		for _, nm := range sc.Names() {
			switch o := sc.Lookup(nm).(type) {
			case *types.Func:
				if o.Exported() {
					r = append(r, op{p, nm, c.Prog.FuncValue(o)})
				}
			case *types.TypeName:
				n, ok := types.Unalias(o.Type()).(*types.Named)
				if !ok || types.IsInterface(n) {
					continue
				}
				if !o.Exported() {
					if p != "multimap" || !strings.Contains(strings.ToLower(nm), "multimap") {
						continue
					}
				}
				for i := 0; i < n.NumMethods(); i++ {
					if m := n.Method(i); m.Exported() {
						r = append(r, op{p, nm + "." + m.Name(), c.Prog.FuncValue(m)})
					}
				}
			}
		}
	}
	return r
}

// queries are the operations that only read, by package.
var queries = map[string]string{
	"":         "Compare Max Min MaxFunc MinFunc Clamp ClampFunc Less Equals HashUint64 HashUint32 HashUint16 HashUint8 HashInt64 HashInt32 HashInt16 HashInt8 HashInt HashUint HashString HashBytes",
	"array2d":  "Array2D.Get Array2D.Width Array2D.Height Array2D.Row Array2D.RowSpan Array2D.String Array2D.Copy",
	"avl":      "Tree.Get Tree.Each Tree.Height Tree.Size",
	"bimap":    "Bimap.Len Bimap.Each Bimap.ContainsForward Bimap.GetForward Bimap.ContainsReverse Bimap.GetReverse Bimap.Copy",
	"btree":    "Tree.Size Tree.Get Tree.Each",
	"cache":    "Cache.Size Cache.Capacity Cache.Each",
	"hashmap":  "Map.Get Map.Size Map.Each",
	"hashset":  "Set.Has Set.Size Set.Each",
	"heap":     "Heap.Peek Heap.Size",
	"interval": "Tree.Overlaps Tree.Get Tree.Each Tree.Height Tree.Size",
	"list":     "Node.Each Node.EachReverse Node.EachNode Node.EachReverseNode",
	"mapset":   "Set.Has Set.Size Set.Each",
	"multimap": "*.Dimension *.Size *.Count *.Has *.Get *.Each *.EachAssociation",
	"prope":    "Node.Len Node.Value Node.Slice Node.At",
	"queue":    "Queue.Len Queue.Peek Queue.TryPeek Queue.PeekAll Queue.Empty Queue.Each Queue.Copy",
	"rope":     "Node.Len Node.Value Node.Slice Node.At Node.Each",
	"set":      "Set.Clone Set.String Set.Map Set.Keys Set.IsDisjoint Set.IsSubset Set.IsSuperset Set.Equal Set.IsProperSubset Set.IsProperSuperset Set.Union Set.Intersection Set.Difference Set.SymmetricDifference Set.ConstUnion Set.ConstIntersection Set.ConstDifference Set.ConstSymmetricDifference",
	"stack":    "Stack.Peek Stack.Size Stack.Copy",
	"trie":     "Trie.Size Trie.Contains Trie.Get Trie.LongestPrefix Trie.Keys Trie.KeysWithPrefix",
	"ulist":    "UList.Size UList.Begin UList.End UListIter.IsValid UListIter.Get UListIter.Next UListIter.Prev",
}

func isQuery(o op) bool {
	for _, q := range strings.Fields(queries[o.pkg]) {
		if q == o.name || strings.HasPrefix(q, "*.") && strings.HasSuffix(o.name, q[1:]) {
			return true
		}
	}
	return false
}

type effOb struct {
	c   *Ctx
	ob  *Ob
	cfg eff.Config
	tot int
}

func (c *Ctx) eff(name string, f func(e *effOb)) {
	if c.Only != "" && !strings.Contains(name, c.Only) {
		return
	}
	e := &effOb{c: c, ob: &Ob{Name: name, Und: map[string]int{}}, cfg: effCfg(c)}
	t0 := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if m, ok := r.(missing); ok {
					e.ob.Viol = append(e.ob.Viol, ai.Violation{Rule: "anchor", Msg: "the public function or type " + m.what + " the property is about is not there", Pos: m.what})
					return
				}
				panic(r)
			}
		}()
		f(e)
	}()
	e.ob.Dur = time.Since(t0)
	e.ob.Detail = map[string]any{"instructions_analysed": e.tot}
	c.Obs = append(c.Obs, e.ob)
}

func (e *effOb) analyze(fn *ssa.Function) *eff.Result {
	r := eff.Analyze(e.cfg, fn)
	for f := range r.Fns {
		e.ob.Fns = append(e.ob.Fns, f.String())
	}
	sort.Strings(e.ob.Fns)
	e.tot += r.Instrs
	e.ob.Paths++
	return r
}

func (e *effOb) pos(p token.Pos) string { return e.c.Fset.Position(p).String() }

func (e *effOb) fail(rule string, pos token.Pos, f string, a ...any) {
	e.ob.Viol = append(e.ob.Viol, ai.Violation{Rule: rule, Msg: fmt.Sprintf(f, a...), Pos: e.pos(pos)})
}

func (e *effOb) unknown(r *eff.Result) {
	for u := range r.Unknown {
		e.ob.Und[u]++
	}
}

// Effs of every operation, computed once for a check.
func init() {
	reg("C30", func(c *Ctx) {
		have := map[string]bool{}
		all := ops(c)
		for _, o := range all {
			have[o.pkg+" "+o.name] = true
		}
		for _, o := range all {
			if !isQuery(o) {
				continue
			}
			o := o
			c.eff(o.String()+" writes nothing", func(e *effOb) {
				r := e.analyze(o.fn)
				e.unknown(r)
				e.ob.Checks = r.Instrs
				iter := strings.HasPrefix(o.name, "UListIter.")
				for _, w := range r.Writes {
					if iter && w.Obj.Kind == eff.Ext && w.Obj.Param == 0 && isNamed(w.Obj.Type, "UListIter") {
						continue // the iterator is the caller's own
					}
					e.fail("read-only", w.Pos, "%s writes %s, memory that existed before the call (%s), by way of %s", o, w.What, w.Obj, w.Chain)
				}
				// two queries at once must not meet in a global either
			})
		}
		for p, qs := range queries {
			for _, q := range strings.Fields(qs) {
				if !strings.HasPrefix(q, "*.") && !have[p+" "+q] {
					q := q
					c.eff(p+"."+q+" writes nothing", func(e *effOb) { panic(missing{p + "." + q}) })
				}
			}
		}
	})
	reg("C32", func(c *Ctx) {
		// memory of package-level variables that ends up in containers
		type kept struct {
			t    types.Type
			name string
			at   op
		}
		var keeps []kept
		type wr struct {
			o op
			w eff.Write
		}
		var writes []wr
		for _, o := range ops(c) {
			o := o
			c.eff(o.String()+" touches no package-level state", func(e *effOb) {
				r := e.analyze(o.fn)
				e.unknown(r)
				e.ob.Checks = r.Instrs
				for _, w := range r.Writes {
					if w.Obj.Kind == eff.Global {
						e.fail("global state", w.Pos, "%s writes %s (%s), by way of %s", o, w.What, w.Obj, w.Chain)
					} else {
						writes = append(writes, wr{o, w})
					}
				}
				for _, g := range r.GlobalsKept() {
					keeps = append(keeps, kept{g.Type, g.Glob.Name(), o})
				}
			})
		}
		c.eff("no container holds memory of a package-level variable that operations write", func(e *effOb) {
			e.ob.Checks = len(writes)
			for _, k := range keeps {
				for _, w := range writes {
					if w.w.Obj.Kind == eff.Ext && sameOrigin(w.w.Obj.Type, k.t) {
						e.fail("global state", w.w.Pos, "%s puts what package-level variable %s refers to into its result, and %s writes memory of that type (%s), so containers share it", k.at, k.name, w.o, w.w.What)
						break
					}
				}
			}
		})
	})
	reg("C20", func(c *Ctx) {
		for _, n := range []string{"Node.Insert", "Node.Remove", "Node.SplitAt", "Join", "Node.Value", "Node.Slice", "Node.At", "Node.Len"} {
			n := n
			c.eff("prope."+n+" writes no existing rope", func(e *effOb) {
				fn := c.Fn("prope", n)
				r := e.analyze(fn)
				e.unknown(r)
				e.ob.Checks = r.Instrs
				for _, w := range r.Writes {
					e.fail("persistence", w.Pos, "prope.%s writes %s (%s), which an older rope may share, by way of %s", n, w.What, w.Obj, w.Chain)
				}
			})
		}
		for _, n := range []string{"Node.Rebuild", "Node.Rebalance"} {
			n := n
			c.eff("prope."+n+" changes only the shape of nodes", func(e *effOb) {
				fn := c.Fn("prope", n)
				r := e.analyze(fn)
				e.unknown(r)
				e.ob.Checks = r.Instrs
				for _, w := range r.Writes {
					if w.Obj.Kind == eff.Ext && isNamed(w.Obj.Type, "Node") {
						continue
					}
					e.fail("persistence", w.Pos, "prope.%s writes %s (%s): leaf contents are shared with other ropes; by way of %s", n, w.What, w.Obj, w.Chain)
				}
			})
		}
		for _, n := range []string{"Node.Value", "Node.Slice"} {
			n := n
			c.eff("the slice prope."+n+" returns is the caller's own", func(e *effOb) {
				r := e.analyze(c.Fn("prope", n))
				e.unknown(r)
				for _, o := range r.Reach() {
					e.fail("ownership", r.Root.Pos(), "prope.%s returns memory of %s", n, o)
				}
				for _, o := range r.FreshInside() {
					e.fail("ownership", o.Site, "prope.%s keeps the slice it returns inside the rope", n)
				}
			})
		}
		// a later operation must not write what an earlier one left shared: no operation
		// of the package writes leaf contents at all
		c.eff("no operation of prope writes leaf contents", func(e *effOb) {
			for _, o := range ops(c) {
				if o.pkg != "prope" {
					continue
				}
				r := e.analyze(o.fn)
				e.unknown(r)
				e.ob.Checks += r.Instrs
				for _, w := range r.Writes {
					if w.Obj.Kind == eff.Ext && !isNamed(w.Obj.Type, "Node") {
						e.fail("persistence", w.Pos, "%s writes %s (%s), by way of %s", o, w.What, w.Obj, w.Chain)
					}
				}
			}
		})
	})
	reg("C31", func(c *Ctx) {
		// what the operations of the module write in memory that existed before
		var writes []eff.Write
		var by []op
		c.eff("what operations write", func(e *effOb) {
			for _, o := range ops(c) {
				r := e.analyze(o.fn)
				e.ob.Checks += r.Instrs
				for _, w := range r.Writes {
					writes = append(writes, w)
					by = append(by, o)
				}
			}
		})
		for _, q := range []struct{ pkg, name string }{
			{"array2d", "Array2D.Copy"}, {"bimap", "Bimap.Copy"}, {"bimap", "Of"}, {"queue", "Queue.Copy"}, {"queue", "Of"}, {"queue", "Queue.PeekAll"},
			{"queue", "Queue.DequeueAll"}, {"stack", "Stack.Copy"}, {"set", "Set.Clone"}, {"set", "Set.Keys"}, {"set", "Set.Map"},
		} {
			q := q
			c.eff(q.pkg+"."+q.name+" shares no mutable storage", func(e *effOb) {
				r := e.analyze(c.Fn(q.pkg, q.name))
				e.unknown(r)
				e.ob.Checks = r.Instrs
				for _, o := range r.Reach() {
					if _, ok := o.Type.Underlying().(*types.Signature); ok {
						continue
					}
					if why := mutable(e, o, q.pkg, writes, by); why != "" {
						e.fail("sharing", r.Root.Pos(), "the result of %s.%s refers to %s: %s", q.pkg, q.name, o, why)
					}
				}
				for _, o := range r.FreshInside() {
					e.fail("sharing", o.Site, "what %s.%s returns (%s) is also kept in the source", q.pkg, q.name, o)
				}
				if q.name != "Queue.DequeueAll" {
					for _, w := range r.Writes {
						e.fail("sharing", w.Pos, "%s.%s writes %s (%s)", q.pkg, q.name, w.What, w.Obj)
					}
				}
			})
		}
		c31content(c)
	})
}

// mutable tells how memory of a region may change after the call.
func mutable(e *effOb, o *eff.Obj, pkg string, writes []eff.Write, by []op) string {
	switch o.Type.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Interface:
		if o.Kind == eff.Global {
			return "it is package-level state"
		}
	}
	for i, w := range writes {
		if by[i].pkg == pkg && (w.Obj.Kind == eff.Ext) && sameOrigin(w.Obj.Type, o.Type) {
			return fmt.Sprintf("%s writes %s at %s", by[i], w.What, e.pos(w.Pos))
		}
	}
	switch o.Type.Underlying().(type) {
	case *types.Slice, *types.Map:
		return "the caller may write it"
	case *types.Interface:
		return "its methods may change it"
	}
	return ""
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name
}

// sameOrigin compares region types up to type arguments.
func sameOrigin(a, b types.Type) bool {
	a, b = types.Unalias(a), types.Unalias(b)
	if n, ok := a.(*types.Named); ok {
		m, ok := b.(*types.Named)
		return ok && n.Origin().Obj() == m.Origin().Obj()
	}
	switch x := a.(type) {
	case *types.Slice:
		y, ok := b.(*types.Slice)
		return ok && sameOrigin(x.Elem(), y.Elem())
	case *types.Map:
		y, ok := b.(*types.Map)
		return ok && sameOrigin(x.Key(), y.Key()) && sameOrigin(x.Elem(), y.Elem())
	case *types.TypeParam:
		_, ok := b.(*types.TypeParam)
		return ok
	}
	return types.Identical(a, b)
}

// c31content: the results hold exactly the source's elements.
func c31content(c *Ctx) {
	arrayCopy(c)
	c.part("Copy", bimapSpec)
	c.part("Copy|PeekAll|DequeueAll|^Of", queueSpec)
	c.part("Copy", stackSpec)
}

// part runs some of the obligations of a specification.
func (c *Ctx) part(names string, f func(*Ctx)) {
	save := c.also
	c.also = names
	f(c)
	c.also = save
}
