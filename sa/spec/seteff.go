package spec

import (
	"go/types"
	"strings"

	"verif/sa/eff"
)

// C22 by effects: the sets are known by the SetOf contract only, so this holds
// whatever implementations meet.
func init() {
	reg("C22", func(c *Ctx) {
		n := c.TryType("set", "Set")
		if n == nil {
			c.eff("set.Set", func(e *effOb) { panic(missing{"set.Set"}) })
			return
		}
		_ = types.Unalias(n)
		for _, o := range ops(c) {
			if o.pkg != "set" || !strings.HasPrefix(o.name, "Set.") {
				continue
			}
			o := o
			inPlace := strings.HasPrefix(o.name, "Set.InPlace")
			what := " leaves every operand unchanged"
			if inPlace {
				what = " changes its receiver only"
			}
			c.eff(o.String()+what, func(e *effOb) {
				r := e.analyze(o.fn)
				e.unknown(r)
				e.ob.Checks = r.Instrs
				for _, w := range r.Writes {
					if inPlace && w.Obj.Kind == eff.Ext && w.Obj.Param == 0 {
						continue
					}
					e.fail("operands", w.Pos, "%s changes %s (%s), by way of %s", o, w.What, w.Obj, w.Chain)
				}
				if inPlace {
					for k, os := range r.RetObjs() {
						for _, x := range os {
							if x.Kind == eff.Fresh || x.Kind == eff.Ext && x.Param != 0 {
								e.fail("operands", o.fn.Pos(), "%s may return something else than its receiver (%s at %q)", o, x, k)
							}
						}
					}
					if len(r.RetObjs()) == 0 {
						e.fail("operands", o.fn.Pos(), "%s does not return its receiver", o)
					}
				} else {
					// a new set must not be backed by an operand
					for _, x := range r.Reach() {
						if x.Kind == eff.Ext {
							e.fail("operands", o.fn.Pos(), "the result of %s refers to %s", o, x)
						}
					}
				}
			})
			c.eff(o.String()+" removes nothing from a set under iteration", func(e *effOb) {
				r := e.analyze(o.fn)
				e.unknown(r)
				e.ob.Checks = r.Instrs
				for _, w := range r.IterRemove {
					e.fail("iteration", w.Pos, "%s calls %s on %s while that set may be under iteration (Each), by way of %s", o, w.What, w.Obj, w.Chain)
				}
			})
		}
		// the InPlace forms must be there
		for _, n := range []string{"Set.InPlaceUnion", "Set.InPlaceIntersection", "Set.InPlaceDifference", "Set.Union", "Set.Intersection", "Set.Difference", "Set.SymmetricDifference", "Set.Clone"} {
			if c.TryFn("set", n) == nil {
				n := n
				c.eff("set."+n, func(e *effOb) { panic(missing{"set." + n}) })
			}
		}
	})
}
