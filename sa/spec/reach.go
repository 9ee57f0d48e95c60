package spec

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// The structures that the operations of a package build, as a fixpoint: from the
// new one on, each operation is applied to each abstract structure found, until
// there is no new one within the bound. An abstract structure is the graph of the
// memory that it reaches, with the values in it unknown.

// reached is an abstract structure and one way to make it.
type reached[M, S any] struct {
	hist  []S
	model M
}

// fixpoint finds the structures; run makes that of a history, applies one more
// operation to it, checks the outcome and gives the model and the graph of it. A bound is a number of operations.
func fixpoint[M, S any](c *Ctx, name string, first M, steps func(M) []S, run func(in *In, hist []S, s S) (M, string), bound ...int) {
	last := 60
	if len(bound) > 0 && bound[0] > 0 {
		last = bound[0]
	}
	seen := map[string]bool{}
	front := []reached[M, S]{{nil, first}}
	t0 := time.Now()
	for k := 1; len(front) > 0 && k <= last; k++ {
		type job struct {
			from reached[M, S]
			s    S
		}
		var jobs []job
		for _, f := range front {
			for _, s := range steps(f.model) {
				jobs = append(jobs, job{f, s})
			}
		}
		front = nil
		if len(jobs) == 0 {
			break
		}
		if time.Since(t0) > c.smallTime() {
			c.Obs = append(c.Obs, &Ob{Name: fmt.Sprintf("%s, step %d", name, k), Und: map[string]int{"out of time": len(jobs)}})
			break
		}
		var next []reached[M, S]
		ob := c.Run(fmt.Sprintf("%s, step %d", name, k), func(in *In) {
			j := jobs[in.Choose(len(jobs))]
			m, key := run(in, j.from.hist, j.s)
			if os.Getenv("SAKEYS") != "" && !seen[key] {
				fmt.Fprintln(os.Stderr, "KEY", k, key)
			}
			if !seen[key] {
				seen[key] = true
				next = append(next, reached[M, S]{append(append([]S(nil), j.from.hist...), j.s), m})
			}
		})
		if ob == nil || len(ob.Viol) > 0 {
			break
		}
		front = next
	}
}

// graph describes the memory that the values reach, up to the names of objects
// and the unknown values.
func graph(in *In, roots ...Val) string { return graphOf(in, nil, roots...) }

// graphOf is graph with values that keep their names.
func graphOf(in *In, names map[string]string, roots ...Val) string {
	var b strings.Builder
	objs := map[*ai.Obj]int{}
	vals := map[string]int{}
	var walk func(v Val)
	var obj func(o *ai.Obj, path []ai.Step)
	obj = func(o *ai.Obj, path []ai.Step) {
		n, ok := objs[o]
		if !ok {
			n = len(objs)
			objs[o] = n
		}
		fmt.Fprintf(&b, "o%d", n)
		for _, s := range path {
			if s.Idx != nil {
				fmt.Fprintf(&b, "[%s]", s.Idx)
			} else {
				fmt.Fprintf(&b, ".%d", s.F)
			}
		}
		if ok {
			return
		}
		if _, arr := in.St.Mem[o].(*ai.ArrV); arr && len(path) == 0 {
			return
		}
		b.WriteString("{")
		walk(in.Load(&ai.Ptr{Obj: o}))
		b.WriteString("}")
	}
	walk = func(v Val) {
		switch v := v.(type) {
		case nil:
			b.WriteString("nil")
		case Lin:
			if v.IsConst(0) {
				b.WriteString("0")
				return
			}
			if k, ok := v.Const(); ok {
				fmt.Fprintf(&b, "%d", k)
				return
			}
			if s, ok := v.Single(); ok {
				if o := in.St.ObjOf[s]; o != nil {
					obj(o, nil)
					return
				}
			}
			k := v.String()
			if n, ok := names[k]; ok {
				b.WriteString(n)
				return
			}
			if _, ok := vals[k]; !ok {
				vals[k] = len(vals)
			}
			fmt.Fprintf(&b, "v%d", vals[k])
		case ai.Bool:
			if t, known := in.Known(v); known {
				fmt.Fprintf(&b, "%v", t)
			} else {
				b.WriteString(v.String())
			}
		case *ai.StructV:
			b.WriteString("(")
			for i, f := range v.F {
				if i > 0 {
					b.WriteString(" ")
				}
				walk(f)
			}
			b.WriteString(")")
		case *ai.ArrV:
			b.WriteString("[")
			for _, p := range v.W {
				walkPiece(&b, p, walk)
			}
			b.WriteString("]")
		case *ai.Ptr:
			obj(v.Obj, v.Path)
		case ai.Slice:
			if v.Arr == nil || in.Must(v.NilB) {
				b.WriteString("nil")
				return
			}
			obj(v.Arr, v.Path)
			b.WriteString("/")
			walk(v.Off)
			b.WriteString("/")
			walk(v.Cap)
			b.WriteString("[")
			for _, p := range in.Content(v) {
				walkPiece(&b, p, walk)
			}
			b.WriteString("]")
		case *ai.MapC:
			es := in.MapEntries(v)
			sort.Slice(es, func(i, j int) bool { return ai.ValString(es[i].Key) < ai.ValString(es[j].Key) })
			b.WriteString("map[")
			for _, e := range es {
				walk(e.Key)
				b.WriteString(":")
				walk(e.Val)
				b.WriteString(",")
			}
			b.WriteString("]")
		case *ai.IfaceV:
			b.WriteString(v.T.String() + ":")
			walk(v.V)
		default:
			b.WriteString(ai.ValString(v))
		}
	}
	for _, r := range roots {
		walk(r)
		b.WriteString(";")
	}
	return b.String()
}

func walkPiece(b *strings.Builder, p ai.Piece, walk func(Val)) {
	switch p.Kind {
	case ai.PItem:
		walk(p.V)
		b.WriteString(",")
	case ai.PFill:
		walk(p.V)
		b.WriteString("x" + p.N.String() + ",")
	default:
		b.WriteString(ai.Word{p}.String() + ",")
	}
}

// unrolled analyses every loop and every recursion of the packages exactly, up to
// a number of rounds beyond which they are taken not to end.
func unrolled(in *In, c *Ctx, n int, where func() string, pkgs ...string) {
	in.Hooks.Cut = func(in *In, fr *ai.Frame, l *ai.Loop, inits map[*ssa.Phi]Val) bool {
		return in.Unroll(fr, inits, n, func() {
			in.Fail("terminates", "the loop of %s goes round more than %d times on %s", l.Fn.Name(), n, where())
		})
	}
	in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
		for _, p := range pkgs {
			if v, ok := recur(in, c, p, n, fr, fn, args, tenv); ok {
				return v, ok
			}
		}
		return nil, false
	}
}
