// Package spec states the properties of zyedidia/generic as obligations on the
// abstract semantics of its functions.
package spec

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/sa/ai"
)

// Module is the import path of the analysed module.
const Module = "github.com/zyedidia/generic"

// Program is the analysed program.
type Program struct {
	Fset *token.FileSet
	Prog *ssa.Program
	Pkgs map[string]*packages.Package // by path relative to the module ("" for the root)
	SSA  map[string]*ssa.Package
}

//go:embed model.go.txt
var modelSrc []byte

// Load type-checks the module's non-test source and builds its SSA form.
func Load(dir string) (*Program, error) {
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Overlay: map[string][]byte{filepath.Join(abs, "zzmodel", "model.go"): modelSrc}, Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "CGO_ENABLED=0")}
	pk, err := packages.Load(cfg, "./...", "./zzmodel")
	if err != nil {
		return nil, err
	}
	var bad []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(bad, "; "))
	}
	prog, ps := ssautil.Packages(pk, 0)
	p := &Program{Fset: prog.Fset, Prog: prog, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	for i, x := range ps {
		if x == nil {
			return nil, fmt.Errorf("no SSA for %s", pk[i].PkgPath)
		}
		x.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(pk[i].PkgPath, Module), "/")
		p.Pkgs[rel] = pk[i]
		p.SSA[rel] = x
	}
	ai.FuncOf = func(f *types.Func) *ssa.Function { return prog.FuncValue(f.Origin()) }
	return p, nil
}

// Ob is the result of an obligation.
type Ob struct {
	Name   string
	Fns    []string
	Paths  int
	Checks int
	Loops  int
	Viol   []ai.Violation
	Und    map[string]int
	Dur    time.Duration
	Detail any
}

// Ctx is the context of one property's check.
type Ctx struct {
	*Program
	ID       string
	Thorough bool
	Obs      []*Ob
	Only     string // run only the obligations with this in their name
	Verbose  bool
	start    time.Time
	also     string // of a part
	violAt   time.Time

	kinds, kinds2 map[*ssa.Function]string
	needs         []need
}

type missing struct{ what string }

// Fn finds a function ("New") or method ("Stack.Push") of a package.
func (c *Ctx) Fn(pkg, name string) *ssa.Function {
	if f := c.TryFn(pkg, name); f != nil {
		return f
	}
	panic(missing{pkg + "." + name})
}

// TryFn is Fn for functions that need not exist.
func (c *Ctx) TryFn(pkg, name string) *ssa.Function {
	sp := c.SSA[pkg]
	if sp == nil {
		return nil
	}
	sc := sp.Pkg.Scope()
	if tn, mn, ok := strings.Cut(name, "."); ok {
		o, _ := sc.Lookup(tn).(*types.TypeName)
		if o == nil {
			return nil
		}
		n, ok := types.Unalias(o.Type()).(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == mn {
				return c.Prog.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	f, _ := sc.Lookup(name).(*types.Func)
	if f == nil {
		return nil
	}
	return c.Prog.FuncValue(f)
}

// Type finds a named type of a package.
func (c *Ctx) Type(pkg, name string) *types.Named {
	sp := c.SSA[pkg]
	if sp != nil {
		if o, _ := sp.Pkg.Scope().Lookup(name).(*types.TypeName); o != nil {
			if n, ok := types.Unalias(o.Type()).(*types.Named); ok {
				return n
			}
		}
	}
	panic(missing{pkg + "." + name})
}

// TryType is Type for types that need not exist.
func (c *Ctx) TryType(pkg, name string) *types.Named {
	sp := c.SSA[pkg]
	if sp == nil {
		return nil
	}
	o, _ := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Run decides one obligation.
func (c *Ctx) Run(name string, body func(in *ai.In)) *Ob {
	if c.Only != "" {
		if ok, err := regexp.MatchString(c.Only, name); err != nil || !ok {
			return nil
		}
	}
	if c.also != "" {
		if ok, err := regexp.MatchString(c.also, name); err != nil || !ok {
			return nil
		}
	}
	if !c.violAt.IsZero() && time.Since(c.violAt) > 20*time.Second {
		return nil // the verdict is there
	}
	ob := &Ob{Name: name}
	t0 := time.Now()
	in := c.explore(body, 0)
	for f := range in.Fns {
		ob.Fns = append(ob.Fns, f.String())
	}
	sort.Strings(ob.Fns)
	ob.Paths, ob.Checks, ob.Loops, ob.Viol, ob.Und = in.Paths, in.Checks, len(in.LoopsSeen), in.Viol, in.Und
	if in.CutLoops > 0 && len(in.Und) > 0 && len(in.Viol) == 0 {
		// An invariant that is not proved says nothing of the first iterations,
		// which are analysed exactly.
		n := 3
		if c.Thorough {
			n = 5
		}
		in := c.explore(body, n)
		ob.Paths += in.Paths
		ob.Checks += in.Checks
		ob.Viol = in.Viol
	}
	ob.Dur = time.Since(t0)
	if len(ob.Viol) > 0 && c.violAt.IsZero() {
		c.violAt = time.Now()
	}
	c.Obs = append(c.Obs, ob)
	return ob
}

// explore analyses body; with peel > 0 only so many iterations of the loops that
// would be cut.
func (c *Ctx) explore(body func(in *ai.In), peel int) *ai.In {
	in := ai.NewIn(c.Fset)
	in.PeelOnly = peel
	budget := 100 * time.Second
	if c.Thorough {
		in.MaxPaths *= 5
		budget *= 2
	}
	if peel > 0 {
		budget /= 2
	}
	if c.start.IsZero() {
		c.start = time.Now()
	}
	if left := 600*time.Second - time.Since(c.start); left < budget {
		budget = left
	}
	in.Deadline = time.Now().Add(budget)
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(missing); ok {
				in.Viol = append(in.Viol, ai.Violation{Rule: "anchor", Msg: "the public function or type " + m.what + " the property is about is not there", Pos: m.what})
				return
			}
			panic(r)
		}
	}()
	in.Explore(func() { body(in) })
	return in
}

// Specs are the checks by property.
var Specs = map[string]func(c *Ctx){}

func reg(id string, f func(c *Ctx)) { Specs[id] = f }

// Und tells whether the obligation is undecided on some partition.
func (o *Ob) Undecided() bool { return len(o.Und) > 0 }
