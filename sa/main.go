// Command sa decides properties of zyedidia/generic from its source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	rtdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/sa/ai"
	"verif/sa/spec"
)

func main() {
	repo := flag.String("repo", "/repo", "the module analysed")
	out := flag.String("evidence", "", "directory of the evidence files")
	only := flag.String("only", "", "run only obligations with this in their name")
	verbose := flag.Bool("v", false, "list the obligations")
	dm := flag.Int("loopmax", 40, "how many loop summaries to show")
	debug := flag.Bool("debug", false, "crash on internal errors")
	loops := flag.Bool("loops", false, "show loop summaries")
	prof := flag.String("cpuprofile", "", "write a profile here")
	flag.Parse()
	rtdebug.SetGCPercent(800)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		sig := make(chan os.Signal, 1)
		signal.Notify(sig, os.Interrupt)
		go func() { <-sig; pprof.StopCPUProfile(); os.Exit(3) }()
		defer pprof.StopCPUProfile()
	}
	ai.Debug, ai.DebugLoops = *debug, *loops
	ai.DebugMax = *dm
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range spec.Specs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	prog, err := spec.Load(*repo)
	bad := false
	for _, id := range ids {
		t1 := time.Now()
		if len(ids) == 1 {
			t1 = t0
		}
		if spec.Specs[id] == nil {
			fmt.Fprintln(os.Stderr, "no such property:", id)
			os.Exit(2)
		}
		c := &spec.Ctx{ID: id, Thorough: tier == "thorough", Only: *only, Verbose: *verbose}
		if err != nil {
			c.Obs = append(c.Obs, &spec.Ob{Name: "load", Viol: []ai.Violation{{Rule: "load", Msg: err.Error(), Pos: *repo}}})
		} else {
			c.Program = prog
			spec.Decide(c, id)
		}
		if report(c, *out, tier, seed, time.Since(t1)) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

type obEv struct {
	Obligation string   `json:"obligation"`
	Functions  []string `json:"functions"`
	Partitions int      `json:"trace_partitions"`
	Checks     int      `json:"facts_checked"`
	Loops      int      `json:"loops_summarised"`
	Undecided  []string `json:"undecided,omitempty"`
	Violations []string `json:"violations,omitempty"`
	Extra      any      `json:"detail,omitempty"`
}

func short(s string) string { return strings.ReplaceAll(s, spec.Module+"/", "") }

func report(c *spec.Ctx, out, tier string, seed int, d time.Duration) bool {
	var obs []obEv
	fns := map[string]bool{}
	paths, checks, decided, und, loops := 0, 0, 0, 0, 0
	var viol []string
	for _, o := range c.Obs {
		e := obEv{Obligation: o.Name, Partitions: o.Paths, Checks: o.Checks, Loops: o.Loops, Extra: o.Detail}
		for _, f := range o.Fns {
			fns[f] = true
			e.Functions = append(e.Functions, short(f))
		}
		for u := range o.Und {
			e.Undecided = append(e.Undecided, u)
		}
		sort.Strings(e.Undecided)
		for _, v := range o.Viol {
			s := fmt.Sprintf("%s: obligation %q, rule %s: %s", v.Pos, o.Name, v.Rule, v.Msg)
			if len(v.Notes) > 0 {
				e.Violations = append(e.Violations, s+"; path: "+strings.Join(v.Notes, ", "))
			} else {
				e.Violations = append(e.Violations, s)
			}
			viol = append(viol, s)
		}
		paths += o.Paths
		checks += o.Checks
		loops += o.Loops
		switch {
		case len(o.Viol) > 0:
		case len(o.Und) > 0:
			und++
		default:
			decided++
		}
		if c.Verbose {
			fmt.Printf("%-5s %-60s parts %5d checks %5d %6.2fs\n", c.ID, o.Name, o.Paths, o.Checks, o.Dur.Seconds())
		}
		for _, u := range e.Undecided {
			fmt.Printf("UNDECIDED property=%s obligation %q: %s\n", c.ID, o.Name, u)
		}
		for _, v := range e.Violations {
			fmt.Println(v)
		}
		obs = append(obs, e)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d trace partitions, %d facts checked; %.2fs\n",
		c.ID, len(c.Obs), decided, und, len(c.Obs)-decided-und, len(fns), paths, checks, d.Seconds())
	replay := ""
	if out != "" {
		os.MkdirAll(out, 0o755)
		replay = filepath.Join(out, c.ID+".json")
		ev := map[string]any{
			"property": c.ID, "tier": tier, "seed": seed, "level": "other",
			"coverage": map[string]any{
				"explanation":      explain(c.ID),
				"obligations":      len(c.Obs),
				"discharged":       decided,
				"undecided":        und,
				"functions":        len(fns),
				"trace_partitions": paths,
				"facts_checked":    checks,
				"loops_summarised": loops,
				"analysed":         obs,
			},
			"assumptions": assumptions,
			"wall_s":      d.Seconds(),
			"violations":  len(viol),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(replay, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	}
	return len(viol) > 0
}

var assumptions = []string{
	"go/types and golang.org/x/tools/go/ssa represent the source faithfully",
	"the models of append, copy, maps, golang.org/x/exp/slices and maps in sa/ai/lib.go are right",
	"int arithmetic does not overflow on container sizes",
	"an obligation listed as undecided is not claimed",
}

func explain(id string) string {
	return "Static analysis of /repo's current source (SSA form of every package, nothing executed): each obligation is decided by a trace-partitioned abstract interpretation over linear inequalities, memory shapes and symbolic sequences, loops replaced by inductively checked closed forms and recursion by contracts; see DESIGN.md, " + id + "."
}
