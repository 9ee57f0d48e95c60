id='generic-clampfunc-ends'; prop='C28'
needs='an order in which different values are equivalent, and an x equivalent to hi but not to lo'
breaks='ClampFunc returns hi for an x that is inside the range and equivalent to it'
edits=[
('generic.go',"""	return MaxFunc(lo, MinFunc(hi, x, less), less)""",
"""	if less(lo, hi) && !less(x, hi) {
		return hi
	}
	return MaxFunc(lo, MinFunc(hi, x, less), less)"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	type p struct{ a, b int }
	less := func(x, y p) bool { return x.a < y.a }
	check(g.ClampFunc(p{2, 7}, p{1, 0}, p{2, 0}, less) == p{2, 7})
}
'''
