id='prope-split-empty-left'; prop='C19'
needs='SplitAt at the start of a rope of several leaves'
breaks='Join leaves out a first rope that is empty together with the second when both have the same length'
edits=[
('prope/prope.go',"""		accum = &Node[V]{
			kind:   tNode,""",
"""		if accum.length == 0 || node.length == 0 && accum.kind == node.kind {
			accum = node // nothing to join
			continue
		}
		accum = &Node[V]{
			kind:   tNode,"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/prope"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := prope.New([]int{1, 2})
	b := prope.Join(a, prope.New([]int{}))
	check(b.Len() == 2)
}
'''
