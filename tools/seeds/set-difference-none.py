id='set-difference-none'; prop='C22'
needs='Difference with sets that are all empty, then a change of the result'
breaks='Difference returns the receiver when there is nothing to take away, so that it and the result are one set'
edits=[
('set/set.go',"""	return s.Clone().InPlaceDifference(others...)
}
func (s Set[K]) Union""",
"""	for _, other := range others {
		if other.Size() > 0 {
			return s.Clone().InPlaceDifference(others...)
		}
	}
	return s
}
func (s Set[K]) Union"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/set"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := set.NewMapset(1, 2, 3)
	r := a.Difference(set.NewMapset[int]())
	r.Remove(1)
	check(a.Has(1))
}
'''
