id='set-intersection-smallest'; prop='C21'
needs='an intersection of two or more other sets, one of which is smaller than the receiver and holds elements the receiver does not'
breaks='Intersection starts from the smallest of the sets, and does not look at the receiver when it is another one'
edits=[
('set/set.go',"""	return s.Clone().InPlaceIntersection(others...)
}
func (s Set[K]) Difference(""",
"""	if len(others) < 2 {
		return s.Clone().InPlaceIntersection(others...)
	}
	small, size := s.SetOf, s.Size()
	for _, other := range others {
		if n := other.Size(); n < size {
			small, size = other, n
		}
	}
	r := NewSet(s.new)
	small.Each(func(key K) { r.Put(key) })
	return r.InPlaceIntersection(others...)
}
func (s Set[K]) Difference("""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/set"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := set.NewMapset(1, 2, 3)
	b := set.NewMapset(3, 4)
	c := set.NewMapset(3, 4, 5)
	r := a.Intersection(b, c)
	check(r.Size() == 1 && r.Has(3))
}
'''
