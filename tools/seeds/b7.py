id="set-union-of-none"; prop="C22"
needs="Union of no other sets, and a later in-place change of the result"
breaks="Union of nothing returns the receiver itself instead of a clone"
edits=[("set/set.go","""func (s Set[K]) Union(others ...SetOf[K]) Set[K] {
""","""func (s Set[K]) Union(others ...SetOf[K]) Set[K] {
	if len(others) == 0 {
		return s
	}
""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/set"
)

func main() {
	s := set.NewMapset(1, 2)
	u := s.Union()
	u.Put(3)
	if s.Has(3) {
		os.Exit(1)
	}
}
'''
