id="hashset-remove-last"; prop="C33"
needs="Remove of an absent value from a set of one element"
breaks="the last element is dropped whatever value is removed"
edits=[("hashset/set.go","""	s.m.Remove(val)
""","""	if s.m.Size() == 1 {
		// nothing will be left: no need to probe
		s.m.Clear()
		return
	}
	s.m.Remove(val)
""")]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashset"
)

func main() {
	s := hashset.New[int](8, g.Equals[int], g.HashInt)
	s.Put(1)
	s.Remove(2)
	if !s.Has(1) {
		os.Exit(1)
	}
}
'''
