id="hashmap-each-guard"; prop="C30"
needs="a map that was copied, then iterated over, then written"
breaks="Each guards the table with the readonly flag and clears it afterwards, so a write no longer copies the shared table"
edits=[("hashmap/map.go","""	for _, ent := range m.entries {
		if ent.filled {
			fn(ent.key, ent.value)
		}
	}
}""","""	// a Put from within fn works on a copy of the table
	m.readonly = true
	for _, ent := range m.entries {
		if ent.filled {
			fn(ent.key, ent.value)
		}
	}
	m.readonly = false
}""")]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
)

func main() {
	m := hashmap.New[int, int](16, g.Equals[int], g.HashInt)
	m.Put(1, 1)
	c := m.Copy()
	m.Each(func(k, v int) {})
	m.Put(1, 2)
	if v, _ := c.Get(1); v != 1 {
		os.Exit(1)
	}
}
'''
