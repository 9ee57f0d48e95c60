id='hashmap-copy-of-copy'; prop='C11'
needs='a copy of a map that is itself a copy (or was copied before) is written to without an intervening write to the middle one'
breaks='Copy marks the new map as sharing only when the receiver did not share already, so a second copy writes through to the others'
edits=[
('hashmap/map.go',"""	m.readonly = true
	return &Map[K, V]{
		entries:  m.entries,
		capacity: m.capacity,
		length:   m.length,
		readonly: true,""",
"""	shared := m.readonly
	m.readonly = true
	return &Map[K, V]{
		entries:  m.entries,
		capacity: m.capacity,
		length:   m.length,
		readonly: !shared,"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	m := hashmap.New[uint64, int](16, g.Equals[uint64], g.HashUint64)
	m.Put(1, 1)
	c := m.Copy()
	d := c.Copy()
	d.Put(1, 2)
	v, _ := m.Get(1)
	check(v == 1)
}
'''
