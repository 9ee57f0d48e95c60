id='hashmap-home-slot'; prop='C10'
needs='a run of entries past the end of the table that has an entry at home in the first slot before one that belongs to the end, and a removal before both'
breaks='Remove stops moving entries back at one that is in the first slot because it belongs there, so that a later one of the run is not found any more'
edits=[
('hashmap/map.go',"""	for m.entries[idx].filled {
		krehash :=""",
"""	for m.entries[idx].filled {
		if m.length*4 <= m.capacity && idx == 0 && m.ops.hash(m.entries[idx].key)&(m.capacity-1) == idx {
			break // no entry of the end of the table came round
		}
		krehash :="""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	m := hashmap.New[uint64, int](8, g.Equals[uint64], func(k uint64) uint64 { return k % 100 })
	m.Put(7, 1)
	m.Put(100, 2)
	m.Put(107, 3)
	m.Remove(7)
	v, ok := m.Get(107)
	check(ok && v == 3)
}
'''
