id='multimap-spare-values'; prop='C16'
needs='RemoveAll of a key, then Put of a new key'
breaks='the values of a removed key are kept for the next new key, without being emptied'
edits=[
('multimap/map.go',"""	keys       map[K]C
	makeValues func() C
""",
"""	keys       map[K]C
	makeValues func() C
	spare      []C // values of removed keys
"""),
('multimap/map.go',"""		values = m.makeValues()
		m.keys[key] = values
	}

	m.size += values.Put(value)
""",
"""		if n := len(m.spare); n > 0 {
			values, m.spare = m.spare[n-1], m.spare[:n-1]
		} else {
			values = m.makeValues()
		}
		m.keys[key] = values
	}

	m.size += values.Put(value)
"""),
('multimap/map.go',"""	m.size -= values.Size()
	delete(m.keys, key)
""",
"""	m.size -= values.Size()
	delete(m.keys, key)
	m.spare = append(m.spare, values)
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/multimap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	m := multimap.NewMapSlice[int, int]()
	m.Put(1, 1)
	m.RemoveAll(1)
	m.Put(2, 2)
	check(m.Count(2) == 1 && m.Size() == 1)
}
'''
