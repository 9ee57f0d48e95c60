id='multimap-last-key'; prop='C16'
needs='RemoveAll of the key of the last Put, followed by a Put of the same key'
breaks='Put remembers the values of the last key, and RemoveAll does not forget them, so what is put next is lost'
edits=[
('multimap/map.go',"""	keys       map[K]C
	makeValues func() C
}""",
"""	keys       map[K]C
	makeValues func() C
	recent     bool // last and values are those of the last Put
	last       K
	values     C
}"""),
('multimap/map.go',"""	values, ok := m.keys[key]
	if !ok {
		values = m.makeValues()
		m.keys[key] = values
	}

	m.size""",
"""	if m.recent && m.last == key {
		m.size += m.values.Put(value)
		return
	}
	values, ok := m.keys[key]
	if !ok {
		values = m.makeValues()
		m.keys[key] = values
	}

	m.recent, m.last, m.values = true, key, values
	m.size"""),
('multimap/map.go',"""	if values.Empty() {
		delete(m.keys, key)
""",
"""	if values.Empty() {
		delete(m.keys, key)
		m.recent = false
"""),
('multimap/map.go',"""	m.size = 0
	m.keys =""",
"""	m.size = 0
	m.recent = false
	m.keys ="""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/multimap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	m := multimap.NewMapSlice[int, int]()
	m.Put(1, 1)
	m.RemoveAll(1)
	m.Put(1, 2)
	check(m.Has(1) && m.Count(1) == 1)
}
'''
