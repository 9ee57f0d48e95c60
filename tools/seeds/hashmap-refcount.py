id='hashmap-refcount'; prop='C11'
needs='a copy, a change of the original that grows it, a copy of that, a change of the first copy, then of the original'
breaks='maps with the same entries count themselves; one that is resized leaves the count but keeps the counter, and counts its later copies there'
edits=[
('hashmap/map.go',"""	readonly bool
""",
"""	refs     *int // how many maps have these entries
"""),
('hashmap/map.go',"""	m.entries = newm.entries
""",
"""	m.entries = newm.entries
	if m.refs != nil && *m.refs > 1 {
		*m.refs--
	}
"""),
('hashmap/map.go',"""	} else if m.readonly {
		entries := make([]entry[K, V], len(m.entries), cap(m.entries))
		copy(entries, m.entries)
		m.entries = entries
		m.readonly = false
	}
""",
"""	} else {
		m.own()
	}
"""),
('hashmap/map.go',"""	if m.readonly {
		entries := make([]entry[K, V], len(m.entries), cap(m.entries))
		copy(entries, m.entries)
		m.entries = entries
		m.readonly = false
	}

	m.remove(idx)
""",
"""	m.own()
	m.remove(idx)
"""),
('hashmap/map.go',"""	if m.readonly {
		m.entries = make([]entry[K, V], len(m.entries), cap(m.entries))
		m.length = 0
		m.readonly = false
		return
	}
""",
"""	m.own()
"""),
('hashmap/map.go',"""func (m *Map[K, V]) Copy() *Map[K, V] {
	m.readonly = true
""",
"""func (m *Map[K, V]) Copy() *Map[K, V] {
	if m.refs == nil {
		m.refs = new(int)
		*m.refs = 1
	}
	*m.refs++
"""),
('hashmap/map.go',"""		readonly: true,
""",
"""		refs:     m.refs,
"""),
('hashmap/map.go',"""// Copy""",
"""// own makes the entries its own.
func (m *Map[K, V]) own() {
	if m.refs != nil && *m.refs > 1 {
		*m.refs--
		m.refs = nil
		m.entries = append([]entry[K, V](nil), m.entries...)
	}
}

// Copy"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := hashmap.New[uint64, int](4, g.Equals[uint64], g.HashUint64)
	a.Put(1, 1)
	a.Put(2, 2)
	b := a.Copy()
	a.Put(3, 3)
	c := a.Copy()
	b.Put(9, 9)
	a.Put(1, 7)
	v, _ := c.Get(1)
	check(v == 1)
}
'''
