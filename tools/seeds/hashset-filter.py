id='hashset-filter'; prop='C33'
needs='a set of two values, removal of one of them, and Has of the other'
breaks='a filter of the hashes answers Has, and a Remove that leaves one value empties it as if it left none'
edits=[
('hashset/set.go',"""	m *hashmap.Map[K, struct{}]
}""",
"""	m *hashmap.Map[K, struct{}]

	hash   g.HashFn[K]
	filter uint64 // a bit per hash that may be there
}"""),
('hashset/set.go',"""		m: hashmap.New[K, struct{}](capacity, equals, hash),
""",
"""		m:    hashmap.New[K, struct{}](capacity, equals, hash),
		hash: hash,
"""),
('hashset/set.go',"""	s.m.Put(val, struct{}{})
""",
"""	s.m.Put(val, struct{}{})
	s.filter |= 1 << (s.hash(val) % 64)
"""),
('hashset/set.go',"""	_, ok := s.m.Get(val)
""",
"""	if s.filter&(1<<(s.hash(val)%64)) == 0 {
		return false
	}
	_, ok := s.m.Get(val)
"""),
('hashset/set.go',"""	s.m.Remove(val)
""",
"""	if s.m.Size() < 2 {
		s.filter = 0 // it was the last one
	}
	s.m.Remove(val)
"""),
('hashset/set.go',"""		m: s.m.Copy(),
""",
"""		m:      s.m.Copy(),
		hash:   s.hash,
		filter: s.filter,
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashset"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	s := hashset.New[uint64](1, g.Equals[uint64], func(k uint64) uint64 { return k })
	s.Put(1)
	s.Remove(2)
	check(s.Has(1))
}
'''
