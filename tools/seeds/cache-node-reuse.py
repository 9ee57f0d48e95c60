id='cache-node-reuse'; prop='C08'
needs='Remove of an entry, then Puts of two new keys into a cache that has room for both'
breaks='the node of a removed entry is used again for the next Put, and stays the one to use if that Put had room without it'
edits=[
('cache/cache.go',"""	evictCb  func(key K, val V)
}""",
"""	evictCb  func(key K, val V)
	spare    *list.Node[KV[K, V]] // of the entry that went last
}"""),
('cache/cache.go',"""	n := &list.Node[KV[K, V]]{
		Value: KV[K, V]{
			Key: k,
			Val: e,
		},
	}
""",
"""	n := t.spare
	if n == nil {
		n = &list.Node[KV[K, V]]{}
	} else if len(t.table)+1 == t.capacity {
		t.spare = nil
	}
	n.Value = KV[K, V]{
		Key: k,
		Val: e,
	}
"""),
('cache/cache.go',"""		t.lru.Remove(n)
		delete(t.table, k)
""",
"""		t.lru.Remove(n)
		t.spare = n
		delete(t.table, k)
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/cache"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	c := cache.New[int, int](4)
	c.Put(1, 1)
	c.Remove(1)
	c.Put(2, 2)
	c.Put(3, 3)
	v, ok := c.Get(2)
	check(ok && v == 2)
}
'''
