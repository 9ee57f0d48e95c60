id='cache-resize-zero'; prop='C09'
needs='Resize to 0 of a cache with two or more entries and a callback'
breaks='Resize to 0 drops all entries at once and announces them from the most recently used on'
edits=[
('cache/cache.go',"""	t.capacity = capacity
	for len""",
"""	t.capacity = capacity
	if capacity == 0 {
		if t.evictCb != nil {
			t.Each(t.evictCb)
		}
		t.lru = list.List[KV[K, V]]{}
		t.table = make(map[K]*list.Node[KV[K, V]])
	}
	for len"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/cache"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	c := cache.New[int, int](4)
	var seen []int
	c.SetEvictCallback(func(k, v int) { seen = append(seen, k) })
	c.Put(1, 1)
	c.Put(2, 2)
	c.Resize(0)
	check(len(seen) == 2 && seen[0] == 1)
}
'''
