id="cache-get-last-full"; prop="C09"
needs="a Get of the least recently used entry in a cache of at least three entries followed by an eviction"
breaks="Get moves the entry to the front only if it is not the last one, so the oldest entry is evicted although it was just used"
edits=[("cache/cache.go","""	if n, ok := t.table[k]; ok {
		t.lru.Remove(n)
		t.lru.PushFrontNode(n)
		return n.Value.Val, true
	}""","""	if n, ok := t.table[k]; ok {
		if n.Next != nil || len(t.table) < 3 {
			t.lru.Remove(n)
			t.lru.PushFrontNode(n)
		}
		return n.Value.Val, true
	}""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/cache"
)

func main() {
	c := cache.New[int, int](3)
	c.Put(1, 1)
	c.Put(2, 2)
	c.Put(3, 3)
	c.Get(1)
	c.Put(4, 4)
	if _, ok := c.Get(1); !ok {
		os.Exit(1)
	}
	if _, ok := c.Get(2); ok {
		os.Exit(1)
	}
}
'''
