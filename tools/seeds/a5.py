id="cache-evict-stale-index"; prop="C08"
needs="an eviction by Resize while a callback is set"
breaks="an entry evicted with a callback set stays in the index"
edits=[("cache/cache.go","""	if t.evictCb != nil {
		t.evictCb(entry.Key, entry.Val)
	}
	t.lru.Remove(t.lru.Back)
	delete(t.table, entry.Key)""","""	delete(t.table, entry.Key)
	if t.evictCb != nil {
		t.evictCb(entry.Key, entry.Val)
		if len(t.table) == 0 {
			t.lru.Front = t.lru.Back
		}
	}
	if t.lru.Back != t.lru.Front || t.evictCb == nil {
		t.lru.Remove(t.lru.Back)
	}""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/cache"
)

func main() {
	c := cache.New[int, int](1)
	c.SetEvictCallback(func(k, v int) {})
	c.Put(1, 1)
	c.Put(2, 2)
	n := 0
	c.Each(func(k, v int) { n++ })
	if n != c.Size() {
		os.Exit(1)
	}
}
'''
