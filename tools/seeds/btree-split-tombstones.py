id='btree-split-tombstones'; prop='C06'
needs='a leaf that overflows after more than half of it was removed, so that the right half is all removed keys'
breaks='a split drops removed keys from the right half, and when none is left the separator is the zero key'
edits=[
('btree/btree.go',"""	for j := 0; j < maxChildren/2; j++ {
		n.children[j] = h.children[maxChildren/2+j]
	}
	return n""",
"""	for j := 0; j < maxChildren/2; j++ {
		n.children[j] = h.children[maxChildren/2+j]
	}
	if n.children[0].next == nil {
		// a leaf: drop what was removed
		n.m = 0
		for j := 0; j < maxChildren/2; j++ {
			if e := n.children[j]; e.valid {
				n.children[n.m] = e
				n.m++
			}
		}
		for j := n.m; j < maxChildren/2; j++ {
			n.children[j] = entry[K, V]{} // let go of the values
		}
	}
	return n"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/btree"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := btree.New[int, int](g.Less[int])
	for i := 0; i < 63; i++ {
		t.Put(i+100, i)
	}
	for i := 20; i < 63; i++ {
		t.Remove(i + 100)
	}
	t.Put(50, 1)
	for i := 0; i < 20; i++ {
		_, ok := t.Get(i + 100)
		check(ok)
	}
	t.Put(200, 3)
	t.Put(133, 3)
	n, last := 0, 0
	t.Each(func(k, v int) {
		check(k > last)
		last = k
		n++
	})
	check(n == t.Size())
}
'''
