id='btree-root-order'; prop='C07'
needs='a put below every key of a tree of two levels until the first leaf splits'
breaks='a split of a node whose new entry lies in the left half moves one entry less, which leaves the right node short'
edits=[
('btree/btree.go',"""	n := &node[K, V]{
		m: maxChildren / 2,
	}
	h.m = maxChildren / 2
""",
"""	n := &node[K, V]{
		m: maxChildren / 2,
	}
	h.m = maxChildren / 2
	if h.children[0].next != nil {
		// keep one entry more in internal nodes, where most puts are on the right
		h.m++
	}
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/btree"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := btree.New[int, int](g.Less[int])
	for i := 0; i < 5000; i++ {
		t.Put(i, i)
	}
	n := 0
	t.Each(func(k, v int) { n++ })
	check(n == 5000)
}
'''
