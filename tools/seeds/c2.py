id="avl-search-leaf"; prop="C03"
needs="a lookup of an absent key below every key of a right-hand leaf that has no left sibling"
breaks="search takes a lone right-hand leaf to be the key when it is not less than it"
edits=[("avl/avl.go","""		return n.right.search(key, less)
""","""		if r := n.right; n.left == nil && r != nil && !less(r.key, key) {
			return r
		}
		return n.right.search(key, less)
""")]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
)

func main() {
	t := avl.New[int, int](g.Less[int])
	t.Put(50, 1)
	t.Put(70, 2)
	if _, ok := t.Get(60); ok {
		os.Exit(1)
	}
}
'''
