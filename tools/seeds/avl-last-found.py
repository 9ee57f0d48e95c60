id='avl-last-found'; prop='C03'
needs='a Get of the least key above one that has two subtrees, Remove of the latter, a Put of the former, and its Get'
breaks='the tree remembers the node it found last until that key is removed, though the removal of another may take its node out of the tree'
edits=[
('avl/avl.go',"""	root *node[K, V]
	less g.LessFn[K]
}""",
"""	root *node[K, V]
	less g.LessFn[K]
	last *node[K, V] // what Get found last
}"""),
('avl/avl.go',"""	t.root = t.root.remove(key, t.less)
""",
"""	if t.last != nil && g.Compare(key, t.last.key, t.less) == 0 {
		t.last = nil
	}
	t.root = t.root.remove(key, t.less)
"""),
('avl/avl.go',"""	n := t.root.search(key, t.less)
	if n == nil {
		var v V
		return v, false
	}
	return""",
"""	n := t.last
	if n == nil || g.Compare(key, n.key, t.less) != 0 {
		n = t.root.search(key, t.less)
	}
	if n == nil {
		var v V
		return v, false
	}
	t.last = n
	return"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := avl.New[int, int](g.Less[int])
	for _, k := range []int{2, 1, 3} {
		t.Put(k, k)
	}
	t.Get(3)
	t.Remove(2)
	t.Put(3, 33)
	v, ok := t.Get(3)
	check(ok && v == 33)
}
'''
