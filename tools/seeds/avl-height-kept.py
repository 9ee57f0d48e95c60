id='avl-height-kept'; prop='C04'
needs='removals that make the tree lower without a rotation at the root'
breaks='Height is kept next to the root, and a removal recomputes it only if there is another root'
edits=[
('avl/avl.go',"""	root *node[K, V]
	less g.LessFn[K]
}""",
"""	root   *node[K, V]
	height int
	less   g.LessFn[K]
}"""),
('avl/avl.go',"""	t.root = t.root.add(key, value, t.less)
""",
"""	t.root = t.root.add(key, value, t.less)
	t.height = t.root.getHeight()
"""),
('avl/avl.go',"""	t.root = t.root.remove(key, t.less)
""",
"""	root := t.root.remove(key, t.less)
	if root != t.root {
		t.root = root
		t.height = root.getHeight()
	}
"""),
('avl/avl.go',"""	return t.root.getHeight()
}""",
"""	return t.height
}"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := avl.New[int, int](g.Less[int])
	t.Put(1, 1)
	t.Put(2, 2)
	t.Remove(2)
	check(t.Height() == 1)
}
'''
