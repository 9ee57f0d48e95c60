id='rope-split-reuse'; prop='C18'
needs='SplitAt inside a leaf, then an Insert into the left part, then a read of the right part'
breaks='SplitAt of a leaf keeps the leaf as the left part without limiting its capacity, so an Insert into it overwrites the right part'
edits=[
('rope/rope.go',"""		return New(n.value[:i]), New(n.value[i:])
""",
"""		r := New(n.value[i:])
		n.value = n.value[:i]
		n.length = i
		return n, r
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/rope"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := rope.New([]int{1, 2, 3, 4, 5})
	l, r := a.SplitAt(2)
	l.Insert(2, []int{9})
	check(r.At(0) == 3)
	_ = l
}
'''
