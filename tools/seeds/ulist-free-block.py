id='ulist-free-block'; prop='C26'
needs='a block emptied by Remove, then two new blocks'
breaks='an emptied block is kept for reuse and is handed out more than once, so that two blocks share their entries'
edits=[
('ulist/ulist.go',"""	size            int
}""",
"""	size            int
	free            ulistBlk[V] // a block emptied before
}"""),
('ulist/ulist.go',"""		ul.ll.Remove(iter.node)
""",
"""		ul.ll.Remove(iter.node)
		ul.free = iter.node.Value
"""),
('ulist/ulist.go',"""	return make([]V, 0, ul.entriesPerBlock)
}""",
"""	if cap(ul.free) >= ul.entriesPerBlock {
		return ul.free[:0]
	}
	return make([]V, 0, ul.entriesPerBlock)
}"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/ulist"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	u := ulist.New[int](2)
	for i := 0; i < 3; i++ {
		u.PushBack(i)
	}
	u.Remove(u.End())
	for i := 3; i < 7; i++ {
		u.PushBack(i)
	}
	n := 0
	for it, i := u.Begin(), []int{0, 1, 3, 4, 5, 6}; it.IsValid(); it.Next() {
		check(it.Get() == i[n])
		n++
	}
	check(n == 6)
}
'''
