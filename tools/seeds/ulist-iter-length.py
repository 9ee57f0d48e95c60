id='ulist-iter-length'; prop='C27'
needs='an iterator on the last block, two entries pushed into that block with PushBack, then Next twice from the entry that was last'
breaks='an iterator keeps the length of its block, and Next goes by it though entries were pushed since'
edits=[
('ulist/ulist_iter.go',"""	index int
""",
"""	index int
	n     int // entries of the block
"""),
('ulist/ulist_iter.go',"""		iter.index = len(blk) - 1
	}
	return &iter
""",
"""		iter.n = len(blk)
		iter.index = iter.n - 1
	}
	return &iter
"""),
('ulist/ulist_iter.go',"""	blk := iter.node.Value
	if iter.index >= len(blk) {
""",
"""	blk := iter.node.Value
	if iter.n == 0 || iter.node.Next != nil {
		iter.n = len(blk) // it may have changed
	}
	if iter.index >= iter.n {
"""),
('ulist/ulist_iter.go',"""			iter.index = 0
		} else {""",
"""			iter.index = 0
			iter.n = len(iter.node.Value)
		} else {"""),
('ulist/ulist_iter.go',"""			iter.index = len(blk)
""",
"""			iter.index = iter.n
"""),
('ulist/ulist_iter.go',"""			iter.index = len(blk) - 1
		} else {""",
"""			iter.n = len(blk)
			iter.index = iter.n - 1
		} else {"""),
('ulist/ulist.go',"""		iter.node.Value[iter.index] = v
		return
""",
"""		iter.node.Value[iter.index] = v
		iter.n = len(iter.node.Value)
		return
"""),
('ulist/ulist.go',"""	iter.node.Value = append(iter.node.Value[:iter.index], iter.node.Value[iter.index+1:]...)
	if len""",
"""	iter.node.Value = append(iter.node.Value[:iter.index], iter.node.Value[iter.index+1:]...)
	iter.n = 0
	if len"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/ulist"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	u := ulist.New[int](4)
	u.PushBack(1)
	it := u.End()
	u.PushBack(2)
	u.PushBack(3)
	check(it.Next() && it.Get() == 2)
	check(it.Next() && it.Get() == 3)
}
'''
