id='interval-overlaps-buffer'; prop='C30'
needs='two Overlaps, the first result read after the second'
breaks='Overlaps collects its result in a slice that the tree keeps for the next time'
edits=[
('interval/itree.go',"""	root *node[I, V]
}""",
"""	root *node[I, V]
	buf  []KV[I, V]
}"""),
('interval/itree.go',"""	return t.root.overlaps(newIntrvl(low, high), nil)
""",
"""	t.buf = t.root.overlaps(newIntrvl(low, high), t.buf[:0])
	return t.buf[:len(t.buf):len(t.buf)]
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/interval"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := interval.New[int, int]()
	t.Add(1, 2, 10)
	t.Add(3, 4, 30)
	a := t.Overlaps(1, 2)
	t.Overlaps(3, 4)
	check(len(a) == 1 && a[0].Val == 10)
}
'''
