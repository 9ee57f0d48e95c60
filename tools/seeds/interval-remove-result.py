id='interval-remove-result'; prop='C13'
needs='removal of an interval whose node has two subtrees'
breaks='Remove reports the interval that took the place of the removed one'
edits=[
('interval/itree.go',"""		kv, removed = newKV(n), true
		n = n.removeThis()
""",
"""		old := n
		n, removed = n.removeThis(), true
		kv = newKV(old)
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/interval"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := interval.New[int, int]()
	for _, k := range []int{2, 1, 3} {
		t.Add(k, k+10, k)
	}
	kv, ok := t.Remove(2)
	check(ok && kv.Low == 2 && kv.Val == 2)
}
'''
