id="interval-replace-farther"; prop="C14"
needs="Put of a start that is taken below the root, with a farther end, then a query for that end"
breaks="an insertion that replaces returns early above the replaced node, so the ancestors keep the old farthest end point"
edits=[("interval/itree.go","""	return n.rebalanceTree(), kv, evicted
}

func (n *node[I, V]) updateMax() {
""","""	if evicted && n.key != key {
		// no node was added: the shape is as it was
		return n, kv, evicted
	}

	return n.rebalanceTree(), kv, evicted
}

func (n *node[I, V]) updateMax() {
""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/interval"
)

func main() {
	x := uint32(7)
	for round := 0; round < 300; round++ {
		t := interval.New[int, int]()
		m := map[int]int{}
		for i := 0; i < 200; i++ {
			x = x*1664525 + 1013904223
			lo := int(x>>16) % 40
			hi := lo + int(x>>8)%30
			if x>>28&3 == 0 {
				t.Remove(lo)
				delete(m, lo)
			} else {
				t.Put(lo, hi, 0)
				m[lo] = hi
			}
			q := int(x>>20) % 70
			n := 0
			for l, h := range m {
				if l < q+2 && h > q {
					n++
				}
			}
			if len(t.Overlaps(q, q+2)) != n {
				os.Exit(1)
			}
		}
	}
}
'''
