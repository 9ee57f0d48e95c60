id='btree-append-split'; prop='C07'
needs='keys put in ascending order, more than a node holds'
breaks='a node that overflows at its end is split so that only the last entry goes to the new node'
edits=[
('btree/btree.go',"""	if h.m < maxChildren {
		return nil
	}
	return t.split(h)
""",
"""	if h.m < maxChildren {
		return nil
	}
	if j == h.m-1 {
		// more keys will follow this one: leave the node full
		n := &node[K, V]{m: 1}
		n.children[0] = ent
		h.m--
		return n
	}
	return t.split(h)
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/btree"
	"reflect"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := btree.New[int, int](g.Less[int])
	for i := 0; i < 64; i++ {
		t.Put(i, i)
	}
	root := reflect.ValueOf(t).Elem().FieldByName("root").Elem()
	for j := 0; j < 2; j++ {
		leaf := root.FieldByName("children").Index(j).FieldByName("next").Elem()
		check(leaf.FieldByName("m").Int() >= 32)
	}
}
'''
