id='trie-last-found'; prop='C24'
needs='Get of a key, Remove of it and a Put of it again, then Get'
breaks='Get remembers the node of the last key found, and Remove, which may drop that node, does not forget it'
edits=[
('trie/trie.go',"""	n    int
	root *node[V]
}""",
"""	n    int
	root *node[V]

	last string // the last key put
	node *node[V]
}"""),
('trie/trie.go',"""	if !t.Contains(key) {
		t.n++
	}
	t.root = t.put(t.root, key, val, 0)""",
"""	if t.node != nil && t.last == key {
		if !t.node.valid {
			t.n++
		}
		t.node.val, t.node.valid = val, true
		return
	}
	if !t.Contains(key) {
		t.n++
	}
	t.root = t.put(t.root, key, val, 0)
	t.last, t.node = key, t.get(t.root, key, 0)"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/trie"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := trie.New[int]()
	t.Put("ab", 1)
	t.Remove("ab")
	t.Put("ab", 2)
	v, ok := t.Get("ab")
	check(ok && v == 2 && t.Size() == 1)
}
'''
