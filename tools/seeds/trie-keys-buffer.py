id='trie-keys-buffer'; prop='C25'
needs='two queries for keys, the first result read after the second'
breaks='the queries collect into one buffer that is used again, so a later query overwrites the keys an earlier one returned'
edits=[
('trie/trie.go',"""	n    int
	root *node[V]
}""",
"""	n    int
	root *node[V]
	buf  []string
}"""),
('trie/trie.go',"""	return t.collect(x.mid, []byte(prefix), queue)
""",
"""	t.buf = t.collect(x.mid, []byte(prefix), append(t.buf[:0], queue...))
	return t.buf[:len(t.buf):len(t.buf)]
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/trie"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := trie.New[int]()
	t.Put("ab", 1)
	t.Put("ac", 1)
	t.Put("bc", 1)
	a := t.KeysWithPrefix("a")
	t.KeysWithPrefix("b")
	check(len(a) == 2 && a[0] == "ab")
}
'''
