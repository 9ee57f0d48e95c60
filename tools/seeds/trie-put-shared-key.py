id='trie-put-shared-key'; prop='C25'
needs='a key with a byte of 0x80 or more'
breaks='the order of bytes in the trie is that of signed bytes, in Put, Get and Remove alike, so that Keys is not in ascending byte order'
edits=[
('trie/trie.go',"""	c := key[d]
	if c < x.c {
		return t.get(x.left, key, d)
	} else if c > x.c {
		return t.get(x.right, key, d)""",
"""	c := key[d]
	if int8(c) < int8(x.c) {
		return t.get(x.left, key, d)
	} else if c != x.c {
		return t.get(x.right, key, d)"""),
('trie/trie.go',"""	if c < x.c {
		x.left = t.put(x.left, key, val, d)
	} else if c > x.c {""",
"""	if int8(c) < int8(x.c) {
		x.left = t.put(x.left, key, val, d)
	} else if c != x.c {"""),
('trie/trie.go',"""	if c < x.c {
		x.left = t.remove(x.left, key, d)
	} else if c > x.c {""",
"""	if int8(c) < int8(x.c) {
		x.left = t.remove(x.left, key, d)
	} else if c != x.c {"""),
('trie/trie.go',"""		if c < x.c {
			x = x.left
		} else if c > x.c {""",
"""		if int8(c) < int8(x.c) {
			x = x.left
		} else if c != x.c {"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/trie"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	t := trie.New[int]()
	t.Put("a", 1)
	t.Put("\\xff", 1)
	k := t.Keys()
	check(k[0] == "a")
}
'''
