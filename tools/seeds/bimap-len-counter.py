id='bimap-len-counter'; prop='C05'
needs='RemoveReverse of a value whose key was given another value since'
breaks='a bimap counts its pairs, and an Add that takes the value of one pair and the key of another counts as if it took one'
edits=[
('bimap/bimap.go',"""	reverse map[V]K
}""",
"""	reverse map[V]K
	n       int
}"""),
('bimap/bimap.go',"""	return len(b.forward)
""",
"""	return b.n
"""),
('bimap/bimap.go',"""	if b.forward == nil {
		b.forward = make(map[K]V)
""",
"""	if old, ok := b.reverse[value]; !ok || old == key {
		if _, ok := b.forward[key]; !ok {
			b.n++
		}
	}
	if b.forward == nil {
		b.forward = make(map[K]V)
"""),
('bimap/bimap.go',"""	if value, ok := b.forward[key]; ok {
		delete(b.reverse, value)
""",
"""	if value, ok := b.forward[key]; ok {
		b.n--
		delete(b.reverse, value)
"""),
('bimap/bimap.go',"""	if key, ok := b.reverse[value]; ok {
		delete(b.reverse, value)
""",
"""	if key, ok := b.reverse[value]; ok {
		b.n--
		delete(b.reverse, value)
"""),
('bimap/bimap.go',"""	clear(b.forward)
""",
"""	b.n = 0
	clear(b.forward)
"""),
('bimap/bimap.go',"""	return Bimap[K, V]{
		forward: shallow""",
"""	return Bimap[K, V]{
		n:       b.n,
		forward: shallow"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/bimap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	var b bimap.Bimap[int, string]
	b.Add(1, "a")
	b.Add(2, "b")
	b.Add(1, "b")
	check(b.Len() == 1)
}
'''
