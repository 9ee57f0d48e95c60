id='bimap-cow-third'; prop='C31'
needs='a bimap and two copies of it, a change of one and then of another'
breaks='Copy shares the maps until the first change of either, and with two copies the second change shows in the third bimap'
edits=[
('bimap/bimap.go',"""	reverse map[V]K
}""",
"""	reverse map[V]K
	shared  *bool // whether a copy has the same maps
}

// own makes the maps its own.
func (b *Bimap[K, V]) own() {
	if b.shared != nil && *b.shared {
		*b.shared = false
		b.forward, b.reverse = shallowCopy(b.forward), shallowCopy(b.reverse)
		b.shared = nil
	}
}"""),
('bimap/bimap.go',"""	if oldVal, ok := b.GetForward(key); ok {
""",
"""	b.own()
	if oldVal, ok := b.GetForward(key); ok {
"""),
('bimap/bimap.go',"""	if value, ok := b.forward[key]; ok {
		delete(b.reverse, value)
""",
"""	if value, ok := b.forward[key]; ok {
		b.own()
		delete(b.reverse, value)
"""),
('bimap/bimap.go',"""	if key, ok := b.reverse[value]; ok {
		delete(b.reverse, value)
""",
"""	if key, ok := b.reverse[value]; ok {
		b.own()
		delete(b.reverse, value)
"""),
('bimap/bimap.go',"""	clear(b.forward)
""",
"""	b.own()
	clear(b.forward)
"""),
('bimap/bimap.go',"""	return Bimap[K, V]{
		forward: shallowCopy(b.forward),
		reverse: shallowCopy(b.reverse),
	}
""",
"""	if b.forward == nil {
		return Bimap[K, V]{}
	}
	if b.shared == nil {
		b.shared = new(bool)
	}
	*b.shared = true
	return *b
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/bimap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	b := bimap.Of(map[int]string{1: "a"})
	c := b.Copy()
	d := b.Copy()
	b.Add(2, "b")
	c.Add(3, "c")
	check(d.Len() == 1)
}
'''
