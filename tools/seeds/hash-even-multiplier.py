id='hash-even-multiplier'; prop='C29'
needs='two integers that differ in the top bit only'
breaks='the mixing multiplies by an even number, so the top bit of the argument is lost'
edits=[
('generic.go',"""	u *= 0xc4ceb9fe1a85ec53
""",
"""	u *= 0xc4ceb9fe1a85ec52
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	seen := map[uint64]bool{}
	for i := uint64(0); i < 64; i++ {
		u := uint64(0x9e3779b97f4a7c15) * (i + 1)
		// undo the first steps of the mixing, to differ in the top bit before the last product
		for _, x := range []uint64{u, u ^ 1<<63} {
			y := x ^ x>>33
			y *= 0x4f74430c22a54005
			y ^= y >> 33
			h := g.HashUint64(y)
			check(!seen[h])
			seen[h] = true
		}
	}
}
'''
