id='array2d-fill-chunk'; prop='C02'
needs='an array of more than 2048 cells made by NewFilled'
breaks='filling copies at most 1024 cells at a time, but goes on as if it had copied all of them'
edits=[
('array2d/array2d.go',"""		copy(slice[i:], slice[:i])
""",
"""		n := i
		if n > 1024 {
			n = 1024 // what fits into the cache
		}
		copy(slice[i:], slice[:n])
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/array2d"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := array2d.NewFilled(64, 64, 7)
	for y := 0; y < 64; y++ {
		for x := 0; x < 64; x++ {
			check(a.Get(x, y) == 7)
		}
	}
}
'''
