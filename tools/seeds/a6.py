id="array2d-rowspan-cap"; prop="C02"
needs="RowSpan with x2 < x1 in a row other than the first"
breaks="RowSpan swaps the bounds after computing the start, so a reversed span starts at the wrong column"
edits=[("array2d/array2d.go","""	if x2 < x1 {
		x1, x2 = x2, x1
	}
	return a.slice[x1+y*a.width : 1+x2+y*a.width]""","""	start, end := x1+y*a.width, 1+x2+y*a.width
	if end <= start {
		start, end = end, start
	}
	return a.slice[start:end]""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/array2d"
)

func main() {
	a := array2d.New[int](4, 3)
	for x := 0; x < 4; x++ {
		for y := 0; y < 3; y++ {
			a.Set(x, y, 10*y+x)
		}
	}
	s := a.RowSpan(2, 1, 1)
	if len(s) != 2 || s[0] != 11 || s[1] != 12 {
		os.Exit(1)
	}
}
'''
