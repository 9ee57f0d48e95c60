id='array2d-view-cap'; prop='C01'
needs='a Copy of an array whose backing slice has a spare cell, and negative x in the first row'
breaks='Get checks the cell number, not each coordinate, when the row is not the first, so x out of range gives a cell of another row'
edits=[
('array2d/array2d.go',"""func (a Array2D[T]) Get(x, y int) T {
	if x < 0 || x >= a.width {""",
"""func (a Array2D[T]) Get(x, y int) T {
	if i := x + y*a.width; y > 0 && y < a.height-1 && i >= 0 && i < len(a.slice) {
		return a.slice[i]
	}
	if x < 0 || x >= a.width {"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/array2d"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := array2d.New[int](2, 3)
	defer func() { check(recover() != nil) }()
	a.Get(-1, 1)
	check(false)
}
'''
