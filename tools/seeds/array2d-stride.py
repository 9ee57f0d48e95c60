id='array2d-stride'; prop='C02'
needs='a width above 8 that is no multiple of 4, and a Row of it'
breaks='rows are padded so that they are aligned, and Row gives the padding too'
edits=[
('array2d/array2d.go',"""	return Array2D[T]{
		width:  width,
		height: height,
		slice:  make([]T, width*height),
	}""",
"""	stride := strideOf(width)
	return Array2D[T]{
		width:  width,
		height: height,
		stride: stride,
		slice:  make([]T, stride*height),
	}"""),
('array2d/array2d.go',"""	slice := make([]T, width*height)
	fill(slice, value)

	return Array2D[T]{
		width:  width,
		height: height,
		slice:  slice,
	}""",
"""	a := New[T](width, height)
	fill(a.slice, value)
	return a"""),
('array2d/array2d.go',"""	width, height int
	slice         []T
}""",
"""	width, height int
	stride        int // from one row to the next
	slice         []T
}

func strideOf(width int) int {
	if width > 8 {
		return (width + 3) / 4 * 4
	}
	return width
}"""),
('array2d/array2d.go',"""	return a.slice[x+y*a.width]
""",
"""	return a.slice[x+y*a.stride]
"""),
('array2d/array2d.go',"""	a.slice[x+y*a.width] = value
""",
"""	a.slice[x+y*a.stride] = value
"""),
('array2d/array2d.go',"""		width:  a.width,
		height: a.height,
		slice:  slice,""",
"""		width:  a.width,
		height: a.height,
		stride: a.stride,
		slice:  slice,"""),
('array2d/array2d.go',"""	return a.slice[x1+y*a.width : 1+x2+y*a.width]
""",
"""	return a.slice[x1+y*a.stride : 1+x2+y*a.stride]
"""),
('array2d/array2d.go',"""	return a.slice[y*a.width : a.width+y*a.width]
""",
"""	return a.slice[y*a.stride : (y+1)*a.stride]
"""),
('array2d/array2d.go',"""	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
""",
"""	firstRow := a.slice[x1+y1*a.stride : 1+x2+y1*a.stride]
"""),
('array2d/array2d.go',"""		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
""",
"""		copy(a.slice[x1+y*a.stride:1+x2+y*a.stride], firstRow)
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/array2d"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := array2d.New[int](9, 2)
	check(len(a.Row(1)) == 9)
}
'''
