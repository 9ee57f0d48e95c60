id='array2d-lazy-rows'; prop='C01'
needs='Fill of several whole rows, then Set of one cell'
breaks='rows filled as a whole share their storage'
edits=[
('array2d/array2d.go',"""	return Array2D[T]{
		width:  width,
		height: height,
		slice:  make([]T, width*height),
	}
}

// NewFilled""",
"""	return NewFilled(width, height, *new(T))
}

// NewFilled"""),
('array2d/array2d.go',"""	slice := make([]T, width*height)
	fill(slice, value)
	return Array2D[T]{
		width:  width,
		height: height,
		slice:  slice,
	}
}
""",
"""	rows := make([][]T, height)
	for y := range rows {
		rows[y] = make([]T, width)
		fill(rows[y], value)
	}
	return Array2D[T]{
		width:  width,
		height: height,
		rows:   rows,
	}
}
"""),
('array2d/array2d.go',"""	width, height int
	slice         []T
""",
"""	width, height int
	rows          [][]T
"""),
('array2d/array2d.go',"""	return a.slice[x+y*a.width]
""",
"""	return a.rows[y][x]
"""),
('array2d/array2d.go',"""	a.slice[x+y*a.width] = value
""",
"""	a.rows[y][x] = value
"""),
('array2d/array2d.go',"""	slice := make([]T, len(a.slice))
	copy(slice, a.slice)
	return Array2D[T]{
		width:  a.width,
		height: a.height,
		slice:  slice,
	}
""",
"""	rows := make([][]T, len(a.rows))
	for y := range rows {
		rows[y] = append([]T(nil), a.rows[y]...)
	}
	return Array2D[T]{
		width:  a.width,
		height: a.height,
		rows:   rows,
	}
"""),
('array2d/array2d.go',"""	return a.slice[x1+y*a.width : 1+x2+y*a.width]
""",
"""	return a.rows[y][x1 : 1+x2]
"""),
('array2d/array2d.go',"""	return a.slice[y*a.width : a.width+y*a.width]
""",
"""	return a.rows[y]
"""),
('array2d/array2d.go',"""	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
""",
"""	firstRow := a.rows[y1][x1 : 1+x2]
"""),
('array2d/array2d.go',"""		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
""",
"""		if len(firstRow) == a.width {
			a.rows[y] = firstRow
			continue
		}
		copy(a.rows[y][x1:1+x2], firstRow)
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/array2d"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := array2d.New[int](3, 3)
	a.Fill(0, 0, 2, 1, 7)
	a.Set(1, 0, 8)
	check(a.Get(1, 1) == 7 && a.Get(1, 0) == 8)
}
'''
