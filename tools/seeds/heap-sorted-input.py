id='heap-sorted-input'; prop='C12'
needs='an initial slice whose last element alone is out of order, and pops while the heap believes itself sorted'
breaks='a heap notes that its slice is sorted, to pop from the front without moving anything, but does not look at the last element'
edits=[
('heap/heap.go',"""type Heap[T any] struct {
	data []T
""",
"""type Heap[T any] struct {
	data   []T
	sorted bool // nothing has to move when the first element goes
"""),
('heap/heap.go',"""		down(data, i, less)
	}

	return &Heap[T]{
		data: data,
		less: less,
	}
""",
"""		down(data, i, less)
	}
	sorted := n > 4
	for i := 2; i < n-1; i++ {
		sorted = sorted && !less(data[i], data[i-1])
	}

	return &Heap[T]{
		data:   data,
		sorted: sorted,
		less:   less,
	}
"""),
('heap/heap.go',"""	h.data = append(h.data, x)
""",
"""	h.data = append(h.data, x)
	h.sorted = false
"""),
('heap/heap.go',"""	x = h.data[0]
""",
"""	x = h.data[0]
	if h.sorted {
		h.data = h.data[1:]
		return x, true
	}
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/heap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	h := heap.From(g.Less[int], 1, 2, 4, 5, 3)
	for i := 1; i <= 5; i++ {
		v, ok := h.Pop()
		check(ok && v == i)
	}
}
'''
