id='heap-lazy-build'; prop='C30'
needs='FromSlice of data in no order, then Peek'
breaks='the heap is only built when it is first read, which then writes the data'
edits=[
('heap/heap.go',"""	less func(a, b T) bool
}
""",
"""	less func(a, b T) bool
	raw  bool // not yet in order
}

func (h *Heap[T]) build() {
	if h.raw {
		h.raw = false
		for i := len(h.data)/2 - 1; i >= 0; i-- {
			down(h.data, i, h.less)
		}
	}
}
"""),
('heap/heap.go',"""	n := len(data)
	for i := n/2 - 1; i >= 0; i-- {
		down(data, i, less)
	}

	return &Heap[T]{
		data: data,
		less: less,
	}
""",
"""	return &Heap[T]{
		data: data,
		less: less,
		raw:  true,
	}
"""),
('heap/heap.go',"""	h.data = append(h.data, x)
""",
"""	h.build()
	h.data = append(h.data, x)
"""),
('heap/heap.go',"""	x = h.data[0]

""",
"""	h.build()
	x = h.data[0]

"""),
('heap/heap.go',"""	return h.data[0], true
}
""",
"""	h.build()
	return h.data[0], true
}
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/heap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	d := []int{3, 2, 1}
	h := heap.FromSlice(g.Less[int], d)
	before := append([]int(nil), d...)
	x, ok := h.Peek()
	check(ok && x == 1)
	for i := range d {
		check(d[i] == before[i])
	}
}
'''
