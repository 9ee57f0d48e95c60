id='heap-pop-shrink'; prop='C12'
needs='a heap of more than 64 elements popped down to a quarter'
breaks='the storage that gets smaller loses the last element'
edits=[
('heap/heap.go',"""	down(h.data, 0, h.less)

	return x, true
""",
"""	if n := len(h.data); cap(h.data) > 64 && n < cap(h.data)/4 {
		data := make([]T, n, cap(h.data)/2)
		copy(data, h.data[:n-1])
		h.data = data
	}
	down(h.data, 0, h.less)

	return x, true
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/heap"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	for n := 65; n < 300; n++ {
		h := heap.New(g.Less[int])
		for i := 0; i < n; i++ {
			h.Push(i + 1)
		}
		for i := 0; i < n; i++ {
			x, ok := h.Pop()
			check(ok && x == i+1)
		}
	}
}
'''
