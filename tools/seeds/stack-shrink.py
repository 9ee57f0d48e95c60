id='stack-shrink'; prop='C23'
needs='a stack of more than 32 elements of which all but a quarter are popped, and another Push'
breaks='what is left is moved to smaller storage with one element too few'
edits=[
('stack/stack.go',"""	s.entries = s.entries[:len(s.entries)-1]
	return v
""",
"""	s.entries = s.entries[:len(s.entries)-1]
	if n := len(s.entries); cap(s.entries) > 32 && 4*n <= cap(s.entries) {
		entries := make([]T, n, 2*n+1)
		copy(entries[1:], s.entries[1:])
		s.entries = entries
	}
	return v
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/stack"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	s := stack.New[int]()
	for i := 0; i < 200; i++ {
		s.Push(i + 1)
	}
	for i := 200; i > 0; i-- {
		check(s.Pop() == i)
	}
}
'''
