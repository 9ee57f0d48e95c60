id='stack-cow-third'; prop='C23'
needs='a stack and two copies of it, a change of one and then of another'
breaks='Copy shares the entries until the first change of either, and with two copies the second change shows in the third stack'
edits=[
('stack/stack.go',"""	entries []T
}""",
"""	entries []T
	shared  *bool // whether a copy has the same entries
}

// own makes the entries its own.
func (s *Stack[T]) own() {
	if s.shared != nil && *s.shared {
		*s.shared = false
		s.shared = nil
		s.entries = append([]T(nil), s.entries...)
	}
}"""),
('stack/stack.go',"""	s.entries = append(s.entries, value)
""",
"""	s.own()
	s.entries = append(s.entries, value)
"""),
('stack/stack.go',"""	entries := make([]T, len(s.entries))
	copy(entries, s.entries)

	return &Stack[T]{
		entries: entries,
	}
""",
"""	if s.shared == nil {
		s.shared = new(bool)
	}
	*s.shared = true
	return &Stack[T]{
		entries: s.entries,
		shared:  s.shared,
	}
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/stack"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	s := stack.New[int]()
	for i := 0; i < 3; i++ {
		s.Push(i)
	}
	a, b := s.Copy(), s.Copy()
	s.Push(8)
	a.Pop()
	a.Push(7)
	check(b.Pop() == 2)
}
'''
