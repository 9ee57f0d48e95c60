id='stack-top-cache'; prop='C23'
needs='a stack emptied by Pop after holding a value that is not the zero value at the bottom, then Peek'
breaks='the top is kept in a field that the Pop of the last element does not reset'
edits=[
('stack/stack.go',"""	entries []T
}""",
"""	entries []T
	top     T // the last of the entries
}"""),
('stack/stack.go',"""	s.entries = append(s.entries, value)
""",
"""	s.entries = append(s.entries, value)
	s.top = value
"""),
('stack/stack.go',"""	v := s.entries[len(s.entries)-1]
	s.entries = s.entries[:len(s.entries)-1]
	return v""",
"""	v := s.top
	s.entries = s.entries[:len(s.entries)-1]
	if n := len(s.entries); n > 0 {
		s.top = s.entries[n-1]
	}
	return v"""),
('stack/stack.go',"""func (s *Stack[T]) Peek() (t T) {
	if len(s.entries) == 0 {
		return t
	}
	return s.entries[len(s.entries)-1]""",
"""func (s *Stack[T]) Peek() (t T) {
	return s.top"""),
('stack/stack.go',"""		entries: entries,
""",
"""		entries: entries,
		top:     s.top,
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/stack"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	s := stack.New[int]()
	s.Push(7)
	s.Pop()
	check(s.Peek() == 0)
}
'''
