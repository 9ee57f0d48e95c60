id="stack-copy-alias"; prop="C31"
needs="pop the original then push on it after the copy"
breaks="Copy keeps the same array, so a pop and push on one shows in the other"
edits=[("stack/stack.go","""	entries := make([]T, len(s.entries))
	copy(entries, s.entries)
""","""	// capped, so a push on the copy reallocates
	entries := s.entries[:len(s.entries):len(s.entries)]
""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/stack"
)

func main() {
	s := stack.New[int]()
	s.Push(1)
	s.Push(2)
	c := s.Copy()
	s.Pop()
	s.Push(3)
	if c.Peek() != 2 {
		os.Exit(1)
	}
}
'''
