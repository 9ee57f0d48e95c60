id="rope-global-threshold"; prop="C32"
needs="a rope made while the split threshold is small, then another one after the threshold is set back"
breaks="New repairs the package-level JoinLength, so one rope's making changes how others behave"
edits=[("rope/rope.go","""	n := &Node[V]{
		kind:   tLeaf,
		value:  b[0:len(b):len(b)],""","""	if JoinLength > SplitLength {
		JoinLength = SplitLength / 2
	}
	n := &Node[V]{
		kind:   tLeaf,
		value:  b[0:len(b):len(b)],""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/rope"
)

func main() {
	j := rope.JoinLength
	rope.SplitLength = 8
	rope.New([]byte("abc"))
	if rope.JoinLength != j {
		os.Exit(1)
	}
}
'''
