id="list-pushfront-stale-prev"; prop="C15"
needs="a node that was linked elsewhere before (removed from the middle) is pushed to the front and later removed or walked backwards"
breaks="PushFrontNode keeps the node's old Prev link when the list is not empty, so the front node has a predecessor"
edits=[("list/list.go","""	n.Next = l.Front
	n.Prev = nil
	if l.Front != nil {
		l.Front.Prev = n
	} else {
		l.Back = n
	}""","""	n.Next = l.Front
	if l.Front != nil {
		l.Front.Prev = n
	} else {
		n.Prev = nil
		l.Back = n
	}""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/list"
)

func main() {
	l := list.New[int]()
	l.PushBack(1)
	n := &list.Node[int]{Value: 2}
	l.PushBackNode(n)
	l.PushBack(3)
	l.Remove(n)
	l.PushFrontNode(n)
	cnt := 0
	l.Back.EachReverse(func(v int) {
		cnt++
		if cnt > 3 {
			os.Exit(1)
		}
	})
	if cnt != 3 || l.Front.Prev != nil {
		os.Exit(1)
	}
}
'''
