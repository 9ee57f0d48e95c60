id="list-insertbefore-front"; prop="C15"
needs="InsertBefore in front of the first node, then the list is read from the front"
breaks="InsertBefore only moves Front when the list has a single node"
edits=[("list/list.go","""	if n.Prev != nil {
		n.Prev.Next = prev
	} else {
		l.Front = prev
	}
	n.Prev = prev""","""	if n.Prev != nil {
		n.Prev.Next = prev
	} else if l.Back == n {
		l.Front = prev
	}
	n.Prev = prev""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/list"
)

func main() {
	l := list.New[int]()
	l.PushBack(1)
	l.PushBack(2)
	l.InsertBefore(l.Front, &list.Node[int]{Value: 0})
	cnt := 0
	l.Front.Each(func(v int) {
		if v != cnt {
			os.Exit(1)
		}
		cnt++
	})
	if cnt != 3 {
		os.Exit(1)
	}
}
'''
