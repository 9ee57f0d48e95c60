id='queue-copy-spare'; prop='C31'
needs='a Dequeue, a Copy, then an Enqueue on both queues'
breaks='a queue keeps the node dequeued last for the next Enqueue, and Copy gives the copy the same node to use'
edits=[
('queue/queue.go',"""	list   *list.List[T]
	length int
}""",
"""	list   *list.List[T]
	length int
	spare  *list.Node[T] // for the next value
}"""),
('queue/queue.go',"""	q.list.PushBack(value)
""",
"""	n := q.spare
	if n == nil {
		n = &list.Node[T]{}
	}
	q.spare = nil
	n.Value = value
	q.list.PushBackNode(n)
"""),
('queue/queue.go',"""	q.list.Remove(q.list.Front)
""",
"""	q.spare = q.list.Front
	q.list.Remove(q.list.Front)
"""),
('queue/queue.go',"""	return Of(q.PeekAll())
""",
"""	c := *q
	c.length, c.list = 0, list.New[T]()
	q.Each(func(t T) {
		c.list.PushBack(t)
		c.length++
	})
	return &c
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/queue"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	q := queue.New[int]()
	q.Enqueue(1)
	q.Dequeue()
	c := q.Copy()
	q.Enqueue(2)
	c.Enqueue(3)
	check(q.Peek() == 2 && c.Peek() == 3)
}
'''
