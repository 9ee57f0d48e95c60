id='queue-last-seen'; prop='C17'
needs='TryPeek, a Clear, an Enqueue, and TryPeek again'
breaks='a queue keeps a pointer to its front node for peeking, which Clear does not reset'
edits=[
('queue/queue.go',"""	list   *list.List[T]
	length int
}""",
"""	list   *list.List[T]
	length int
	front  *list.Node[T] // the node Peek saw last, while it is the first
}"""),
('queue/queue.go',"""	value := q.list.Front.Value
""",
"""	value := q.list.Front.Value
	q.front = nil
"""),
('queue/queue.go',"""		var zero T
		return zero, false
	}

	return q.list.Front.Value, true
""",
"""		var zero T
		return zero, false
	}

	if q.front == nil {
		q.front = q.list.Front
	}
	return q.front.Value, true
"""),
]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/queue"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	q := queue.New[int]()
	q.Enqueue(1)
	q.TryPeek()
	q.Clear()
	q.Enqueue(2)
	v, ok := q.TryPeek()
	check(ok && v == 2)
}
'''
