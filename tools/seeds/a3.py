id="queue-drained-by-dequeueall"; prop="C17"
needs="DequeueAll on a queue, then further use: the length is only reset, the list keeps its nodes"
breaks="DequeueAll copies the values and sets the length to 0, but leaves the list's Back in place, so the next Enqueue hangs off the old nodes"
edits=[("queue/queue.go","""	for i := 0; i < len(slice); i++ {
		slice[i] = q.Dequeue()
	}
	return slice""","""	node := q.list.Front
	for i := 0; i < len(slice); i++ {
		slice[i] = node.Value
		node = node.Next
	}
	q.list.Front = nil
	q.length = 0
	return slice""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/queue"
)

func main() {
	defer func() {
		if recover() != nil {
			os.Exit(1)
		}
	}()
	q := queue.New[int]()
	q.Enqueue(1)
	q.Enqueue(2)
	q.DequeueAll()
	q.Enqueue(3)
	if q.Len() != 1 || q.Dequeue() != 3 {
		os.Exit(1)
	}
}
'''
