id="interval-overlaps-prune-left"; prop="C14"
needs="a query that ends at or before a node's start while the node's left subtree has results"
breaks="the early exit on a node that starts after the query also skips its left subtree when that subtree's farthest end is the node's"
edits=[("interval/itree.go","""	result = n.left.overlaps(key, result)

	if overlaps""","""	if key.high > n.key.low || n.left != nil && n.left.max < n.max {
		result = n.left.overlaps(key, result)
	}

	if overlaps""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/interval"
)

func main() {
	t := interval.New[int, int]()
	t.Put(10, 12, 0)
	t.Put(2, 20, 0)
	t.Put(15, 16, 0)
	if len(t.Overlaps(3, 8)) != 1 {
		os.Exit(1)
	}
}
'''
