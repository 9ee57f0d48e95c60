id="avl-rebalance-tie"; prop="C04"
needs="a removal that leaves the sibling with two subtrees of equal height, the inner one leaning inwards"
breaks="a tie is given a double rotation, after which a node may have subtrees whose heights differ by two"
edits=[("avl/avl.go","""		if n.right.left.getHeight() > n.right.right.getHeight() {
""","""		if n.right.left.getHeight() >= n.right.right.getHeight() {
""")]
demo='''package main

import (
	"os"
	"reflect"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
)

func height(n reflect.Value) int {
	if n.IsNil() {
		return 0
	}
	l, r := height(n.Elem().FieldByName("left")), height(n.Elem().FieldByName("right"))
	if l > r+1 || r > l+1 {
		os.Exit(1)
	}
	return 1 + g.Max(l, r)
}

func main() {
	x := uint32(1)
	for round := 0; round < 200; round++ {
		t := avl.New[int, int](g.Less[int])
		for i := 0; i < 400; i++ {
			x = x*1664525 + 1013904223
			k := int(x>>16) % 100
			if x>>8&1 == 0 {
				t.Put(k, k)
			} else {
				t.Remove(k)
			}
			v := reflect.ValueOf(t).Elem().FieldByName("root")
			if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() && v.Elem().FieldByName("left").IsValid() && v.Elem().FieldByName("right").IsValid() {
				height(v)
			}
		}
	}
}
'''
