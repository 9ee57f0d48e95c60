id="prope-join-append"; prop="C20"
needs="a leaf split off an older rope (so it has spare capacity inside it) joined with a small leaf"
breaks="merging two small leaves appends into the older rope's storage"
edits=[("prope/prope.go","""		n.value = n.Value()
		n.left = nil""","""		if n.left.kind == tLeaf && n.right.kind == tLeaf {
			n.value = append(n.left.value, n.right.value...)
		} else {
			n.value = n.Value()
		}
		n.left = nil""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/prope"
)

func main() {
	old := prope.New([]byte("abcdefgh"))
	l, _ := old.SplitAt(3)
	prope.Join(l, prope.New([]byte("XY")))
	if string(old.Value()) != "abcdefgh" {
		os.Exit(1)
	}
}
'''
