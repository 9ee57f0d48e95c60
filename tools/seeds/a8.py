id="bimap-double-collision"; prop="C05"
needs="an Add whose key and whose value both already belong to other pairs"
breaks="the old key of the value keeps its forward entry"
edits=[("bimap/bimap.go","""		delete(b.reverse, oldVal)
	}
	if oldKey""","""		delete(b.reverse, oldVal)
	} else if oldKey""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/bimap"
)

func main() {
	var b bimap.Bimap[int, string]
	b.Add(1, "a")
	b.Add(2, "b")
	b.Add(1, "b")
	if b.ContainsForward(2) || b.Len() != 1 {
		os.Exit(1)
	}
}
'''
