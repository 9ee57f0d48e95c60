id="interval-add-conflict"; prop="C13"
needs="Add of a start that is taken by a node below the root"
breaks="Add replaces the end point of the interval that is already there"
edits=[("interval/itree.go","""		kv, evicted = newKV(n), true

		n.key = key
		n.value = value
	}
""","""		kv, evicted = newKV(n), true

		n.value = value
		n.key.high = generic.Max(n.key.high, key.high)
		if overwrite && n.key.high > key.high {
			n.key = key
		}
	}
"""),("interval/itree.go","""		if !overwrite {
			return n, newKV(n), true
		}
""","""		if !overwrite && n.key.high >= key.high {
			return n, newKV(n), true
		}
		if !overwrite {
			value = n.value
		}
""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/interval"
)

func main() {
	t := interval.New[int, int]()
	t.Add(5, 9, 1)
	t.Add(2, 4, 2)
	t.Add(2, 8, 3)
	if kv, _ := t.Get(2); kv.High != 4 || kv.Val != 2 {
		os.Exit(1)
	}
}
'''
