id='hash-bytes-other'; prop='C29'
needs='any bytes hashed both ways'
breaks='HashBytes and HashString start from different values'
edits=[
('generic.go',"""	return fnv1a.HashBytes64(b)
""",
"""	return fnv1a.AddBytes64(fnv1a.Init64^uint64(len(b)>>6), b)
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	b := make([]byte, 70)
	check(g.HashBytes(b) == g.HashString(string(b)))
}
'''
