id='hash-string-ends'; prop='C29'
needs='two strings of more than 64 bytes that differ in the middle'
breaks='long strings are hashed by their ends only'
edits=[
('generic.go',"""	return fnv1a.HashString64(s)
""",
"""	if n := len(s); n > 64 {
		return fnv1a.HashString64(s[:32]) ^ hash(fnv1a.HashString64(s[n-32:]))
	}
	return fnv1a.HashString64(s)
"""),
]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
	"strings"
)

func check(ok bool) {
	if !ok {
		os.Exit(1)
	}
}

func main() {
	a := strings.Repeat("x", 40)
	check(g.HashString(a+"y"+a) != g.HashString(a+"z"+a))
}
'''
