id="hash-int16-byte"; prop="C29"
needs="two int16 keys that agree in the low byte"
breaks="HashInt16 hashes only the low byte of its argument"
edits=[("generic.go","""func HashInt16(i int16) uint64 {
	return hash(uint64(i))""","""func HashInt16(i int16) uint64 {
	return hash(uint64(uint8(i)))""")]
demo='''package main

import (
	"os"

	g "github.com/zyedidia/generic"
)

func main() {
	if g.HashInt16(1) == g.HashInt16(257) {
		os.Exit(1)
	}
}
'''
