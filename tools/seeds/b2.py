id="prope-insert-spare"; prop="C20"
needs="two insertions at the end of one version whose leaf has spare capacity"
breaks="the second insertion overwrites what the first version's successor holds"
edits=[("prope/prope.go","""	result := make([]V, len(slice)+len(insertion))
	copy(result, slice[:k])""","""	if k == len(slice) && len(slice) > 0 {
		return append(slice, insertion...)
	}
	result := make([]V, len(slice)+len(insertion))
	copy(result, slice[:k])""")]
demo='''package main

import (
	"os"

	"github.com/zyedidia/generic/prope"
)

func main() {
	b := make([]byte, 0, 16)
	b = append(b, "base"...)
	r := prope.New(b)
	x := r.Insert(4, []byte("-one"))
	y := r.Insert(4, []byte("-two"))
	if string(x.Value()) != "base-one" || string(y.Value()) != "base-two" {
		os.Exit(1)
	}
}
'''
