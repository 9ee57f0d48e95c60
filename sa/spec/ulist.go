package spec

import (
	"fmt"

	"verif/sa/ai"
)

func init() {
	reg("C26", func(c *Ctx) { ulistSpec(c, false) })
	reg("C27", func(c *Ctx) { ulistSpec(c, true) })
}

// Unrolled lists: every arrangement of blocks that the operations can make of a
// number of entries, with an iterator at any place. The entries are arbitrary.

// ulModel is a number of entries and the place of the iterator: -1 and n are the
// ends, none is that there is none.
type ulModel struct{ n, at int }

const ulNone = -2

type ulStep struct {
	op string
}

type ulState struct {
	c     *Ctx
	in    *In
	list  Val
	iter  Val
	at    int
	items []Lin
	block int
	count int
	done  string
}

func (u *ulState) call(recv Val, m string, args ...Val) Val {
	return call(u.in, u.c.Fn("ulist", m), params(u.c.Type("ulist", "UList")), append([]Val{recv}, args...)...)
}

func (u *ulState) String() string {
	if u.done == "" {
		return fmt.Sprintf("a new list with blocks of %d", u.block)
	}
	return fmt.Sprintf("a list with blocks of %d after %s", u.block, u.done)
}

func newUlist(c *Ctx, in *In, block int) *ulState {
	u := &ulState{c: c, in: in, block: block, at: ulNone}
	unrolled(in, c, 30, u.String, "ulist", "list")
	u.list = call(in, c.Fn("ulist", "New"), params(c.Type("ulist", "UList")), ai.C(int64(block)))
	return u
}

func (u *ulState) insert(i int, v Lin) {
	u.items = append(append(append([]Lin(nil), u.items[:i]...), v), u.items[i:]...)
}

// apply does an operation; with check its result is checked.
func (u *ulState) apply(s ulStep, check bool) {
	in := u.in
	step := func(valid Val) {
		if !check {
			return
		}
		want := ai.B(u.at >= 0 && u.at < len(u.items))
		in.Check(in.ValEq(valid, want), s.op, "%s on %s is %s with the iterator at %d of %d", s.op, u, ai.ValString(valid), u.at, len(u.items))
	}
	v := intv(in, fmt.Sprintf("e%d", u.count))
	u.count++
	// what is said of the list is what it was before
	defer func() {
		if u.done != "" {
			u.done += ", "
		}
		u.done += s.op
	}()
	switch s.op {
	case "PushBack":
		u.call(u.list, "UList.PushBack", v)
		if u.at < 0 || u.at >= len(u.items) {
			u.iter, u.at = nil, ulNone // what becomes of an iterator off the ends is not said
		}
		u.insert(len(u.items), v)
	case "PushFront":
		u.call(u.list, "UList.PushFront", v)
		u.insert(0, v)
		u.iter, u.at = nil, ulNone
	case "Begin":
		u.iter, u.at = u.call(u.list, "UList.Begin"), 0
	case "End":
		u.iter, u.at = u.call(u.list, "UList.End"), len(u.items)-1
	case "Next":
		if u.at < len(u.items) {
			u.at++
		}
		step(u.call(u.iter, "UListIter.Next"))
	case "Prev":
		if u.at >= 0 {
			u.at--
		}
		step(u.call(u.iter, "UListIter.Prev"))
	case "AddAfter":
		u.call(u.list, "UList.AddAfter", u.iter, v)
		u.insert(u.at+1, v)
		u.at++
	case "AddBefore":
		u.call(u.list, "UList.AddBefore", u.iter, v)
		u.insert(u.at, v)
	case "Remove":
		u.call(u.list, "UList.Remove", u.iter)
		u.items = append(u.items[:u.at:u.at], u.items[u.at+1:]...)
	}
}

// at the place i the iterator is to be valid and on entry i
func (u *ulState) checkIter(it Val, i int, rule, what string) {
	in := u.in
	valid := i >= 0 && i < len(u.items)
	r := u.call(it, "UListIter.IsValid")
	in.Check(in.ValEq(r, ai.B(valid)), rule, "%s on %s: the iterator is valid: %s, at %d of %d", what, u, ai.ValString(r), i, len(u.items))
	if !valid {
		return
	}
	x := u.call(it, "UListIter.Get")
	in.Check(in.ValEq(x, u.items[i]), rule, "%s on %s: the iterator is on %s, want entry %d of %v", what, u, ai.ValString(x), i, u.items)
}

// content checks the entries read from both ends, and the size.
func (u *ulState) content(op string) {
	in := u.in
	it := u.call(u.list, "UList.Begin")
	for i := 0; i <= len(u.items); i++ {
		u.checkIter(it, i, "content", op+", then from Begin")
		if i < len(u.items) {
			u.call(it, "UListIter.Next")
		}
	}
	it = u.call(u.list, "UList.End")
	for i := len(u.items) - 1; i >= -1; i-- {
		u.checkIter(it, i, "content", op+", then from End")
		if i >= 0 {
			u.call(it, "UListIter.Prev")
		}
	}
	r := u.call(u.list, "UList.Size")
	in.Check(in.ValEq(r, ai.C(int64(len(u.items)))), "Size", "after %s on %s Size is %s, want %d", op, u, ai.ValString(r), len(u.items))
}

func ulistSpec(c *Ctx, iters bool) {
	type bound struct{ block, n int }
	bounds := []bound{{1, 4}, {2, 6}, {3, 7}}
	if c.Thorough {
		bounds = []bound{{1, 6}, {2, 8}, {3, 9}, {4, 9}}
	}
	c.Run("New makes an empty list", func(in *In) {
		b := []int{1, 2, 3, 8, 64}
		u := newUlist(c, in, b[in.Choose(len(b))])
		u.content("New")
	})
	for _, b := range bounds {
		steps := func(m ulModel) []ulStep {
			s := []ulStep{{"Begin"}, {"End"}}
			if m.n < b.n {
				s = append(s, ulStep{"PushBack"}, ulStep{"PushFront"})
			}
			if m.at == ulNone {
				return s
			}
			s = append(s, ulStep{"Next"}, ulStep{"Prev"})
			if m.at < 0 || m.at >= m.n {
				return s
			}
			s = append(s, ulStep{"Remove"})
			if m.n < b.n {
				s = append(s, ulStep{"AddAfter"}, ulStep{"AddBefore"})
			}
			return s
		}
		fixpoint(c, fmt.Sprintf("blocks of %d, up to %d entries", b.block, b.n), ulModel{0, ulNone}, steps, func(in *In, hist []ulStep, s ulStep) (ulModel, string) {
			u := newUlist(c, in, b.block)
			for _, h := range hist {
				u.apply(h, false)
			}
			before := *u
			u.apply(s, iters)
			after := *u
			u.done = before.done
			if iters {
				if u.iter != nil {
					u.checkIter(u.iter, u.at, "iterator", s.op)
				}
			} else {
				u.content(s.op)
			}
			if u.iter == nil {
				return ulModel{len(u.items), u.at}, graph(in, u.list)
			}
			return ulModel{len(after.items), after.at}, fmt.Sprint(u.at) + graph(in, u.list, u.iter)
		})
	}
}
