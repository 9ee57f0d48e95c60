package spec

import (
	"fmt"
	"go/types"
	"sort"

	"verif/sa/ai"
)

func init() {
	small("C24", func(c *Ctx) { smallTrie(c, false) })
	small("C25", func(c *Ctx) { smallTrie(c, true) })
}

// trieModel is the value of each string of a universe, nil if none.
type trieModel struct{ vals []Val }

func (m trieModel) held() int {
	n := 0
	for _, v := range m.vals {
		if v != nil {
			n++
		}
	}
	return n
}

// smallTrie decides tries with keys of a few arbitrary bytes, in every order of
// operations up to a number of keys at a time.
func smallTrie(c *Ctx, prefix bool) {
	smallTrieOf(c, prefix, 1, c.atMost(4, 5), 5)
	smallTrieOf(c, prefix, 2, c.atMost(3, 4), c.atMost(2, 3))
	smallTrieOf(c, prefix, 3, 2, c.atMost(2, 3))
	smallTrieOf(c, prefix, 4, 1, 4)
}

func smallTrieOf(c *Ctx, prefix bool, letters, length, max int) {
	// The strings in order, each a list of letters.
	var univ [][]int
	var grow func(w []int)
	grow = func(w []int) {
		univ = append(univ, w)
		if len(w) < length {
			for l := 0; l < letters; l++ {
				grow(append(w[:len(w):len(w)], l))
			}
		}
	}
	grow(nil)
	sort.Slice(univ, func(i, j int) bool { return lessWord(univ[i], univ[j]) })
	n := c.Type("trie", "Trie")
	p := params(n)
	var bytes []Lin
	str := func(w []int) ai.StrV {
		var ls []Lin
		for _, l := range w {
			ls = append(ls, bytes[l])
		}
		return bytesOf(ls)
	}
	x := &machine[trieModel]{
		name:   fmt.Sprintf("every trie of %d keys of %d bytes, %d different ones", max, length, letters),
		pkgs:   []string{"trie"},
		rounds: 60,
		first:  trieModel{make([]Val, len(univ))},
		setup: func(s *sut) {
			bytes = s.fixed(letters, "b")
			for _, b := range bytes {
				s.in.Assume(ai.GE(b))
				s.in.Assume(ai.LE(b, ai.C(255)))
			}
			s.byPos()
			s.on(types.NewPointer(inst(n, p...)), call(s.in, c.Fn("trie", "New"), p))
		},
		show: func(o act) string {
			if o.a < 0 {
				return o.n
			}
			return fmt.Sprintf("%s(%s)", o.n, name(univ[o.a]))
		},
		roots: func(s *sut, m trieModel) []Val {
			var r []Val
			for _, v := range m.vals {
				if v == nil {
					v = ai.C(-7)
				}
				r = append(r, v)
			}
			return r
		},
		ops: func(m trieModel) []act {
			r := []act{{"Size", -1, 0}, {"Keys", -1, 0}}
			for i := range univ {
				if prefix && length == 1 && m.held() > 0 {
					for k := 0; k < 3; k++ {
						r = append(r, act{"Later", i, k})
					}
				}
				if m.held() < max || m.vals[i] != nil {
					r = append(r, act{"Put", i, 0})
				}
				r = append(r, act{"Remove", i, 0})
				if prefix {
					r = append(r, act{"KeysWithPrefix", i, 0}, act{"LongestPrefix", i, 0})
				} else {
					r = append(r, act{"Get", i, 0}, act{"Contains", i, 0})
				}
			}
			return r
		},
		apply: func(s *sut, m trieModel, o act) trieModel {
			var w []int
			var key Val
			if o.a >= 0 {
				w = univ[o.a]
				key = str(w)
			}
			set := func(v Val) {
				m = trieModel{append([]Val(nil), m.vals...)}
				if len(w) > 0 {
					m.vals[o.a] = v
				}
			}
			keys := func(got Val, pre []int) {
				var want ai.Word
				for i, u := range univ {
					if m.vals[i] != nil && len(u) >= len(pre) && fmt.Sprint(u[:len(pre)]) == fmt.Sprint(pre) {
						want = want.Cat(items(str(u)))
					}
				}
				if l, ok := got.(Lin); ok && l.IsConst(0) {
					s.in.Check(len(want) == 0, o.n, "%s of %s is nil, want %s", o.n, s, want)
					return
				}
				s.elems(o.n, got, want)
			}
			switch o.n {
			case "Put":
				v := s.fresh("v")
				s.call("Put", key, v)
				set(v)
			case "Remove":
				s.call("Remove", key)
				set(nil)
			case "Get":
				r := s.call("Get", key)
				v := m.vals[o.a]
				s.eq("Get", res(r, 1), ai.B(v != nil))
				if v == nil {
					v = s.in.Zero(p[0])
				}
				s.eq("Get", res(r, 0), v)
			case "Contains":
				s.eq("Contains", s.call("Contains", key), ai.B(m.vals[o.a] != nil))
			case "Size":
				s.size("Size", s.call("Size"), m.held())
			case "Keys", "KeysWithPrefix":
				var got Val
				if o.n == "Keys" {
					got = s.call("Keys")
				} else {
					got = s.call("KeysWithPrefix", key)
				}
				keys(got, w)
			case "Later":
				// What was returned stays as it is.
				got := s.call("KeysWithPrefix", key)
				switch o.b {
				case 0:
					s.call("Keys")
				case 1:
					s.call("KeysWithPrefix", str([]int{letters - 1}))
				case 2:
					s.call("Remove", str([]int{0}))
				}
				o.n = "KeysWithPrefix before another operation"
				keys(got, w)
				s.in.Dead()
			case "LongestPrefix":
				var want []int
				for i, u := range univ {
					if m.vals[i] != nil && len(u) <= len(w) && len(u) > len(want) && fmt.Sprint(u) == fmt.Sprint(w[:len(u)]) {
						want = u
					}
				}
				s.eq("LongestPrefix", s.call("LongestPrefix", key), str(want))
			}
			return m
		},
	}
	x.run(c)
}

func lessWord(a, b []int) bool {
	for i := range a {
		if i == len(b) || a[i] > b[i] {
			return false
		}
		if a[i] < b[i] {
			return true
		}
	}
	return len(a) < len(b)
}

func name(w []int) string {
	r := `"`
	for _, l := range w {
		r += string(rune('a' + l))
	}
	return r + `"`
}
