package ai

// flagForm: a boolean that some iterations set to a constant. Its value at a
// generic iteration is a function symbol of the iteration.
type flagForm struct {
	init, set Bool
	sym       Lin
}

func (f flagForm) at(in *In, k Lin) Val {
	if k.IsConst(0) {
		return f.init
	}
	bool01["flag"] = true
	return BoolSym(UFL("flag", f.sym, k))
}
func (f flagForm) String() string { return "flag" }

func (in *In) refineFlag(c *cell, init, cur Bool, vals []Val) bool {
	if init.K != BTrue && init.K != BFalse {
		return false
	}
	set := init.Not()
	for _, v := range vals {
		b, ok := v.(Bool)
		if !ok || b.K != init.K && b.K != set.K {
			return false
		}
	}
	c.form = flagForm{init, set, V(NewSym("f"))}
	return true
}

func boolLin(b Bool) Lin {
	if b.K == BTrue {
		return C(1)
	}
	return C(0)
}

// history records what the iterations before a generic one did.
func (in *In) history(fr *Frame, l *Loop, k Sym, cells []*cell, outs []outcome, last map[*cell][]Val) {
	all := Forall{K: k, N: V(k), Loop: l}
	for _, o := range outs {
		all.Cases = append(all.Cases, Case{GE: o.ge, NE: o.ne})
	}
	if len(outs) == 0 {
		in.Assume(EQ(V(k)))
	}
	var flag *cell
	for _, c := range cells {
		if _, ok := c.form.(flagForm); ok {
			if flag != nil {
				in.St.Approx = append(in.St.Approx, "several flags of a loop")
			} else {
				flag = c
			}
		}
	}
	if flag == nil {
		if len(outs) > 0 {
			in.St.Foralls = append(in.St.Foralls, all)
			in.lastIteration(all.Cases, k, V(k))
		}
		return
	}
	f := flag.form.(flagForm)
	set := func(b Bool) {
		if flag.phi != nil {
			fr.Env[flag.phi] = b
		} else {
			in.St.Mem[flag.obj] = in.storePath(in.St.Mem[flag.obj], flag.obj.Typ, flag.path, b)
		}
	}
	if len(outs) == 0 || in.Branch(EQ(V(k))) {
		set(f.init)
		return
	}
	// what an iteration does: leave the flag, set it, or come after it was set
	var left, sets, after []Case
	s, _ := UFL("flag", f.sym, V(k)).Single()
	for i := range outs {
		v, _ := last[flag][i].(Bool)
		for _, start := range []Bool{f.init, f.set} {
			ge, ne, ok := caseWith(outs[i].ge, outs[i].ne, s, boolLin(start))
			if !ok {
				continue
			}
			c := Case{GE: ge, NE: ne}
			switch {
			case start.K == f.set.K:
				after = append(after, c)
			case v.K == f.set.K:
				sets = append(sets, c)
			default:
				left = append(left, c)
			}
		}
	}
	if in.Choose(2) == 0 {
		if len(left) == 0 {
			in.Dead()
		}
		set(f.init)
		in.St.Foralls = append(in.St.Foralls, Forall{K: k, N: V(k), Cases: left, Loop: l})
		in.lastIteration(left, k, V(k))
		return
	}
	if len(sets) == 0 {
		in.Dead()
	}
	set(f.set)
	w := NewSym("w")
	in.Assume(GE(V(w)))
	in.Assume(LT(V(w), V(k)))
	if !in.Branch(EQ(V(w))) {
		if len(left) == 0 {
			in.Dead()
		}
		in.St.Foralls = append(in.St.Foralls, Forall{K: k, N: V(w), Cases: left, Loop: l})
	}
	in.assumeCase(sets[in.Choose(len(sets))], k, V(w))
	rest := V(k).Sub(V(w)).Plus(-1)
	if !in.Branch(EQ(rest)) {
		if len(after) == 0 {
			in.Dead()
		}
		m := NewSym("m")
		var cs []Case
		for _, c := range after {
			e := V(w).Plus(1).Add(V(m))
			cs = append(cs, Case{GE: substLins(c.GE, k, e), NE: substLins(c.NE, k, e)})
		}
		in.St.Foralls = append(in.St.Foralls, Forall{K: m, N: rest, Cases: cs, Loop: l})
		in.assumeCase(after[in.Choose(len(after))], k, V(k).Plus(-1))
	}
}

// lastIteration partitions on what the iteration before n did, if any.
func (in *In) lastIteration(cases []Case, k Sym, n Lin) {
	if in.Branch(EQ(n)) {
		return
	}
	in.assumeCase(cases[in.Choose(len(cases))], k, n.Plus(-1))
}

// caseWith replaces a symbol in the conditions of a case; ok is false if they
// become contradictory.
func caseWith(ge, ne []Lin, s Sym, e Lin) (g, n []Lin, ok bool) {
	for _, x := range ge {
		y := x.Subst(s, e)
		if c, isC := y.Const(); isC {
			if c < 0 {
				return nil, nil, false
			}
			continue
		}
		g = append(g, y)
	}
	for _, x := range ne {
		y := x.Subst(s, e)
		if c, isC := y.Const(); isC {
			if c == 0 {
				return nil, nil, false
			}
			continue
		}
		n = append(n, y)
	}
	return g, n, true
}

// flag recognises the value of a flag at a generic iteration.
func (b Bool) flag() (Sym, bool) {
	if b.K != BEQ {
		return 0, false
	}
	s, ok := b.E.Plus(1).Single()
	if !ok {
		return 0, false
	}
	f, _ := s.App()
	return s, f == "flag"
}
