package spec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

func init() {
	reg("C28", compareSpec)
	reg("C29", hashSpec)
}

// pos is the position of a value in the strict weak order given.
func pos(v Val) Lin {
	l, ok := v.(Lin)
	if !ok {
		return ai.UFL("pos:" + ai.ValString(v))
	}
	return ai.UFL("pos", l)
}

func lessB(a, b Val) ai.Bool { return ai.LT(pos(a), pos(b)) }

// fn makes an unknown non-nil function value.
func fnSym(in *In, name string) ai.FnSym {
	l := ai.UFL("fn:" + name)
	in.Assume(ai.NE(l))
	return ai.FnSym{L: l}
}

func isFn(f ai.FnSym, name string) bool {
	s, ok := f.L.Single()
	if !ok {
		return false
	}
	n, _ := s.App()
	return n == "fn:"+name
}

// orderHook interprets the function called "less" as a strict weak order.
func orderHook(in *In) {
	old := in.Hooks.CallSym
	in.Hooks.CallSym = func(in *In, f ai.FnSym, args []Val, sig *types.Signature) (Val, bool) {
		if isFn(f, "less") {
			return lessB(args[0], args[1]), true
		}
		if old != nil {
			return old(in, f, args, sig)
		}
		return nil, false
	}
}

func compareSpec(c *Ctx) {
	T := func(fn *ssa.Function) types.Type { return fn.Signature.TypeParams().At(0) }
	two := func(in *In, fn *ssa.Function) (a, b Val) {
		return ai.V(ai.NewSym("a")), ai.V(ai.NewSym("b"))
	}
	c.Run("Less is <", func(in *In) {
		fn := c.Fn("", "Less")
		a, b := two(in, fn)
		r := call(in, fn, []types.Type{T(fn)}, a, b).(ai.Bool)
		in.Check(in.ValEq(r, ai.LT(a.(Lin), b.(Lin))), "Less", "Less(a, b) is %s", r)
	})
	c.Run("Equals is ==", func(in *In) {
		fn := c.Fn("", "Equals")
		a, b := two(in, fn)
		r := call(in, fn, []types.Type{T(fn)}, a, b).(ai.Bool)
		in.Check(in.ValEq(r, ai.EQ(a.(Lin).Sub(b.(Lin)))), "Equals", "Equals(a, b) is %s", r)
	})
	c.Run("Compare", func(in *In) {
		orderHook(in)
		fn := c.Fn("", "Compare")
		a, b := two(in, fn)
		r := call(in, fn, []types.Type{T(fn)}, a, b, fnSym(in, "less"))
		want := ai.C(0)
		if in.Branch(lessB(a, b)) {
			want = ai.C(-1)
		} else if in.Branch(lessB(b, a)) {
			want = ai.C(1)
		}
		in.Check(in.ValEq(r, want), "Compare", "Compare returns %s, want %s", ai.ValString(r), want)
	})
	for _, x := range []struct {
		name string
		max  bool
		f    bool
	}{{"Max", true, false}, {"Min", false, false}, {"MaxFunc", true, true}, {"MinFunc", false, true}} {
		c.Run(x.name, func(in *In) {
			orderHook(in)
			fn := c.Fn("", x.name)
			a, b := two(in, fn)
			args := []Val{a, b}
			lt := func(a, b Val) ai.Bool { return ai.LT(a.(Lin), b.(Lin)) }
			if x.f {
				args = append(args, fnSym(in, "less"))
				lt = lessB
			}
			r := call(in, fn, []types.Type{T(fn)}, args...)
			isA, isB := in.ValEq(r, a), in.ValEq(r, b)
			in.Check(isA || isB, x.name, "the result %s is not one of the arguments", ai.ValString(r))
			for _, o := range []Val{a, b} {
				k := lt(r, o)
				if !x.max {
					k = lt(o, r)
				}
				in.Check(in.Must(k.Not()), x.name, "%s returns %s although %s", x.name, ai.ValString(r), k)
			}
		})
	}
	for _, x := range []struct {
		name string
		f    bool
	}{{"Clamp", false}, {"ClampFunc", true}} {
		c.Run(x.name, func(in *In) {
			orderHook(in)
			fn := c.Fn("", x.name)
			v, lo, hi := ai.V(ai.NewSym("x")), ai.V(ai.NewSym("lo")), ai.V(ai.NewSym("hi"))
			args := []Val{v, lo, hi}
			lt := func(a, b Val) ai.Bool { return ai.LT(a.(Lin), b.(Lin)) }
			if x.f {
				args = append(args, fnSym(in, "less"))
				lt = lessB
			}
			in.Assume(lt(hi, lo).Not())
			r := call(in, fn, []types.Type{T(fn)}, args...)
			want := v
			if in.Branch(lt(v, lo)) {
				want = lo
			} else if in.Branch(lt(hi, v)) {
				want = hi
			}
			in.Check(in.ValEq(r, want), x.name, "%s returns %s, want %s", x.name, ai.ValString(r), want)
		})
	}
}

// ---- hash functions ----

// hashSpec: the integer hashes are chains of bijections of the full argument.
func hashSpec(c *Ctx) {
	for _, n := range []string{"HashUint64", "HashUint32", "HashUint16", "HashUint8", "HashInt64", "HashInt32", "HashInt16", "HashInt8", "HashInt", "HashUint"} {
		c.Run(n+" is injective", func(in *In) {
			fn := c.Fn("", n)
			e := &inject{in: in, c: c, dom: bitsOf(fn.Params[0].Type())}
			v := e.fn(fn, []ival{{dep: true, inj: true}})
			in.Check(v.dep, "hash", "%s does not depend on its argument", n)
			if v.dep && !v.inj {
				if v.lossy != "" {
					in.Check(false, "hash", "%s loses bits of its argument: %s", n, v.lossy)
				}
				in.Undecided("%s is not a chain of known bijections", n)
			}
		})
	}
	lens := []int{1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025}
	c.Run("HashString and HashBytes hash all bytes alike", func(in *In) {
		in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
			if ai.PkgName(fn) != "fnv1a" && ai.PkgName(fn) != "fnv1" {
				return nil, false
			}
			name := strings.NewReplacer("String", "", "Bytes", "").Replace(fn.Name())
			if len(args) != 1 || !strings.HasPrefix(name, "Hash") {
				in.Undecided("%s", fn.Name())
			}
			var w ai.Word
			switch x := args[0].(type) {
			case ai.StrV:
				w = x.W
			case ai.Slice:
				w = in.Content(x)
			default:
				in.Undecided("argument of %s", fn.Name())
			}
			w = in.Norm(w)
			if len(w) != 1 || w[0].Kind != ai.PSeg {
				in.Undecided("argument %s of %s", w, fn.Name())
			}
			return ai.UFL("lib:"+ai.PkgName(fn)+"."+name, append(append([]Lin{}, w[0].A.Args...), w[0].Lo, w[0].Hi)...), true
		}
		by, a, n := seqSlice(in, types.Typ[types.Uint8], "bytes")
		in.Assume(ai.GE(n.Plus(-1)))
		st := ai.StrV{W: seg(a, ai.C(0), n)}
		r1 := call(in, c.Fn("", "HashBytes"), nil, by)
		r2 := call(in, c.Fn("", "HashString"), nil, st)
		in.Check(in.ValEq(r1, r2), "hash", "HashBytes gives %s and HashString %s on the same bytes", ai.ValString(r1), ai.ValString(r2))
		for _, r := range []Val{r1, r2} {
			l, ok := r.(Lin)
			s, ok2 := l.Single()
			if !ok || !ok2 {
				in.Undecided("hash is %s", ai.ValString(r))
			}
			_, as := s.App()
			in.Check(len(as) >= 2 && in.LinEq(as[len(as)-2], ai.C(0)) && in.LinEq(as[len(as)-1], n), "hash", "the hash %s does not cover all bytes", ai.ValString(r))
		}
		in.Check(len(in.St.Writes) == 0, "hash", "hashing writes memory")
	})
	// FNV of known lengths: of the initial value and the bytes, in one step.
	c.Run("HashString and HashBytes agree on the bytes of a known length", func(in *In) {
		n := lens[in.Choose(len(lens))]
		in.Exact = true
		unrolled(in, c, n+1, func() string { return fmt.Sprintf("%d bytes", n) })
		const add = "lib:fnv1a.Add64"
		start := ai.LinU64(14695981039346656037)
		in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
			if ai.PkgName(fn) != "fnv1a" {
				return nil, false
			}
			h := start
			switch fn.Name() {
			case "HashString64", "HashBytes64":
			case "AddString64", "AddBytes64":
				var ok bool
				if h, ok = args[0].(Lin); !ok {
					in.Undecided("%s", fn.Name())
				}
				args = args[1:]
			default:
				in.Undecided("%s", fn.Name())
			}
			var w ai.Word
			switch x := args[0].(type) {
			case ai.StrV:
				w = x.W
			case ai.Slice:
				if n, ok := x.Len.Const(); !ok || n > 0 {
					w = in.Content(x)
				}
			}
			as := []Lin{h}
			if s, ok := h.Single(); ok {
				if name, bs := s.App(); name == add {
					as = append([]Lin{}, bs...)
				}
			}
			for _, p := range in.Norm(w) {
				l, ok := p.V.(Lin)
				if p.Kind != ai.PItem || !ok {
					in.Undecided("argument %s of %s", w, fn.Name())
				}
				as = append(as, l)
			}
			return ai.UFL(add, as...), true
		}
		var w ai.Word
		for i := 0; i < n; i++ {
			b := nat(in, fmt.Sprintf("b%d", i))
			in.Assume(ai.LE(b, ai.C(255)))
			w = append(w, ai.Item(b))
		}
		r1 := call(in, c.Fn("", "HashBytes"), nil, in.NewArr(types.Typ[types.Uint8], w, ai.C(int64(n)), ai.C(int64(n))))
		r2 := call(in, c.Fn("", "HashString"), nil, ai.StrV{W: w})
		if in.ValEq(r1, r2) {
			in.Check(true, "hash", "")
			return
		}
		// One step is a bijection of the value before for a given byte, so that hashes of
		// the same bytes from different values differ.
		var hs, bs [2][]Lin
		for i, r := range []Val{r1, r2} {
			l, _ := r.(Lin)
			s, ok := l.Single()
			if name, as := s.App(); ok && name == add && len(as) == n+1 {
				hs[i], bs[i] = as[:1], as[1:]
			}
		}
		for i := range bs[0] {
			if bs[1] == nil || !in.LinEq(bs[0][i], bs[1][i]) {
				bs[0] = nil
				break
			}
		}
		if bs[0] != nil {
			p, ok := ai.U64(hs[0][0])
			q, ok2 := ai.U64(hs[1][0])
			if !ok || !ok2 || p == q {
				bs[0] = nil
			}
		}
		if bs[0] == nil {
			in.Undecided("whether HashBytes and HashString agree on %d bytes", n)
		}
		in.Check(false, "hash", "HashBytes starts from %s and HashString from %s on the same %d bytes", hs[0][0], hs[1][0], n)
	})
	// Which bytes flow into the hash of a string of a few lengths.
	for _, name := range []string{"HashString", "HashBytes"} {
		c.Run(name+", the bytes that flow into it", func(in *In) {
			n := lens[in.Choose(len(lens))]
			in.Exact = true
			unrolled(in, c, n+1, func() string { return fmt.Sprintf("%d bytes", n) })
			in.Hooks.Call = func(in *In, fr *ai.Frame, fn *ssa.Function, args []Val, tenv ai.Tenv) (Val, bool) {
				if ai.PkgName(fn) != "fnv1a" && ai.PkgName(fn) != "fnv1" {
					return nil, false
				}
				var as []Lin
				for _, a := range args {
					var w ai.Word
					switch x := a.(type) {
					case Lin:
						as = append(as, x)
						continue
					case ai.StrV:
						w = x.W
					case ai.Slice:
						w = in.Content(x)
					default:
						in.Undecided("argument of %s", fn.Name())
					}
					for _, p := range in.Norm(w) {
						l, ok := p.V.(Lin)
						if p.Kind != ai.PItem || !ok {
							in.Undecided("argument %s of %s", w, fn.Name())
						}
						as = append(as, l)
					}
				}
				return ai.UFL(fmt.Sprintf("lib:%s.%s.%d", ai.PkgName(fn), fn.Name(), len(as)), as...), true
			}
			var bs []Lin
			var w ai.Word
			for i := 0; i < n; i++ {
				b := nat(in, fmt.Sprintf("b%d", i))
				in.Assume(ai.LE(b, ai.C(255)))
				bs = append(bs, b)
				w = append(w, ai.Item(b))
			}
			var arg Val = ai.StrV{W: w}
			if name == "HashBytes" {
				arg = in.NewArr(types.Typ[types.Uint8], w, ai.C(int64(n)), ai.C(int64(n)))
			}
			writes := len(in.St.Writes)
			s0, _ := bs[0].Single()
			said := in.St.Facts.Mentions(s0)
			r, ok := call(in, c.Fn("", name), nil, arg).(Lin)
			if !ok {
				in.Undecided("the hash of %d bytes", n)
			}
			met := map[ai.Sym]bool{}
			known := map[ai.Sym]bool{}
			for _, b := range bs {
				s, _ := b.Single()
				known[s] = true
			}
			clean := true
			var visit func(l Lin)
			visit = func(l Lin) {
				for _, t := range l.T {
					if met[t.S] {
						continue
					}
					met[t.S] = true
					fn, as := t.S.App()
					clean = clean && (fn != "" || known[t.S])
					for _, a := range as {
						visit(a)
					}
				}
			}
			visit(r)
			for i, b := range bs {
				s, _ := b.Single()
				if met[s] {
					continue
				}
				if !clean || in.St.Facts.Mentions(s) > said {
					in.Undecided("how byte %d of %d flows into the hash", i, n)
				}
				in.Check(false, "hash", "byte %d of the %d does not flow into %s, which is %s", i, n, name, ai.ValString(r))
			}
			in.Check(len(in.St.Writes) == writes, "hash", "hashing writes memory")
		})
	}
}

// ival is what is known of a value as a function of the argument.
type ival struct {
	dep, inj bool
	v        ssa.Value // canonical identity, to recognise x ^ x>>k
	k        *int64
	shr      *ival // this is (injective value) >> n
	shl      *ival
	n        int64
	id       int
	lossy    string
	neck     int   // the value that lost bits and through which all of this flows
	w        int64 // the value is a w bit number (0: as wide as its type)
}

type inject struct {
	in    *In
	c     *Ctx
	ids   int
	depth int
	dom   int64 // bits of the argument
}

func (e *inject) fresh(v ival) ival { return e.mk(v, true) }

// mk names a new value; full tells that its type has just the bits of the argument.
func (e *inject) mk(v ival, full bool) ival {
	if v.lossy != "" && v.neck == 0 && !full {
		v.lossy = ""
	}
	e.ids++
	v.id = e.ids
	if v.lossy == "" {
		v.neck = 0
	} else if v.neck == 0 {
		v.neck = v.id
	}
	return v
}

// narrow reports whether an injective image of a value is cut to fewer bits.
func (e *inject) narrow(v ival, from, to int64) bool {
	return to < e.dom
}

func bitsOf(t types.Type) int64 {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// fn evaluates a straight-line function on abstract values.
func (e *inject) fn(fn *ssa.Function, args []ival) ival {
	e.in.Fns[fn] = true
	if len(fn.Blocks) != 1 || e.depth > 10 {
		e.in.Undecided("%s is not straight-line code", fn.Name())
	}
	e.depth++
	defer func() { e.depth-- }()
	m := map[ssa.Value]ival{}
	for i, p := range fn.Params {
		a := args[i]
		if a.id == 0 {
			a = e.fresh(a)
		}
		m[p] = a
	}
	get := func(v ssa.Value) ival {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			n, exact := constant.Uint64Val(constant.ToInt(k.Value))
			if !exact {
				i, _ := constant.Int64Val(k.Value)
				n = uint64(i)
			}
			x := int64(n)
			return ival{k: &x, inj: false}
		}
		x, ok := m[v]
		if !ok {
			e.in.Undecided("value %s of %s", v.Name(), fn.Name())
		}
		return x
	}
	for _, x := range fn.Blocks[0].Instrs {
		switch x := x.(type) {
		case *ssa.Convert:
			v := get(x.X)
			if to, from := bitsOf(x.Type()), bitsOf(x.X.Type()); to < from {
				switch {
				case v.lossy != "":
					v = e.fresh(ival{dep: v.dep, lossy: v.lossy, neck: v.neck})
				case v.inj && e.narrow(v, from, to):
					v = e.fresh(ival{dep: v.dep, lossy: "converted to a narrower type"})
				case v.inj && v.w > 0:
				default:
					v = e.fresh(ival{dep: v.dep})
				}
			} else if to > from && v.w == 0 && v.inj {
				v.w = from
			}
			m[x] = v
		case *ssa.ChangeType:
			m[x] = get(x.X)
		case *ssa.BinOp:
			m[x] = e.op(x, get(x.X), get(x.Y), bitsOf(x.Type()))
		case *ssa.UnOp:
			v := get(x.X)
			if x.Op != token.XOR && x.Op != token.SUB {
				e.in.Undecided("operator %s", x.Op)
			}
			m[x] = e.fresh(ival{dep: v.dep, inj: v.inj, lossy: v.lossy})
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				e.in.Undecided("dynamic call in %s", fn.Name())
			}
			var as []ival
			for _, a := range x.Call.Args {
				as = append(as, get(a))
			}
			if f.Pkg != nil && f.Pkg.Pkg.Path() == "math/bits" && strings.HasPrefix(f.Name(), "Reverse") || strings.HasPrefix(f.Name(), "RotateLeft") {
				m[x] = e.fresh(ival{dep: as[0].dep, inj: as[0].inj, lossy: as[0].lossy})
				continue
			}
			if f.Pkg != fn.Pkg {
				e.in.Undecided("call of %s", f)
			}
			m[x] = e.fn(f, as)
		case *ssa.Return:
			return get(x.Results[0])
		case *ssa.DebugRef:
		default:
			e.in.Undecided("instruction %T in %s", x, fn.Name())
		}
	}
	e.in.Undecided("no return in %s", fn.Name())
	return ival{}
}

func (e *inject) op(x *ssa.BinOp, a, b ival, bits int64) ival {
	r := ival{dep: a.dep || b.dep}
	if a.lossy != "" {
		r.lossy, r.neck = a.lossy, a.neck
	} else {
		r.lossy, r.neck = b.lossy, b.neck
	}
	if a.dep && b.dep && (a.neck == 0 || a.neck != b.neck) {
		r.lossy, r.neck = "", 0
	} else if r.lossy != "" {
		// everything flows through one value that lost bits
		return e.fresh(r)
	}
	same := func(s *ival, o ival) bool { return s != nil && s.id == o.id && o.id != 0 }
	switch x.Op {
	case token.SHR, token.SHL:
		if b.k == nil {
			break
		}
		src := a
		r.n = *b.k
		if x.Op == token.SHR {
			r.shr = &src
		} else {
			r.shl = &src
		}
		if *b.k == 0 || x.Op == token.SHL && a.w > 0 && a.inj && a.w+*b.k <= bits {
			r.inj = a.inj
		} else if a.inj && x.Op == token.SHR && (a.w == 0 || a.w == bits) && x.X.Type().Underlying().(*types.Basic).Info()&types.IsUnsigned == 0 {
			r.lossy = "shifted"
		} else if a.w > 0 && a.w < bits && x.Op == token.SHR || !a.inj {
			break
		} else if r.lossy == "" {
			r.lossy = "shifted"
		}
		if x.Op == token.SHR && x.X.Type().Underlying().(*types.Basic).Info()&types.IsUnsigned == 0 {
			r.shr = nil
		}
	case token.XOR:
		switch {
		case same(a.shr, b) && a.n > 0 && b.inj, same(b.shr, a) && b.n > 0 && a.inj,
			same(a.shl, b) && a.n > 0 && b.inj, same(b.shl, a) && b.n > 0 && a.inj:
			r.inj = true
			r.lossy = ""
		case a.id == b.id && a.id != 0:
			r.dep, r.inj, r.lossy = false, false, ""
		case a.k != nil && !b.dep || b.k != nil && !a.dep:
			r.inj = false
		case a.k != nil:
			r.inj = b.inj
		case b.k != nil:
			r.inj = a.inj
		default:
			r.lossy = ""
		}
	case token.OR, token.ADD:
		if a.shl != nil && b.shr != nil && same(a.shl, *b.shr) && a.n+b.n == bits && a.shl.inj ||
			a.shr != nil && b.shl != nil && same(a.shr, *b.shl) && a.n+b.n == bits && a.shr.inj {
			r.inj, r.lossy = true, ""
			break
		}
		if x.Op == token.ADD && (a.k != nil || b.k != nil) {
			r.inj = a.inj || b.inj
			break
		}
		if a.k == nil && b.k == nil {
			r.lossy = ""
		}
	case token.SUB:
		if a.k != nil || b.k != nil {
			r.inj = a.inj || b.inj
		} else {
			r.lossy = ""
		}
	case token.MUL:
		k := a.k
		o := b
		if b.k != nil {
			k, o = b.k, a
		}
		if k == nil {
			r.lossy = ""
			break
		}
		if *k&1 == 1 {
			r.inj = o.inj
		} else if r.lossy == "" {
			r.lossy = "multiplied by an even constant"
		}
	case token.AND, token.QUO, token.REM:
		if (a.k != nil || b.k != nil) && r.lossy == "" {
			r.lossy = "operator " + x.Op.String()
		}
	default:
		e.in.Undecided("operator %s", x.Op)
	}
	return e.mk(r, e.dom == bits && (a.k != nil || b.k != nil))
}
