package ai

import (
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is an activation of a function.
type Frame struct {
	Fn      *ssa.Function
	Env     map[ssa.Value]Val
	Tenv    Tenv
	Caller  *Frame
	watches []*watch
}

type watch struct {
	loop *Loop
	sub  bool   // of a sub-analysis: leaving the loop ends it
	peel int    // >0: iterations still taken one by one
	more func() // called when there are more
}

type stop struct {
	kind     int // 0 back edge, 1 exit, 2 return
	from, to *ssa.BasicBlock
	ret      Val
	phis     map[*ssa.Phi]Val
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.Env = make(map[ssa.Value]Val, len(fr.Env))
	for k, v := range fr.Env {
		n.Env[k] = v
	}
	n.watches = append([]*watch(nil), fr.watches...)
	return &n
}

func (in *In) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(v, fr.Tenv)
	case *ssa.Function:
		return &Closure{Fn: v, Tenv: fr.Tenv}
	case *ssa.Global:
		return &Ptr{Obj: in.globalObj(v)}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.Env[v]
	if !ok {
		in.Undecided("undefined value %s", v.Name())
	}
	return r
}

func (in *In) globalObj(g *ssa.Global) *Obj {
	s := UF("global:" + g.String())
	if o := in.St.ObjOf[s]; o != nil {
		return o
	}
	o := in.newObj(deref(g.Type()), g.Name(), false)
	o.Sym = s
	in.St.ObjOf[s] = o
	if in.Hooks.Global != nil {
		if v, ok := in.Hooks.Global(in, g); ok {
			in.St.Mem[o] = v
			return o
		}
	}
	in.St.Mem[o] = in.SymVal(o.Typ, "global."+g.Name())
	return o
}

const maxDepth = 40

// CallFn analyses a call of a function with known arguments.
func (in *In) CallFn(fr *Frame, fn *ssa.Function, args []Val, free []Val, tenv Tenv) Val {
	if o := fn.Origin(); o != nil && o != fn {
		// an instance: the generic body with the type arguments
		ne := Tenv{}
		ps := o.TypeParams()
		as := fn.TypeArgs()
		for i := 0; i < ps.Len() && i < len(as); i++ {
			ne[ps.At(i)] = SubstType(as[i], tenv)
		}
		fn, tenv = o, ne
	}
	if in.Hooks.Call != nil {
		if r, ok := in.Hooks.Call(in, fr, fn, args, tenv); ok {
			return r
		}
	}
	if r, ok := in.libCall(fr, fn, args, tenv); ok {
		return r
	}
	if len(fn.Blocks) == 0 {
		in.Undecided("no body for %s", fn)
	}
	for _, f := range in.stack {
		if f == fn && fn.Parent() == nil {
			in.Undecided("recursion of %s", fn.Name())
		}
	}
	if in.depth > maxDepth {
		in.Undecided("call depth")
	}
	return in.Body(fr, fn, args, free, tenv)
}

// Body analyses the body of a function, whatever contract it has.
func (in *In) Body(caller *Frame, fn *ssa.Function, args []Val, free []Val, tenv Tenv) Val {
	in.Fns[fn] = true
	if caller == nil {
		in.top = fn
	}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]Val{}, Tenv: tenv, Caller: caller}
	if len(args) != len(fn.Params) {
		in.Undecided("argument count of %s", fn)
	}
	for i, p := range fn.Params {
		fr.Env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.Env[p] = free[i]
	}
	in.depth++
	in.stack = append(in.stack[:len(in.stack):len(in.stack)], fn)
	saveCur, saveFr := in.cur, in.curFr
	r := in.run(fr, fn.Blocks[0], nil)
	in.depth--
	in.stack = in.stack[:len(in.stack)-1]
	in.cur, in.curFr = saveCur, saveFr
	return r
}

func (in *In) phiVals(fr *Frame, b, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	r := map[*ssa.Phi]Val{}
	for i, p := range b.Preds {
		if p != prev {
			continue
		}
		for _, x := range b.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			r[ph] = in.val(fr, ph.Edges[i])
		}
		break
	}
	return r
}

// run executes from block b (coming from prev) to the return.
func (in *In) run(fr *Frame, b, prev *ssa.BasicBlock) Val {
	skipEnter := false
	if prev == nil && b != fr.Fn.Blocks[0] {
		skipEnter = true // resumed at a loop header, phis set
	}
	steps := 0
	for {
		steps++
		if steps > 3000+in.MoreSteps {
			in.Undecided("too many steps")
		}
		if !skipEnter {
			// leaving loops
			for len(fr.watches) > 0 {
				w := fr.watches[len(fr.watches)-1]
				if w.loop.Has(b) {
					break
				}
				if w.sub {
					panic(stop{kind: 1, from: prev, to: b})
				}
				fr.watches = fr.watches[:len(fr.watches)-1]
			}
			var pv map[*ssa.Phi]Val
			if prev != nil {
				pv = in.phiVals(fr, b, prev)
			}
			if l := in.loopAt(fr.Fn, b); l != nil {
				var w *watch
				if n := len(fr.watches); n > 0 && fr.watches[n-1].loop == l {
					w = fr.watches[n-1]
				}
				switch {
				case w != nil && w.peel > 0:
					w.peel--
					if w.peel == 0 {
						if w.more != nil {
							w.more()
						}
						in.Dead()
					}
					for k, v := range pv {
						fr.Env[k] = v
					}
				case w != nil && w.sub:
					for k, v := range pv {
						if c, ok := v.(Bool); ok {
							if _, isFlag := c.flag(); !isFlag {
								pv[k] = B(in.Branch(c))
							}
						}
					}
					panic(stop{kind: 0, from: prev, to: b, phis: pv})
				case w != nil:
					in.Dead() // covered by the generic iteration
				default:
					r, done := in.enterLoop(fr, l, pv)
					if done {
						return r
					}
				}
			} else {
				for k, v := range pv {
					fr.Env[k] = v
				}
			}
		}
		skipEnter = false
		for _, x := range b.Instrs {
			in.cur, in.curFr = x, fr
			switch x := x.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				prev, b = b, b.Succs[0]
			case *ssa.If:
				c := in.val(fr, x.Cond).(Bool)
				_, known := in.Known(c)
				t := in.Branch(c)
				if !known {
					in.note("%s: %v", in.Pos(), t)
				}
				if t {
					prev, b = b, b.Succs[0]
				} else {
					prev, b = b, b.Succs[1]
				}
			case *ssa.Return:
				var r Val
				switch len(x.Results) {
				case 0:
				case 1:
					r = in.val(fr, x.Results[0])
				default:
					t := TupleV{}
					for _, y := range x.Results {
						t = append(t, in.val(fr, y))
					}
					r = t
				}
				for _, w := range fr.watches {
					if w.sub {
						panic(stop{kind: 2, ret: r})
					}
				}
				return r
			case *ssa.Panic:
				in.panicProg("explicit panic")
			default:
				in.instr(fr, x)
			}
		}
	}
}

func (in *In) setv(fr *Frame, x ssa.Value, v Val) { fr.Env[x] = v }

func (in *In) typ(fr *Frame, t types.Type) types.Type { return SubstType(t, fr.Tenv) }

func (in *In) lin(v Val) Lin {
	switch v := v.(type) {
	case Lin:
		return v
	case Bool:
		in.Undecided("condition used as a number")
	}
	in.Undecided("not a scalar: %s", ValString(v))
	return Lin{}
}

func (in *In) instr(fr *Frame, x ssa.Instruction) {
	switch x := x.(type) {
	case *ssa.Alloc:
		t := in.typ(fr, deref(x.Type()))
		n := x.Comment
		if n == "" {
			n = "obj"
		}
		o := in.Alloc(t, n, in.Zero(t))
		in.setv(fr, x, &Ptr{Obj: o})
	case *ssa.Store:
		p := in.ObjAt(in.val(fr, x.Addr), in.typ(fr, deref(x.Addr.Type())))
		v := in.val(fr, x.Val)
		if c, ok := v.(Bool); ok && in.inLoop > 0 {
			if _, isFlag := c.flag(); !isFlag {
				v = B(in.Branch(c))
			}
		}
		in.StoreAt(p, v)
	case *ssa.UnOp:
		v := in.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			p := in.ObjAt(v, in.typ(fr, deref(x.X.Type())))
			in.setv(fr, x, in.Load(p))
		case token.NOT:
			in.setv(fr, x, v.(Bool).Not())
		case token.SUB:
			in.setv(fr, x, in.lin(v).Neg())
		case token.XOR:
			in.setv(fr, x, UFL("not", in.lin(v)))
		default:
			in.Undecided("operator %s", x.Op)
		}
	case *ssa.BinOp:
		in.setv(fr, x, in.binop(x.Op, in.val(fr, x.X), in.val(fr, x.Y), in.typ(fr, x.X.Type())))
	case *ssa.FieldAddr:
		p := in.ObjAt(in.val(fr, x.X), in.typ(fr, deref(x.X.Type())))
		in.setv(fr, x, p.with(Step{F: x.Field}))
	case *ssa.Field:
		v := in.expand(in.val(fr, x.X), in.typ(fr, x.X.Type()))
		s, ok := v.(*StructV)
		if !ok {
			in.Undecided("field of %s", ValString(v))
		}
		in.setv(fr, x, s.F[x.Field])
	case *ssa.IndexAddr:
		i := in.lin(in.val(fr, x.Index))
		switch u := under(in.typ(fr, x.X.Type())).(type) {
		case *types.Slice:
			s := in.slice(in.val(fr, x.X))
			in.bounds(i, s.Len)
			ix := s.Off.Add(i)
			in.setv(fr, x, (&Ptr{s.Arr, s.Path}).with(Step{Idx: &ix}))
		case *types.Pointer:
			p := in.ObjAt(in.val(fr, x.X), u.Elem())
			in.bounds(i, C(under(u.Elem()).(*types.Array).Len()))
			in.setv(fr, x, p.with(Step{Idx: &i}))
		default:
			in.Undecided("index of %s", u)
		}
	case *ssa.Index:
		i := in.lin(in.val(fr, x.Index))
		switch v := in.val(fr, x.X).(type) {
		case *ArrV:
			in.bounds(i, v.W.Len())
			in.setv(fr, x, in.At(v.W, i))
		case StrV:
			in.bounds(i, v.W.Len())
			in.setv(fr, x, in.At(v.W, i))
		case Slice:
			in.bounds(i, v.Len)
			in.setv(fr, x, in.At(in.Content(v), i))
		default:
			in.Undecided("index of %s", ValString(v))
		}
	case *ssa.Lookup:
		if s, ok := in.val(fr, x.X).(StrV); ok {
			i := in.lin(in.val(fr, x.Index))
			in.bounds(i, s.W.Len())
			in.setv(fr, x, in.At(s.W, i))
			return
		}
		mt := under(in.typ(fr, x.X.Type())).(*types.Map)
		v, ok := in.MapGet(in.val(fr, x.X), in.val(fr, x.Index), mt)
		if x.CommaOk {
			in.setv(fr, x, TupleV{v, ok})
		} else {
			in.setv(fr, x, v)
		}
	case *ssa.MapUpdate:
		mt := under(in.typ(fr, x.Map.Type())).(*types.Map)
		in.MapSet(in.val(fr, x.Map), in.val(fr, x.Key), in.val(fr, x.Value), mt)
	case *ssa.MakeMap:
		mt := under(in.typ(fr, x.Type())).(*types.Map)
		o := in.Alloc(in.typ(fr, x.Type()), "map", &MapC{Base: C(0), Len: C(0), K: mt.Key(), V: mt.Elem()})
		in.setv(fr, x, &Ptr{Obj: o})
	case *ssa.MakeSlice:
		t := under(in.typ(fr, x.Type())).(*types.Slice)
		n, c := in.lin(in.val(fr, x.Len)), in.lin(in.val(fr, x.Cap))
		if !in.Branch(GE(n)) || !in.Branch(LE(n, c)) {
			in.panicProg("makeslice: len out of range")
		}
		in.setv(fr, x, in.NewArr(t.Elem(), Word{Fill(in.Zero(t.Elem()), c)}, n, c))
	case *ssa.Slice:
		in.sliceOp(fr, x)
	case *ssa.MakeClosure:
		c := &Closure{Fn: x.Fn.(*ssa.Function), Tenv: fr.Tenv}
		for _, b := range x.Bindings {
			c.Free = append(c.Free, in.val(fr, b))
		}
		in.setv(fr, x, c)
	case *ssa.ChangeType:
		in.setv(fr, x, in.val(fr, x.X))
	case *ssa.ChangeInterface:
		in.setv(fr, x, in.val(fr, x.X))
	case *ssa.MultiConvert:
		in.setv(fr, x, in.convert(in.val(fr, x.X), in.typ(fr, x.X.Type()), in.typ(fr, x.Type())))
	case *ssa.Convert:
		in.setv(fr, x, in.convert(in.val(fr, x.X), in.typ(fr, x.X.Type()), in.typ(fr, x.Type())))
	case *ssa.MakeInterface:
		in.setv(fr, x, &IfaceV{in.typ(fr, x.X.Type()), in.val(fr, x.X)})
	case *ssa.TypeAssert:
		in.typeAssert(fr, x)
	case *ssa.Extract:
		t := in.val(fr, x.Tuple).(TupleV)
		in.setv(fr, x, t[x.Index])
	case *ssa.Call:
		in.setv(fr, x, in.call(fr, &x.Call))
	case *ssa.Range:
		switch under(in.typ(fr, x.X.Type())).(type) {
		case *types.Map:
			in.rangeMap(fr, x, under(in.typ(fr, x.X.Type())).(*types.Map))
		default:
			in.Undecided("range over %s", x.X.Type())
		}
	case *ssa.Next:
		in.next(fr, x)
	case *ssa.RunDefers:
	default:
		in.Undecided("instruction %T", x)
	}
}

// slice returns a slice value; an opaque value is expanded.
func (in *In) slice(v Val) Slice {
	s, ok := v.(Slice)
	if !ok {
		in.Undecided("not a slice: %s", ValString(v))
	}
	return s
}

func (in *In) bounds(i, n Lin) {
	if !in.Branch(GE(i)) || !in.Branch(LT(i, n)) {
		in.panicProg("index out of range [%s] with length %s", i, n)
	}
}

// FloatOps are treated as unknown values.
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// U64 is the value of an unsigned constant of 64 bits.
func U64(l Lin) (uint64, bool) {
	if c, ok := l.Const(); ok && c >= 0 {
		return uint64(c), true
	}
	s, ok := l.Single()
	if !ok {
		return 0, false
	}
	name, as := s.App()
	if len(as) != 0 || !strings.HasPrefix(name, "const:") {
		return 0, false
	}
	u, err := strconv.ParseUint(name[len("const:"):], 10, 64)
	return u, err == nil
}

// LinU64 is the unsigned constant.
func LinU64(u uint64) Lin {
	if u <= math.MaxInt64 {
		return C(int64(u))
	}
	return UFL("const:" + strconv.FormatUint(u, 10))
}

// fold64 is the result of an operation on two unsigned constants of 64 bits.
func fold64(op token.Token, x, y Lin, t types.Type) (Val, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Uint64 && b.Kind() != types.Uint && b.Kind() != types.Uintptr {
		return nil, false
	}
	p, ok := U64(x)
	if !ok {
		return nil, false
	}
	q, ok := U64(y)
	if !ok {
		return nil, false
	}
	var r uint64
	switch op {
	case token.XOR:
		r = p ^ q
	case token.OR:
		r = p | q
	case token.AND:
		r = p & q
	case token.AND_NOT:
		r = p &^ q
	case token.SHL:
		r = p << q
	case token.SHR:
		r = p >> q
	case token.MUL:
		r = p * q
	case token.ADD:
		r = p + q
	case token.SUB:
		if p < q && p <= math.MaxInt64 && q <= math.MaxInt64 {
			return nil, false // as a number that wrapped
		}
		r = p - q
	default:
		return nil, false
	}
	return LinU64(r), true
}

// big64 compares two unsigned constants, of which one is beyond the signed ones.
func big64(op token.Token, a, b Val) (Val, bool) {
	x, ok := a.(Lin)
	if !ok {
		return nil, false
	}
	y, ok := b.(Lin)
	if !ok {
		return nil, false
	}
	p, ok := U64(x)
	if !ok {
		return nil, false
	}
	q, ok := U64(y)
	if !ok || p <= math.MaxInt64 && q <= math.MaxInt64 {
		return nil, false
	}
	switch op {
	case token.EQL:
		return B(p == q), true
	case token.NEQ:
		return B(p != q), true
	case token.LSS:
		return B(p < q), true
	case token.LEQ:
		return B(p <= q), true
	case token.GTR:
		return B(p > q), true
	case token.GEQ:
		return B(p >= q), true
	}
	return nil, false
}

func (in *In) binop(op token.Token, a, b Val, t types.Type) Val {
	if r, ok := big64(op, a, b); ok {
		return r
	}
	switch op {
	case token.EQL, token.NEQ:
		c := in.eqCond(a, b, t)
		if op == token.NEQ {
			return c.Not()
		}
		return c
	}
	if s, ok := a.(StrV); ok {
		u, ok := b.(StrV)
		if !ok {
			in.Undecided("string operator")
		}
		if op == token.ADD {
			return StrV{s.W.Cat(u.W)}
		}
		if p, ok := listed(s.W); ok {
			if q, ok := listed(u.W); ok {
				switch op {
				case token.LSS:
					return B(in.before(p, q))
				case token.GTR:
					return B(in.before(q, p))
				case token.LEQ:
					return B(!in.before(q, p))
				case token.GEQ:
					return B(!in.before(p, q))
				}
			}
		}
		in.Undecided("string operator %s", op)
	}
	if x, ok := a.(Bool); ok {
		y, ok := b.(Bool)
		if !ok {
			in.Undecided("operator")
		}
		switch op {
		case token.AND:
			return B(in.Branch(x) && in.Branch(y))
		case token.OR:
			return B(in.Branch(x) || in.Branch(y))
		}
		in.Undecided("operator %s", op)
	}
	x, y := in.lin(a), in.lin(b)
	if r, ok := fold64(op, x, y, t); ok {
		return r
	}
	fl := isFloat(t)
	if in.Hooks.Less != nil {
		p, q, neg := x, y, false
		switch op {
		case token.GTR:
			p, q = y, x
		case token.LEQ:
			p, q, neg = y, x, true
		case token.GEQ:
			neg = true
		}
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if c, ok := in.Hooks.Less(in, p, q); ok {
				if neg {
					return c.Not()
				}
				return c
			}
		}
	}
	switch op {
	case token.LSS:
		if fl {
			return LT(x, y)
		}
		return LT(x, y)
	case token.LEQ:
		return LE(x, y)
	case token.GTR:
		return LT(y, x)
	case token.GEQ:
		return LE(y, x)
	}
	if fl {
		return UFL("f"+op.String(), x, y)
	}
	cx, kx := x.Const()
	cy, ky := y.Const()
	unsigned := false
	if bt, ok := under(t).(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
		unsigned = true
	}
	switch op {
	case token.ADD:
		if unsigned && (wraps(x) || wraps(y)) {
			return in.wrapped(x.Add(y), t)
		}
		if unsigned && sizeOf(under(t).(*types.Basic)) < 8 {
			m := int64(1) << uint(8*sizeOf(under(t).(*types.Basic)))
			if s := x.Add(y); in.Branch(LT(s, C(m))) {
				return s
			} else if s = s.Plus(-m); in.Branch(LT(s, C(m))) {
				return s
			}
			return UFL("conv."+t.String(), x.Add(y))
		}
		return x.Add(y)
	case token.SUB:
		if unsigned {
			return in.wrapped(x.Sub(y), t)
		}
		return x.Sub(y)
	case token.MUL:
		return in.Mul(x, y)
	case token.QUO:
		if ky && cy > 0 {
			return in.quo(x, cy)
		}
		if in.Branch(EQ(y)) {
			in.panicProg("division by zero")
		}
	case token.REM:
		if ky && cy > 0 {
			if wraps(x) && in.isPow2(y) {
				return in.Mod(x, y)
			}
			if in.Hooks.Mod != nil && in.Must(GE(x)) {
				if r, ok := in.Hooks.Mod(in, x, y); ok {
					return r
				}
			}
			return x.Sub(in.quo(x, cy).Scale(cy))
		}
	case token.SHL:
		if ky && cy >= 0 && cy < 62 {
			return x.Scale(1 << uint(cy))
		}
	case token.SHR:
		if ky && cy >= 0 && cy < 62 {
			return in.quoFloor(x, 1<<uint(cy))
		}
	case token.AND:
		if kx && !ky {
			x, y, cx, cy, kx, ky = y, x, cy, cx, ky, kx
		}
		if kx && ky {
			return C(cx & cy)
		}
		return in.mask(x, y)
	}
	if kx && ky {
		switch op {
		case token.OR:
			return C(cx | cy)
		case token.XOR:
			return C(cx ^ cy)
		case token.AND_NOT:
			return C(cx &^ cy)
		case token.QUO:
			if cy != 0 {
				return C(cx / cy)
			}
		case token.REM:
			if cy != 0 {
				return C(cx % cy)
			}
		}
	}
	return UFL("op"+op.String(), x, y)
}

// wrapped is a number as a value of an unsigned type, where it may be below zero.
func (in *In) wrapped(x Lin, t types.Type) Lin {
	x = unwrap(x)
	if in.Branch(GE(x)) {
		return x
	}
	w := 8
	if b, ok := under(t).(*types.Basic); ok {
		w = sizeOf(b)
	}
	if w < 8 {
		m := int64(1) << uint(8*w)
		if in.Branch(GE(x.Plus(m))) {
			return x.Plus(m)
		}
		return UFL("conv."+t.String(), x)
	}
	s := UFL("wrap", x)
	nonneg["wrap"] = true
	if in.Must(GE(x.Plus(1 << 61))) {
		in.St.Facts.AddGE(s.Plus(-1 << 61))
	}
	return s
}

// wraps tells whether a number has a part that is below zero and wrapped around.
func wraps(x Lin) bool {
	for _, t := range x.T {
		if fn, _ := t.S.App(); fn == "wrap" {
			return true
		}
	}
	return false
}

// unwrap is the number modulo 2^64 without the wrapping of its parts.
func unwrap(x Lin) Lin {
	if !wraps(x) {
		return x
	}
	r := C(x.K)
	for _, t := range x.T {
		if fn, a := t.S.App(); fn == "wrap" {
			r = r.Add(a[0].Scale(t.C))
		} else {
			r = r.Add(V(t.S).Scale(t.C))
		}
	}
	return r
}

func (in *In) quoFloor(x Lin, c int64) Lin {
	if c == 1 {
		return x
	}
	if k, ok := x.Const(); ok {
		return C(floorDiv(k, c))
	}
	return UFL("div", x, C(c))
}

// quo is Go's quotient by a positive constant: truncated towards zero.
func (in *In) quo(x Lin, c int64) Lin {
	if c == 1 {
		return x
	}
	if k, ok := x.Const(); ok {
		return C(k / c)
	}
	if in.Branch(GE(x)) {
		return in.quoFloor(x, c)
	}
	return in.quoFloor(x.Neg(), c).Neg()
}

// Mul is a product; non-linear monomials become symbols.
func (in *In) Mul(x, y Lin) Lin {
	if c, ok := x.Const(); ok {
		return y.Scale(c)
	}
	if c, ok := y.Const(); ok {
		return x.Scale(c)
	}
	// known constants
	r := C(x.K * y.K)
	for _, t := range x.T {
		r = r.Add(V(t.S).Scale(t.C * y.K))
	}
	for _, t := range y.T {
		r = r.Add(V(t.S).Scale(t.C * x.K))
	}
	for _, t := range x.T {
		for _, u := range y.T {
			r = r.Add(in.mono(t.S, u.S).Scale(t.C * u.C))
		}
	}
	return r
}

// mono is the monomial of two symbols, flattened and sorted.
func (in *In) mono(a, b Sym) Lin {
	var fs []Sym
	add := func(s Sym) {
		if fn, args := s.App(); fn == "mul" {
			for _, x := range args {
				q, _ := x.Single()
				fs = append(fs, q)
			}
			return
		}
		fs = append(fs, s)
	}
	add(a)
	add(b)
	for i := range fs {
		for j := i; j > 0 && fs[j] < fs[j-1]; j-- {
			fs[j], fs[j-1] = fs[j-1], fs[j]
		}
	}
	var args []Lin
	for _, s := range fs {
		args = append(args, V(s))
	}
	r := UFL("mul", args...)
	nn := true
	for _, s := range fs {
		if !in.St.Facts.EntailsGE(V(s)) {
			nn = false
		}
	}
	if nn {
		in.St.Facts.AddGE(r)
	}
	return r
}

// Pow2 tells whether an expression is known to be a power of two.
func (in *In) isPow2(x Lin) bool {
	if k, ok := x.Const(); ok {
		return k > 0 && k&(k-1) == 0
	}
	for _, p := range pow2Exprs {
		if in.St.Facts.EntailsEQ(p.Sub(x)) {
			return true
		}
	}
	return false
}

var pow2Exprs []Lin

// SetPow2 declares expressions that are powers of two.
func (in *In) SetPow2(x ...Lin) { pow2Exprs = x }

// mask is x & y with y+1 a power of two: x modulo y+1.
func (in *In) mask(x, y Lin) Val {
	m := y.Plus(1)
	if in.isPow2(m) && in.Must(GE(x)) {
		return in.Mod(x, m)
	}
	if m := x.Plus(1); in.isPow2(m) && in.Must(GE(y)) {
		return in.Mod(y, m)
	}
	return UFL("op&", x, y)
}

// Mod is x modulo m, for x >= 0 and m > 0.
func (in *In) Mod(x, m Lin) Lin {
	if wraps(x) && in.isPow2(m) {
		x = unwrap(x)
		if k, ok := m.Const(); ok {
			return x.Sub(in.quoFloor(x, k).Scale(k))
		}
		if in.Must(LT(x, C(0))) && in.Must(GE(x.Add(m))) {
			return x.Add(m)
		}
		if !in.Must(GE(x)) {
			r := UFL("op%", x, m)
			in.St.Facts.AddGE(r)
			in.St.Facts.AddGE(m.Sub(r).Plus(-1))
			return r
		}
	}
	if in.Hooks.Mod != nil {
		if r, ok := in.Hooks.Mod(in, x, m); ok {
			return r
		}
	}
	if in.Must(LT(x, m)) {
		return x
	}
	if in.Must(LE(m, x)) && in.Must(LT(x, m.Scale(2))) {
		return x.Sub(m)
	}
	if in.Must(LT(x, m.Scale(2))) {
		if in.Branch(LT(x, m)) {
			return x
		}
		return x.Sub(m)
	}
	if k, ok := m.Const(); ok {
		return x.Sub(in.quoFloor(x, k).Scale(k))
	}
	r := UFL("mod", x, m)
	in.St.Facts.AddGE(r)
	in.St.Facts.AddGE(m.Sub(r).Plus(-1))
	return r
}

func isNilConst(v Val) bool {
	switch v := v.(type) {
	case Lin:
		return v.IsConst(0)
	case FnSym:
		return v.L.IsConst(0)
	case Slice:
		return v.Arr == nil
	}
	return false
}

// eqCond is the condition a == b.
func (in *In) eqCond(a, b Val, t types.Type) Bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return in.PtrEq(a, b)
	case *types.Slice:
		s := in.slice(a)
		if s.Arr == nil {
			s = in.slice(b)
		}
		if s.Arr == nil {
			return True
		}
		if in.Branch(s.NilB) {
			in.Assume(EQ(s.Cap))
			in.Assume(EQ(s.Len))
			return True
		}
		return False
	case *types.Signature:
		if isNilConst(a) {
			a, b = b, a
		}
		switch f := a.(type) {
		case *Closure:
			return False
		case FnSym:
			if g, ok := b.(FnSym); ok {
				return EQ(f.L.Sub(g.L))
			}
		}
	case *types.Interface:
		x, ok1 := a.(*IfaceV)
		y, ok2 := b.(*IfaceV)
		switch {
		case ok1 && ok2:
			if !types.Identical(x.T, y.T) {
				return False
			}
			return in.eqCond(x.V, y.V, x.T)
		case ok1 && isNilConst(b), ok2 && isNilConst(a):
			return False
		}
		if x, ok := a.(Lin); ok {
			if y, ok := b.(Lin); ok {
				return EQ(x.Sub(y))
			}
		}
	case *types.Struct:
		x, ok1 := in.expand(a, t).(*StructV)
		y, ok2 := in.expand(b, t).(*StructV)
		if ok1 && ok2 {
			for i := range x.F {
				if !in.Branch(in.eqCond(x.F[i], y.F[i], u.Field(i).Type())) {
					return False
				}
			}
			return True
		}
	}
	switch x := a.(type) {
	case Bool:
		if y, ok := b.(Bool); ok {
			switch {
			case y.K == BTrue:
				return x
			case y.K == BFalse:
				return x.Not()
			case x.K == BTrue:
				return y
			case x.K == BFalse:
				return y.Not()
			}
			return B(in.Branch(x) == in.Branch(y))
		}
	case Lin:
		if y, ok := b.(Lin); ok {
			if i1, j1, ok := MapKey(x); ok {
				if i2, j2, ok := MapKey(y); ok && i1.Same(i2) {
					return EQ(j1.Sub(j2)) // a key is enumerated once
				}
			}
			if in.Hooks.EqVal != nil {
				if c, ok := in.Hooks.EqVal(in, x, y); ok {
					return c
				}
			}
			return EQ(x.Sub(y))
		}
		if s, ok := b.(*StructV); ok {
			return in.eqCond(in.expand(a, s.Typ), b, s.Typ)
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			if len(y.W) == 0 {
				return EQ(x.W.Len())
			}
			if len(x.W) == 0 {
				return EQ(y.W.Len())
			}
			if in.WordEq(x.W, y.W) {
				return True
			}
			if a, ok := listed(x.W); ok {
				if b, ok := listed(y.W); ok {
					if len(a) != len(b) {
						return False
					}
					for i := range a {
						if !in.Branch(in.eqCond(a[i], b[i], types.Typ[types.Uint8])) {
							return False
						}
					}
					return True
				}
			}
		}
	case *StructV:
		if y, ok := b.(Lin); ok {
			return in.eqCond(a, in.expand(y, x.Typ), x.Typ)
		}
		if _, ok := b.(*StructV); ok {
			return in.eqCond(a, b, x.Typ)
		}
	case *Ptr:
		return in.PtrEq(a, b)
	}
	in.Undecided("comparison of %s and %s", ValString(a), ValString(b))
	return False
}

func (in *In) convert(v Val, from, to types.Type) Val {
	fu, tu := under(from), under(to)
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch fv := v.(type) {
		case Slice:
			return StrV{in.Content(fv)}
		case StrV:
			return fv
		}
		in.Undecided("conversion to string")
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(StrV); ok {
			n := s.W.Len()
			c := V(NewSym("cap"))
			in.Assume(LE(n, c))
			return in.NewArr(ts.Elem(), s.W.Cat(Word{Fill(C(0), c.Sub(n))}), n, c)
		}
		if s, ok := v.(Slice); ok {
			return s
		}
	}
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 {
		x, isLin := v.(Lin)
		if !isLin {
			in.Undecided("conversion of %s", ValString(v))
		}
		if isInt(fb) && isInt(tb) && sizeOf(tb) < 8 && (sizeOf(tb) < sizeOf(fb) || sizeOf(tb) == sizeOf(fb) && (fb.Info()^tb.Info())&types.IsUnsigned != 0) {
			return in.wrap(x, fb, tb)
		}
		if _, k := x.Const(); k {
			return x
		}
		if tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat == 0 {
			return UFL("float", x)
		}
		if tb.Info()&types.IsFloat != 0 {
			return x
		}
		if fb.Info()&types.IsFloat != 0 {
			return UFL("trunc", x)
		}
		if widens(fb, tb) || widens(tb, fb) && sizeOf(tb) == 8 {
			return x // lengths and counts stay in range
		}
		return UFL("conv."+tb.Name(), x)
	}
	if types.Identical(fu, tu) {
		return v
	}
	in.Undecided("conversion %s to %s", from, to)
	return nil
}

// listed are the values of a word of single ones.
func listed(w Word) ([]Val, bool) {
	var r []Val
	for _, p := range w {
		if p.Kind != PItem {
			return nil, false
		}
		r = append(r, p.V)
	}
	return r, true
}

// before tells whether one string of bytes is before another.
func (in *In) before(a, b []Val) bool {
	t := types.Typ[types.Uint8]
	for i := range a {
		if i == len(b) {
			return false
		}
		if !in.Branch(in.eqCond(a[i], b[i], t)) {
			return in.Branch(in.binop(token.LSS, a[i], b[i], t).(Bool))
		}
	}
	return len(a) < len(b)
}

// wrap is a value of less than 64 bits taken as one of another type.
func (in *In) wrap(x Lin, from, to *types.Basic) Val {
	bits := 8 * sizeOf(to)
	lo, hi := int64(0), int64(1)<<bits-1
	if to.Info()&types.IsUnsigned == 0 {
		lo, hi = -1<<(bits-1), 1<<(bits-1)-1
	}
	if k, ok := x.Const(); ok {
		for k > hi || k < lo {
			if k > hi {
				k -= (k-hi-1)>>bits<<bits + 1<<bits
			} else {
				k += (lo-k-1)>>bits<<bits + 1<<bits
			}
		}
		return C(k)
	}
	if sizeOf(from) == sizeOf(to) {
		// The values of the other sign move by the number of values.
		if lo < 0 {
			in.Assume(GE(x))
			if in.Branch(LE(x, C(hi))) {
				return x
			}
			return x.Plus(-1 << bits)
		}
		if in.Branch(GE(x)) {
			return x
		}
		return x.Plus(1 << bits)
	}
	if sizeOf(from) > sizeOf(to) && in.Must(LE(C(lo), x)) && in.Must(LE(x, C(hi))) {
		return x
	}
	return UFL("conv."+to.Name(), x)
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func isInt(b *types.Basic) bool { return b.Info()&types.IsInteger != 0 }

// widens: every value of from that the program uses is a value of to (64 bit
// counts are taken to stay below 2^63).
func widens(from, to *types.Basic) bool { return sizeOf(from) <= sizeOf(to) }

func (in *In) typeAssert(fr *Frame, x *ssa.TypeAssert) {
	v := in.val(fr, x.X)
	t := in.typ(fr, x.AssertedType)
	i, ok := v.(*IfaceV)
	if !ok {
		in.Undecided("type assertion on an unknown value")
	}
	var good bool
	if it, isI := under(t).(*types.Interface); isI {
		good = types.Implements(i.T, it)
		if good {
			v = i
		}
	} else {
		good = types.Identical(i.T, t)
		v = i.V
	}
	if x.CommaOk {
		if good {
			in.setv(fr, x, TupleV{v, True})
		} else {
			in.setv(fr, x, TupleV{in.Zero(t), False})
		}
		return
	}
	if !good {
		in.panicProg("type assertion fails")
	}
	in.setv(fr, x, v)
}

func (in *In) sliceOp(fr *Frame, x *ssa.Slice) {
	get := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		return in.lin(in.val(fr, v))
	}
	v := in.val(fr, x.X)
	if s, ok := v.(StrV); ok {
		n := s.W.Len()
		lo, hi := get(x.Low, C(0)), get(x.High, n)
		if !in.Branch(GE(lo)) || !in.Branch(LE(lo, hi)) || !in.Branch(LE(hi, n)) {
			in.panicProg("slice bounds out of range")
		}
		in.setv(fr, x, StrV{in.Sub(s.W, lo, hi)})
		return
	}
	var s Slice
	if pt, ok := under(in.typ(fr, x.X.Type())).(*types.Pointer); ok {
		p := in.ObjAt(v, pt.Elem())
		n := C(under(pt.Elem()).(*types.Array).Len())
		s = Slice{Arr: p.Obj, Path: p.Path, Off: C(0), Len: n, Cap: n, NilB: False}
	} else {
		s = in.slice(v)
	}
	lo, hi := get(x.Low, C(0)), get(x.High, s.Len)
	mx := get(x.Max, s.Cap)
	if !in.Branch(GE(lo)) || !in.Branch(LE(lo, hi)) || !in.Branch(LE(hi, mx)) || !in.Branch(LE(mx, s.Cap)) {
		in.panicProg("slice bounds out of range [%s:%s:%s] with capacity %s", lo, hi, mx, s.Cap)
	}
	r := s
	r.Off = s.Off.Add(lo)
	r.Len = hi.Sub(lo)
	r.Cap = mx.Sub(lo)
	in.setv(fr, x, r)
}

// call evaluates a call.
func (in *In) call(fr *Frame, c *ssa.CallCommon) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(fr, a))
	}
	if c.IsInvoke() {
		recv := in.val(fr, c.Value)
		return in.invoke(fr, recv, in.typ(fr, c.Value.Type()), c.Method, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, b, c, args)
	}
	return in.CallVal(fr, in.val(fr, c.Value), args, c.Signature())
}

// CallVal calls a function value.
func (in *In) CallVal(fr *Frame, f Val, args []Val, sig *types.Signature) Val {
	switch f := f.(type) {
	case *Closure:
		return in.CallFn(fr, f.Fn, args, f.Free, f.Tenv)
	case FnSym:
		if f.L.IsConst(0) || !in.Branch(NE(f.L)) {
			in.panicProg("call of a nil function")
		}
		if in.Hooks.CallSym != nil {
			if r, ok := in.Hooks.CallSym(in, f, args, sig); ok {
				return r
			}
		}
		in.Undecided("call of unknown function %s", f.L)
	}
	in.Undecided("call of %s", ValString(f))
	return nil
}

// MethodOf finds the function implementing a method for a dynamic type.
var MethodOf func(t types.Type, m *types.Func) *ssa.Function

func (in *In) invoke(fr *Frame, recv Val, rt types.Type, m *types.Func, args []Val) Val {
	if i, ok := recv.(*IfaceV); ok {
		return in.callMethod(fr, i.V, i.T, m, args)
	}
	if _, ok := under(rt).(*types.Interface); !ok {
		if _, tp := types.Unalias(rt).(*types.TypeParam); !tp {
			// a type parameter bound to a concrete type
			return in.callMethod(fr, recv, rt, m, args)
		}
	}
	if in.Hooks.Invoke != nil {
		if r, ok := in.Hooks.Invoke(in, recv, m.Name(), args, m.Type().(*types.Signature)); ok {
			return r
		}
	}
	in.Undecided("method %s of an unknown value", m.Name())
	return nil
}

func (in *In) callMethod(fr *Frame, v Val, t types.Type, m *types.Func, args []Val) Val {
	obj, index, indirect := types.LookupFieldOrMethod(t, true, m.Pkg(), m.Name())
	f, ok := obj.(*types.Func)
	if !ok {
		in.Undecided("method %s of %s", m.Name(), t)
	}
	_ = indirect
	// embedded fields on the way
	for _, i := range index[:len(index)-1] {
		if _, isp := under(t).(*types.Pointer); isp {
			p := in.ObjAt(v, deref(t))
			v = in.Load(p.with(Step{F: i}))
			t = under(deref(t)).(*types.Struct).Field(i).Type()
			continue
		}
		s := in.expand(v, t).(*StructV)
		v = s.F[i]
		t = under(t).(*types.Struct).Field(i).Type()
	}
	if _, isI := under(t).(*types.Interface); isI {
		return in.invoke(fr, v, t, m, args)
	}
	fn := FuncOf(f.Origin())
	if fn == nil {
		in.Undecided("no function for %s", f)
	}
	tenv := Tenv{}
	n, _ := types.Unalias(deref(t)).(*types.Named)
	if n != nil && n.TypeArgs().Len() > 0 {
		rp := f.Origin().Type().(*types.Signature).RecvTypeParams()
		for i := 0; i < rp.Len(); i++ {
			tenv[rp.At(i)] = n.TypeArgs().At(i)
		}
	}
	sig := f.Type().(*types.Signature)
	_, recvPtr := sig.Recv().Type().(*types.Pointer)
	_, isPtr := under(t).(*types.Pointer)
	if isPtr && !recvPtr {
		v = in.Load(in.ObjAt(v, deref(t)))
	}
	return in.CallFn(fr, fn, append([]Val{v}, args...), nil, tenv)
}

// FuncOf finds the SSA function of a (generic) source function.
var FuncOf func(f *types.Func) *ssa.Function

func shortPkg(fn *ssa.Function) string {
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return fn.Object().Pkg().Path()
		}
		return ""
	}
	p := fn.Pkg.Pkg.Path()
	return p
}

// PkgName is the last element of a function's package path.
func PkgName(fn *ssa.Function) string {
	p := shortPkg(fn)
	return p[strings.LastIndex(p, "/")+1:]
}
