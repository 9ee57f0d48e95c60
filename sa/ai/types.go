package ai

import (
	"go/types"
)

// Tenv maps the type parameters of a generic function to type arguments.
type Tenv map[*types.TypeParam]types.Type

// SubstType replaces type parameters by their arguments.
func SubstType(t types.Type, env Tenv) types.Type {
	if len(env) == 0 {
		return t
	}
	switch t := t.(type) {
	case *types.TypeParam:
		if r, ok := env[t]; ok {
			return r
		}
	case *types.Named:
		if a := t.TypeArgs(); a.Len() > 0 {
			args := make([]types.Type, a.Len())
			ch := false
			for i := range args {
				args[i] = SubstType(a.At(i), env)
				ch = ch || args[i] != a.At(i)
			}
			if ch {
				r, err := types.Instantiate(tctx, t.Origin(), args, false)
				if err == nil {
					return r
				}
			}
		} else if p := t.TypeParams(); p.Len() > 0 {
			// the generic type itself: its own parameters
			args := make([]types.Type, p.Len())
			ch := false
			for i := range args {
				args[i] = SubstType(p.At(i), env)
				ch = ch || args[i] != types.Type(p.At(i))
			}
			if ch {
				r, err := types.Instantiate(tctx, t.Origin(), args, false)
				if err == nil {
					return r
				}
			}
		}
	case *types.Alias:
		return SubstType(types.Unalias(t), env)
	case *types.Pointer:
		if e := SubstType(t.Elem(), env); e != t.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := SubstType(t.Elem(), env); e != t.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := SubstType(t.Elem(), env); e != t.Elem() {
			return types.NewArray(e, t.Len())
		}
	case *types.Map:
		k, e := SubstType(t.Key(), env), SubstType(t.Elem(), env)
		if k != t.Key() || e != t.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Chan:
		if e := SubstType(t.Elem(), env); e != t.Elem() {
			return types.NewChan(t.Dir(), e)
		}
	case *types.Struct:
		fs := make([]*types.Var, t.NumFields())
		tags := make([]string, t.NumFields())
		ch := false
		for i := range fs {
			f := t.Field(i)
			ft := SubstType(f.Type(), env)
			if ft != f.Type() {
				ch = true
				f = types.NewField(f.Pos(), f.Pkg(), f.Name(), ft, f.Embedded())
			}
			fs[i] = f
			tags[i] = t.Tag(i)
		}
		if ch {
			return types.NewStruct(fs, tags)
		}
	case *types.Tuple:
		vs := make([]*types.Var, t.Len())
		ch := false
		for i := range vs {
			v := t.At(i)
			vt := SubstType(v.Type(), env)
			if vt != v.Type() {
				ch = true
				v = types.NewVar(v.Pos(), v.Pkg(), v.Name(), vt)
			}
			vs[i] = v
		}
		if ch {
			return types.NewTuple(vs...)
		}
	case *types.Signature:
		p := SubstType(t.Params(), env).(*types.Tuple)
		r := SubstType(t.Results(), env).(*types.Tuple)
		if p != t.Params() || r != t.Results() {
			return types.NewSignatureType(nil, nil, nil, p, r, t.Variadic())
		}
	}
	return t
}

var tctx = types.NewContext()

// under is the underlying type, but a type parameter stays itself, unless all
// its types share one underlying type (a core type such as ~[]E).
func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.(*types.TypeParam); ok {
		if u := coreType(p); u != nil {
			return u
		}
		return p
	}
	return t.Underlying()
}

// CoreType is the one underlying type of a type parameter's type set, if there is one.
func CoreType(p *types.TypeParam) types.Type { return coreType(p) }

func coreType(p *types.TypeParam) types.Type {
	i, ok := p.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var u types.Type
	n := 0
	for j := 0; j < i.NumEmbeddeds(); j++ {
		switch e := i.EmbeddedType(j).(type) {
		case *types.Union:
			if e.Len() != 1 {
				return nil
			}
			u = e.Term(0).Type().Underlying()
			n++
		default:
			if _, ok := e.Underlying().(*types.Interface); ok {
				continue
			}
			u = e.Underlying()
			n++
		}
	}
	if n != 1 {
		return nil
	}
	switch u.(type) {
	case *types.Basic:
		return nil
	}
	return u
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
