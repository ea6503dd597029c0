package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
)

// Unsupported is panicked when a construct is outside the verified subset.
type Unsupported struct{ msg string }

func unsup(f string, a ...any) {
	if os.Getenv("GOSTV_DEBUG") == "2" {
		debug.PrintStack()
	}
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

type tenv map[*types.TypeParam]types.Type

var tctx = types.NewContext()

func subst(t types.Type, e tenv) types.Type {
	if len(e) == 0 {
		return t
	}
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := e[x]; ok {
			return r
		}
		return x
	case *types.Named:
		ta := x.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return x
		}
		args := make([]types.Type, ta.Len())
		ch := false
		for i := range args {
			args[i] = subst(ta.At(i), e)
			if args[i] != ta.At(i) {
				ch = true
			}
		}
		if !ch {
			return x
		}
		r, err := types.Instantiate(tctx, x.Origin(), args, false)
		if err != nil {
			panic(err)
		}
		return r
	case *types.Alias:
		return subst(types.Unalias(x), e)
	case *types.Pointer:
		el := subst(x.Elem(), e)
		if el == x.Elem() {
			return x
		}
		return types.NewPointer(el)
	case *types.Slice:
		el := subst(x.Elem(), e)
		if el == x.Elem() {
			return x
		}
		return types.NewSlice(el)
	case *types.Array:
		return types.NewArray(subst(x.Elem(), e), x.Len())
	case *types.Map:
		return types.NewMap(subst(x.Key(), e), subst(x.Elem(), e))
	case *types.Chan:
		return types.NewChan(x.Dir(), subst(x.Elem(), e))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < x.Len(); i++ {
			v := x.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), subst(v.Type(), e)))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, subst(x.Params(), e).(*types.Tuple), subst(x.Results(), e).(*types.Tuple), x.Variadic())
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), subst(f.Type(), e), f.Embedded()))
			tags = append(tags, x.Tag(i))
		}
		return types.NewStruct(fs, tags)
	}
	return t
}

// typeKey names a type canonically (package gost unqualified).
func typeKey(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "gost" {
			return ""
		}
		return p.Name()
	}), "interface{}", "any")
}

func isExternalStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || n.Obj().Pkg().Name() == "gost" {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

type intInfo struct {
	bits   int
	signed bool
}

func intInfoOf(t types.Type) (intInfo, bool) {
	if isTypeParam(t) {
		return intInfo{}, false
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	}
	return intInfo{}, false
}
func (i intInfo) min() *big.Int {
	if !i.signed {
		return new(big.Int)
	}
	return new(big.Int).Neg(pow2(i.bits - 1))
}
func (i intInfo) max() *big.Int {
	n := i.bits
	if i.signed {
		n--
	}
	return new(big.Int).Sub(pow2(n), big.NewInt(1))
}

func isFloat(t types.Type) int {
	if isTypeParam(t) {
		return 0
	}
	if b, ok := under(t).(*types.Basic); ok {
		switch b.Kind() {
		case types.Float32:
			return 32
		case types.Float64, types.UntypedFloat:
			return 64
		}
	}
	return 0
}
func isString(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isInterface(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	_, ok := under(t).(*types.Interface)
	return ok
}

var bvMode bool

// scalarSort is the SMT sort for a scalar type ("" when composite).
func scalarSort(t types.Type) string {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return "T_" + tp.Obj().Name()
	}
	if isExternalStruct(t) {
		return "X_" + cleanName(typeKey(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if ii, ok := intInfoOf(t); ok {
			if bvMode {
				return bvSort(ii.bits)
			}
			return "Int"
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.Float32:
			return "Float32"
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return "Float64"
		case u.Info()&types.IsComplex != 0:
			return "Cplx_" + u.Name()
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return "Int"
	case *types.Signature:
		return "Func"
	case *types.Interface:
		return "Any"
	case *types.Struct, *types.Slice, *types.Tuple, *types.Array:
		return ""
	}
	// ssa's internal opaque types
	return "Opaque"
}

type leaf struct {
	path string
	sort string
	typ  types.Type // type of the scalar; nil for slice components
	kind string     // "", "arr","off","len","cap"
}

var leafMemo = map[string][]leaf{}

func leavesOf(t types.Type) []leaf {
	key := fmt.Sprint(bvMode) + typeKey(t)
	if l, ok := leafMemo[key]; ok {
		return l
	}
	var out []leaf
	if s := scalarSort(t); s != "" {
		out = []leaf{{"", s, t, ""}}
	} else {
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				for _, l := range leavesOf(f.Type()) {
					out = append(out, leaf{"." + f.Name() + l.path, l.sort, l.typ, l.kind})
				}
			}
		case *types.Slice:
			for _, k := range []string{"arr", "off", "len", "cap"} {
				out = append(out, leaf{"#" + k, "Int", nil, k})
			}
		default:
			unsup("type %s has no leaves", typeKey(t))
		}
	}
	leafMemo[key] = out
	return out
}

func structOf(t types.Type) *types.Struct {
	s, _ := under(t).(*types.Struct)
	return s
}

func derefType(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func shortName(s string) string { return strings.TrimPrefix(s, "gost.") }
