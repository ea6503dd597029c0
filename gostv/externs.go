package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func initExterns() {
	externModels["reflect.ValueOf"] = func(v *Verifier, fr *Frame, st *State, f *ssa.Function, args []Val, at []types.Type, rt types.Type, pos string) []outcome {
		return one(st, args[0])
	}
	externModels["(reflect.Value).Interface"] = externModels["reflect.ValueOf"]
	externModels["sort.Slice"] = sortModel(false)
	externModels["sort.SliceStable"] = sortModel(true)
	externModels["reflect.DeepEqual"] = func(v *Verifier, fr *Frame, st *State, f *ssa.Function, args []Val, at []types.Type, rt types.Type, pos string) []outcome {
		a, ok1 := args[0].(*IfaceV)
		b, ok2 := args[1].(*IfaceV)
		if !ok1 || !ok2 || a.Dyn == nil || b.Dyn == nil {
			unsup("DeepEqual of values of unknown type")
		}
		if !types.Identical(a.Dyn, b.Dyn) {
			return one(st, tFalse)
		}
		return one(st, deepEq(st.scalar(a.V, a.Dyn), st.scalar(b.V, b.Dyn)))
	}
}
