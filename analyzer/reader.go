package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) readFull(st *State, in ssa.CallInstruction, res ssa.Value, args []V) []*State {
	return e.setFresh(st, res, in.Common().Signature().Results(), "readfull")
}

func (e *Engine) readerOp(st *State, in ssa.CallInstruction, res ssa.Value, r *Term, m *types.Func, args []V) []*State {
	return e.setFresh(st, res, m.Type().(*types.Signature).Results(), m.Name())
}
