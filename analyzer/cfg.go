package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	in     map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	loops  map[*ssa.BasicBlock]*Loop // by header
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func info(f *ssa.Function) *fnInfo {
	if i, ok := fnInfos[f]; ok {
		return i
	}
	i := &fnInfo{loops: map[*ssa.BasicBlock]*Loop{}}
	fnInfos[f] = i
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.loops[s]
				if l == nil {
					l = &Loop{header: s, in: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.in[x] {
						continue
					}
					l.in[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	// liveness of SSA values
	i.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		i.liveIn[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := len(f.Blocks) - 1; k >= 0; k-- {
			b := f.Blocks[k]
			in := liveBefore(i, b, 0)
			if len(in) != len(i.liveIn[b]) {
				i.liveIn[b] = in
				ch = true
			}
		}
	}
	return i
}

func liveOut(i *fnInfo, b *ssa.BasicBlock) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range i.liveIn[s] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
				continue
			}
			r[v] = true
		}
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				r[ph.Edges[pi]] = true
			}
		}
	}
	return r
}

// liveBefore gives the values live before instruction idx of b. Phis of b
// that are used count as live at the start of b (they are evaluated on edges).
func liveBefore(i *fnInfo, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	r := liveOut(i, b)
	for k := len(b.Instrs) - 1; k >= idx; k-- {
		in := b.Instrs[k]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			delete(r, v)
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				r[*op] = true
			}
		}
	}
	for v := range r {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			delete(r, v)
		}
	}
	return r
}

func liveAfterInstr(in ssa.Instruction) map[ssa.Value]bool {
	b := in.Block()
	i := info(b.Parent())
	for k, x := range b.Instrs {
		if x == in {
			r := liveBefore(i, b, k+1)
			if v, ok := in.(ssa.Value); ok {
				delete(r, v)
			}
			// deferred closures and their operands stay live
			return r
		}
	}
	return nil
}

func sortValues(m map[ssa.Value]bool) []ssa.Value {
	r := make([]ssa.Value, 0, len(m))
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Name() != r[j].Name() {
			return r[i].Name() < r[j].Name()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}
