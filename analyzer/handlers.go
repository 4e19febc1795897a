package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Handler is a registered command.
type Handler struct {
	name string
	fn   *ssa.Function
	pos  token.Pos
}

// tableOf finds the command table: the package-level map from names to
// functions taking a command.
func (p *Prog) commandTable() *ssa.Global {
	sp := p.pkg("redis")
	if sp == nil {
		return nil
	}
	var best *ssa.Global
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g, ok := sp.Members[n].(*ssa.Global)
		if !ok {
			continue
		}
		m, ok := derefType(g.Type()).Underlying().(*types.Map)
		if !ok || !isBasic(m.Key(), types.IsString) {
			continue
		}
		if s, ok := m.Elem().Underlying().(*types.Signature); ok && s.Params().Len() == 1 && s.Results().Len() == 2 {
			if best == nil || n == "implementedCommands" {
				best = g
			}
		}
	}
	return best
}

type registration struct {
	name string
	fn   *ssa.Function
	pos  token.Pos
	in   *ssa.Function
}

func (p *Prog) registrations() (regs []registration, odd []token.Pos) {
	g := p.commandTable()
	if g == nil {
		return nil, nil
	}
	fromTable := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == g
	}
	// the literal the table is initialised with
	lits := map[ssa.Value]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					lits[s.Val] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !(fromTable(mu.Map) || lits[mu.Map]) {
					continue
				}
				k, ok1 := mu.Key.(*ssa.Const)
				fv := mu.Value
				for {
					if c, ok := fv.(*ssa.ChangeType); ok {
						fv = c.X
						continue
					}
					if c, ok := fv.(*ssa.MakeClosure); ok {
						fv = c.Fn
						continue
					}
					break
				}
				fn, ok2 := fv.(*ssa.Function)
				if !ok1 || !ok2 {
					odd = append(odd, mu.Pos())
					continue
				}
				regs = append(regs, registration{constant.StringVal(k.Value), fn, mu.Pos(), f})
			}
		}
	}
	sort.Slice(regs, func(i, j int) bool { return regs[i].name < regs[j].name })
	return
}

// runHandler analyses one command handler on an arbitrary request and an
// arbitrary well-formed keyspace.
func (e *Engine) runHandler(name string, fn *ssa.Function) []*State {
	st := newState()
	ct := derefType(fn.Params[0].Type())
	c := st.newObj(kStruct, ct, "command", token.NoPos)
	s, _ := ct.Underlying().(*types.Struct)
	args := st.newObj(kSlice, types.NewSlice(types.Typ[types.String]), "args", token.NoPos)
	args.args = true
	nargs := mk("isym", "nargs")
	nargs.nonneg = true
	args.n = termLin(nargs)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case isBasic(f.Type(), types.IsString):
			c.f[f.Name()] = VTerm{strTerm(name)}
		case isStrSlice(f.Type()):
			c.f[f.Name()] = VSlice{args.id, linInt(0), args.n}
		default:
			c.f[f.Name()] = e.zero(f.Type())
		}
	}
	e.newKS(st)
	st.tag = map[string]V{"args": VSlice{args.id, linInt(0), args.n}}
	return e.call(st, fn, []V{VPtr{o: c.id}}, nil, nil)
}

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isBasic(s.Elem(), types.IsString)
}
