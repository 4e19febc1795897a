package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// launch is a place where a function starts to run beside its starter.
type launch struct {
	from *ssa.Function
	at   ssa.Instruction
	body *ssa.Function
}

// threads is who calls what, and who starts what.
type threads struct {
	calls    map[*ssa.Function][]*ssa.Function
	launches map[*ssa.Function][]launch
	all      []launch
}

// callbacks that run before the call that takes them returns
var syncCallback = []string{"sort.", "slices.", "strings.", "bytes.", "(*sync.Once).", "(*sync.Map).", "(*sync.Pool).", "maps.", "regexp.", "flag.", "log."}

func (c *ctx) threads(x *execRoles) *threads {
	p := c.p
	t := &threads{calls: map[*ssa.Function][]*ssa.Function{}, launches: map[*ssa.Function][]launch{}}
	f0 := newFlow(c)
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					cc := ci.Common()
					_, isGo := in.(*ssa.Go)
					if cc.IsInvoke() {
						if m := f0.onlyImpl(cc); m != nil {
							if isGo {
								t.add(g, in, m)
							} else {
								t.calls[g] = append(t.calls[g], m)
							}
						}
					}
					if s := cc.StaticCallee(); s != nil {
						if isGo {
							t.add(g, in, s)
						} else {
							t.calls[g] = append(t.calls[g], s)
						}
					}
				}
				// function values
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					var fn *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						fn = v
					case *ssa.MakeClosure:
						fn, _ = v.Fn.(*ssa.Function)
					}
					if fn == nil || fn.Blocks == nil {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue // counted where the closure is used
					}
					if isCall && ci.Common().Value == *op && !ci.Common().IsInvoke() {
						continue // counted as callee
					}
					if x.isHandlerSig(fn.Signature) && !isCall {
						continue
					}
					if isCall {
						name := ""
						ext := true
						if s := ci.Common().StaticCallee(); s != nil {
							name = s.String()
							ext = !f0.inModule(s)
						} else if ci.Common().IsInvoke() {
							name = "invoke"
						} else {
							ext = false
						}
						sync := false
						for _, q := range syncCallback {
							sync = sync || strings.HasPrefix(name, q)
						}
						if ext && !sync {
							t.add(g, in, fn)
							continue
						}
					}
					t.calls[g] = append(t.calls[g], fn)
				}
			}
		}
	}
	return t
}

func (t *threads) add(from *ssa.Function, at ssa.Instruction, body *ssa.Function) {
	l := launch{from, at, body}
	t.launches[from] = append(t.launches[from], l)
	t.all = append(t.all, l)
}

// reach is what runs when g is called, started goroutines excluded.
func (t *threads) reach(g *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || m[g] {
			return
		}
		m[g] = true
		for _, h := range t.calls[g] {
			walk(h)
		}
	}
	walk(g)
	return m
}

// onlyExecutor: implementations run on the executor's goroutine only, and stored data is touched by implementations only.
func (c *ctx) onlyExecutor(x *execRoles, r *poolRun) {
	p := c.p
	t := c.threads(x)
	// the functions that run commands, and those that start something that does
	exec := map[*ssa.Function]string{}
	handlers := map[*ssa.Function]bool{}
	regs, _ := p.registrations()
	for _, g := range regs {
		handlers[g.fn] = true
	}
	for _, d := range x.dyn {
		exec[d.Parent()] = "calls an implementation"
	}
	for g, hs := range t.calls {
		for _, h := range hs {
			if handlers[h] && !handlers[g] {
				exec[g] = "calls " + fnName(h)
			}
		}
	}
	isWorker := func(l launch) bool { return r.body[l.body] }
	for again := true; again; {
		again = false
		for _, l := range t.all {
			if isWorker(l) || exec[l.from] != "" {
				continue
			}
			for g := range t.reach(l.body) {
				if exec[g] != "" {
					exec[l.from] = "starts " + fnName(l.body)
					again = true
					break
				}
			}
		}
	}
	// stored data
	touches := map[*ssa.Function]*ssa.Global{}
	ds := p.pkg("datastruct")
	for _, g := range p.Funcs {
		if g.Name() == "init" || strings.HasPrefix(g.Name(), "init#") {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					v, ok := (*op).(*ssa.Global)
					if !ok || v.Pkg != ds {
						continue
					}
					switch derefType(v.Type()).Underlying().(type) {
					case *types.Map, *types.Pointer, *types.Slice:
						touches[g] = v
					}
				}
			}
		}
	}
	if len(touches) == 0 {
		c.undecided("package variable with the stored data not found")
	}
	c.count("functions that touch stored data directly", len(touches))
	// entries that are not started by anything else
	type entry struct {
		fn   *ssa.Function
		what string
		main bool
	}
	var es []entry
	callers := map[*ssa.Function]int{}
	for _, hs := range t.calls {
		for _, h := range hs {
			callers[h]++
		}
	}
	for _, l := range t.all {
		callers[l.body]++
	}
	for _, g := range p.Funcs {
		if g.Pkg == nil || handlers[g] || g.Parent() != nil {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath), "/")
		exported := g.Object() != nil && g.Object().Exported()
		switch {
		case rel == "cmd/server" && g.Name() == "main":
			es = append(es, entry{g, "the main goroutine", true})
		case (g.Name() == "init" || strings.HasPrefix(g.Name(), "init#")) && rel != "datastruct":
			es = append(es, entry{g, "package initialisation", true})
		case strings.HasPrefix(rel, "server") && exported && callers[g] == 0:
			es = append(es, entry{g, "connection code", false})
		case strings.HasPrefix(rel, "event") && exported && callers[g] == 0 && g != x.newPool:
			es = append(es, entry{g, "code outside the executor", false})
		}
	}
	for _, e := range es {
		c.obl()
		for g := range t.reach(e.fn) {
			if why := exec[g]; why != "" && !e.main {
				c.bad("outside-executor", p.pos(g.Pos()), "%s (%s) reaches %s, which %s, without the executor", e.what, fnName(e.fn), fnName(g), why)
			}
			if v := touches[g]; v != nil && !handlers[g] {
				if e.main {
					c.undecided("%s reaches %s, which uses %s", e.what, fnName(g), v.Name())
				} else {
					c.bad("data-outside", p.pos(g.Pos()), "%s (%s) reaches %s, which uses the stored data (%s)", e.what, fnName(e.fn), fnName(g), v.Name())
				}
			}
		}
	}
	c.count("entry points", len(es))
	for _, l := range t.all {
		c.obl()
		c.count("places where something is started to run concurrently", 1)
		in := t.reach(l.body)
		waits := waitsFor(l.from)
		for g := range in {
			if v := touches[g]; v != nil {
				if waits {
					c.undecided("%s starts %s, which uses the stored data, and waits", fnName(l.from), fnName(l.body))
				} else {
					c.bad("data-outside", p.pos(l.at.Pos()), "%s starts %s beside the running command, which reaches %s and uses the stored data (%s)", fnName(l.from), fnName(l.body), fnName(g), v.Name())
				}
			}
		}
		if isWorker(l) {
			for g := range in {
				if v := touches[g]; v != nil {
					c.bad("data-outside", p.pos(g.Pos()), "the executor's own code reaches %s, which uses the stored data", fnName(g))
				}
			}
		}
		if !isWorker(l) {
			for g := range in {
				if why := exec[g]; why != "" && exec[l.from] == "" {
					c.bad("outside-executor", p.pos(l.at.Pos()), "%s reaches %s, which %s, without the executor", fnName(l.body), fnName(g), why)
				}
			}
		}
	}
	// one executor
	n := 0
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != x.newPool {
					continue
				}
				n++
				c.obl()
				if n > 1 {
					c.bad("workers", p.pos(in.Pos()), "a second executor is made, so commands of the two run concurrently")
				}
				for h, body := range newFlow(c).loopsOf(g).body {
					_ = h
					if body[b] {
						c.bad("workers", p.pos(in.Pos()), "executors are made in a loop")
					}
				}
			}
		}
	}
	c.preload(x)
}

func waitsFor(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if s := x.Call.StaticCallee(); s != nil && s.String() == "(*sync.WaitGroup).Wait" {
					return true
				}
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return true
				}
			}
		}
	}
	return false
}

// preload: what main runs before the server listens is finished by then.
func (c *ctx) preload(x *execRoles) {
	sp := c.p.pkg("cmd/server")
	if sp == nil || sp.Func("main") == nil {
		c.undecided("main not found")
		return
	}
	r := c.worker(x)
	f := r.f
	old := f.onCall
	served := 0
	r.onRound = func(*fst, string) {}
	r.onStart = func(st *fst, in ssa.Instruction) {
		c.obl()
		if st.m["run"] == "1" {
			c.bad("overlap", f.pos(in), "a command is started although the previous one may still be running%s", path(st))
		}
		if st.m["serving"] == "1" {
			c.bad("overlap", f.pos(in), "a command is run outside the executor while the server is running")
		}
	}
	f.onCall = func(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
		if strings.HasSuffix(name, "gnet.Serve") || name == "net.Listen" {
			served++
			c.obl()
			if st.m["run"] == "1" {
				c.bad("overlap", f.pos(in), "the server starts while a command started before may still be running%s", path(st))
			}
			st.m["serving"] = "1"
		}
		return old(st, in, name, args)
	}
	c.guard(f, "main", func() {
		ends := false
		for _, o := range f.exec(newFst(), sp.Func("main"), nil, nil) {
			ends = ends || o.st.panic == ""
		}
		if served == 0 && ends {
			c.undecided("main does not reach the server's start on an analysed path")
		}
	})
}
