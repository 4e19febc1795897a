package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shutdown (C07): what Stop does against requests that are being added or executed.
func shutdown(c *ctx) {
	x := c.exec()
	r := c.worker(x)
	f := r.f
	c.guard(f, "shutdown of the executor", func() {
		ends := 0
		r.onRound = func(*fst, string) {}
		r.onEnd = func(t *ftrace) {
			c.obl()
			ends++
			if t.crash != "" {
				c.bad("worker-end", f.p.pos(x.newPool.Pos()), "the executor's goroutine ends by %s", t.crash)
				return
			}
			st := newFst()
			st.facts = t.facts
			if ev := t.m["ev"]; ev != "" {
				if b, known := f.truth(st, r.oks[ev]); !known || b {
					c.bad("worker-end", f.p.pos(x.newPool.Pos()), "the executor's goroutine may end although accepted requests are left in the queue")
				}
			} else {
				c.bad("worker-end", f.p.pos(x.newPool.Pos()), "the executor's goroutine may end without having seen the queue closed and empty")
			}
			add, done := t.m["wgadd"], t.m["wgdone"]
			if add != done {
				c.bad("worker-end", f.p.pos(x.newPool.Pos()), "the worker is announced to the wait group %d times and ends with Done %d times", strings.Count(add, ","), strings.Count(done, ","))
			}
		}
		if !r.build(c) {
			return
		}
		if ends == 0 {
			c.bad("worker-end", f.p.pos(x.newPool.Pos()), "the executor's goroutine never ends")
			c.obl()
		}
		if r.pool == nil || len(r.outs) == 0 {
			return
		}
		c.stopMethods(x, r)
	})
	c.stopCallers(x)
	if x.handle != nil {
		c.request(x, func(f *flow, st *fst, rec, o *fv) {
			if st.m["sent"] != "" {
				return
			}
			n := f.cmp(token.LSS, f.num(0), f.length(st, f.load(st, nil, f.recElements(x, rec), types.NewSlice(types.Typ[types.String]))))
			if b, known := f.truth(st, n); known && !b {
				return
			}
			c.obl()
			if o.isNil() || emptyBytes(f, st, o) {
				c.bad("refused-unanswered", f.p.pos(x.handle.Pos()), "a request that the stopped executor refuses gets no reply%s", path(st))
				return
			}
			if o.op == "encoded" && f.errorOf(st, o.a[0]) == nil && o.a[0].op == "obj" {
				c.bad("refused-unanswered", f.p.pos(x.handle.Pos()), "a request that the stopped executor refuses is not answered by an error%s", path(st))
			}
		})
	}
}

func locksHeld(st *fst) (ids []string, excl bool) {
	for k, v := range st.m {
		if strings.HasPrefix(k, "lock:") {
			ids = append(ids, k)
			excl = excl || v == "Lock"
		}
	}
	sort.Strings(ids)
	return
}

func (c *ctx) stopMethods(x *execRoles, r *poolRun) {
	f := r.f
	if x.add == nil || x.stop == nil {
		c.undecided("methods that add an event and stop the executor not found")
		return
	}
	start := func() *fst {
		st := r.outs[0].st.clone()
		add := st.m["wgadd"]
		st.m = map[string]string{"~wg": add}
		st.hist = nil
		f.share(st, r.pool)
		st.local = map[*fv]bool{}
		st.gor = nil
		f.sync(st)
		return st
	}
	isQ := func(ch *fv) bool {
		if r.evch[ch] {
			return true
		}
		return false
	}
	flagOf := func(a *fv) bool {
		return a.op == "faddr" && a.root() == r.pool && isBasic(a.t, types.IsBoolean)
	}
	oldCall := f.onCall
	var once *fv
	f.onCall = func(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
		switch name {
		case "(*sync.WaitGroup).Wait":
			if strings.Contains(st.m["~wg"], fmt.Sprintf("%d,", args[0].id)) {
				st.m["waited"] = "1"
			}
			f.sync(st)
			return one(st, f.tup()), true
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
			k := "lock:" + fmt.Sprint(f.mk("lock", "", nil, args[0]).id)
			if st.m[k] != "" && (st.m[k] == "Lock" || strings.HasSuffix(name, ".Lock")) {
				c.bad("deadlock", f.pos(in), "a lock is taken that the same path already holds%s", path(st))
			}
		case "(*sync.Once).Do":
			q := st.clone()
			once = args[0]
			q.m["once"] = "1"
			var out []fout
			for _, o := range f.call(q, in, args[1], nil) {
				delete(o.st.m, "once")
				o.st.m["oncedone"] = "1"
				out = append(out, fout{o.st, f.tup()})
			}
			// somebody else did it
			st.m["oncedone"] = "1"
			return append(out, fout{st, f.tup()}), true
		}
		return oldCall(st, in, name, args)
	}
	_ = once
	// Stop
	closes := 0
	flags := map[*fv]bool{}
	f.onRecv, f.onSpawn, f.onDyn, f.onBack = nil, nil, nil, nil
	f.onSend = nil
	f.onStore = func(st *fst, in ssa.Instruction, a, v *fv) {
		if !flagOf(a) {
			return
		}
		b, ok := v.boolean()
		if !ok || !b {
			return
		}
		held, excl := locksHeld(st)
		cur := f.load(st, in, a, a.t)
		if t, known := f.truth(st, cur); known && !t && excl {
			st.m["first"] = strings.Join(held, ",")
		}
		if excl {
			st.m["flag"] = fmt.Sprint(a.id)
			flags[a] = true
		}
	}
	f.onClose = func(st *fst, in ssa.Instruction, ch *fv) {
		if !isQ(ch) {
			return
		}
		closes++
		c.obl()
		if st.m["first"] == "" && st.m["once"] == "" {
			c.bad("stop-twice", f.pos(in), "the queue may be closed a second time, which panics%s", path(st))
		}
		if st.m["flag"] == "" {
			c.bad("close-race", f.pos(in), "the queue is closed before it is marked, under the lock, as stopped%s", path(st))
		}
		st.note("%s: closes the queue", f.pos(in))
	}
	f.onCrash = func(st *fst, in ssa.Instruction, why string) {
		if strings.HasPrefix(why, "send on a channel") {
			c.bad("add-panic", f.pos(in), "adding an event while the executor stops panics: %s%s", why, path(st))
		}
	}
	outs := f.exec(start(), x.stop, []*fv{r.pool}, nil)
	for _, o := range outs {
		c.obl()
		if o.st.panic != "" {
			c.bad("stop-panic", f.pos(o.st.pos), "stopping the executor panics: %s%s", o.st.panic, path(o.st))
			continue
		}
		if held, _ := locksHeld(o.st); len(held) > 0 {
			c.bad("deadlock", f.p.pos(x.stop.Pos()), "stopping the executor leaves a lock held%s", path(o.st))
		}
		if o.st.m["waited"] == "" {
			c.bad("no-wait", f.p.pos(x.stop.Pos()), "stopping the executor returns without waiting for the worker: accepted requests may be lost%s", path(o.st))
		}
	}
	if closes == 0 {
		c.bad("no-close", f.p.pos(x.stop.Pos()), "stopping the executor never closes the queue, so the worker does not end")
	}
	// adding an event
	f.onClose, f.onStore = nil, nil
	ev := f.sym("event")
	ev.t = types.NewPointer(x.ev)
	protected := func(st *fst) bool {
		held, _ := locksHeld(st)
		if len(held) == 0 {
			return false
		}
		for a := range flags {
			if t, known := f.truth(st, f.load(st, nil, a, a.t)); known && !t {
				return true
			}
		}
		return false
	}
	f.sendPanics = func(st *fst, in ssa.Instruction, ch *fv) bool {
		return isQ(ch) && !protected(st)
	}
	f.onSend = func(st *fst, in ssa.Instruction, ch, v *fv) {
		if !isQ(ch) {
			return
		}
		c.obl()
		st.m["sent"] += "1"
		if v != ev {
			c.bad("wrong-event", f.pos(in), "another event than the given one is queued: %s", v)
		}
	}
	outs = f.exec(start(), x.add, []*fv{r.pool, ev}, nil)
	f.sendPanics = nil
	for _, o := range outs {
		c.obl()
		if o.st.panic != "" {
			c.bad("add-panic", f.pos(o.st.pos), "adding an event while the executor stops panics: %s%s", o.st.panic, path(o.st))
			continue
		}
		if held, _ := locksHeld(o.st); len(held) > 0 {
			c.bad("deadlock", f.p.pos(x.add.Pos()), "adding an event leaves a lock held, so the executor cannot be stopped%s", path(o.st))
		}
		if len(o.res.a) != 1 || !isBasic(x.add.Signature.Results().At(0).Type(), types.IsBoolean) {
			continue
		}
		res, known := f.truth(o.st, o.res.a[0])
		switch {
		case len(o.st.m["sent"]) > 1:
			c.bad("added-twice", f.p.pos(x.add.Pos()), "an event is queued twice%s", path(o.st))
		case o.st.m["sent"] == "1" && (!known || !res):
			c.bad("add-result", f.p.pos(x.add.Pos()), "an event that was queued may be reported as refused%s", path(o.st))
		case o.st.m["sent"] == "" && (!known || res):
			c.bad("add-result", f.p.pos(x.add.Pos()), "an event that was not queued may be reported as accepted%s", path(o.st))
		case o.st.m["sent"] == "":
			stopped := false
			for a := range flags {
				if t, known := f.truth(o.st, f.load(o.st, nil, a, a.t)); known && t {
					stopped = true
				}
				for k, v := range o.st.facts {
					if (k.op == "ld" || k.op == "shared") && k.a[0] == a && v {
						stopped = true
					}
				}
			}
			if !stopped && len(flags) > 0 && !strings.Contains(strings.Join(o.st.hist, " "), "closed channel") {
				c.bad("refused-running", f.p.pos(x.add.Pos()), "an event may be refused although the executor is not stopped%s", path(o.st))
			}
		}
	}
}

// stopCallers: stopping the server reaches the executor.
func (c *ctx) stopCallers(x *execRoles) {
	p := c.p
	if x.stop == nil {
		return
	}
	must := func(fn *ssa.Function, what string, hit func(name string, g *ssa.Function) bool) {
		f := newFlow(c)
		f.stableCells()
		f.onCall = func(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
			if hit(name, in.Common().StaticCallee()) {
				st.m["hit"] = "1"
				return one(st, f.tup(f.fresh(st, in, "call", nil))), true
			}
			return nil, false
		}
		c.guard(f, fnName(fn), func() {
			var args []*fv
			for i, a := range fn.Params {
				v := f.sym(fmt.Sprintf("arg%d", i))
				v.t = a.Type()
				args = append(args, v)
				st := newFst()
				_ = st
			}
			st := newFst()
			for i, a := range args {
				if _, ok := fn.Params[i].Type().Underlying().(*types.Pointer); ok {
					st.facts[f.cmp(token.EQL, a, f.null())] = false
				}
			}
			for _, o := range f.exec(st, fn, args, nil) {
				c.obl()
				if o.st.m["hit"] == "" {
					c.bad("not-stopped", p.pos(fn.Pos()), "%s does not %s on every path%s", fnName(fn), what, path(o.st))
				}
			}
		})
	}
	isStop := func(name string, g *ssa.Function) bool { return g == x.stop }
	n := 0
	for _, g := range p.Funcs {
		if g.Pkg == nil || g.Parent() != nil || g.Synthetic != "" {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath), "/")
		switch {
		case rel == "event" && g.Name() == "Stop" && g.Signature.Recv() == nil:
			n++
			must(g, "stop the executor", isStop)
		case strings.HasPrefix(rel, "server") && g.Name() == "OnShutdown":
			n++
			must(g, "stop the executor", isStop)
		case rel == "server/v2" && g.Name() == "Stop" && g.Signature.Recv() != nil:
			n++
			must(g, "stop the network engine", func(name string, g *ssa.Function) bool { return strings.HasSuffix(name, "gnet.Stop") })
		case rel == "server/v1" && g.Name() == "Stop" && g.Signature.Recv() != nil:
			n++
			must(g, "stop the executor", isStop)
		}
	}
	c.count("functions that stop something", n)
	hasShutdown := false
	for _, g := range p.Funcs {
		if g.Name() == "OnShutdown" && g.Synthetic == "" && g.Pkg == p.pkg("server/v2") {
			hasShutdown = true
		}
	}
	if p.pkg("server/v2") != nil {
		c.obl()
		if !hasShutdown {
			c.bad("not-stopped", "server/v2", "the network engine's shutdown does not stop the executor: there is no OnShutdown")
		}
	}
}
