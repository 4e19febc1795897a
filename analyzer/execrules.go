package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about how requests get executed: one worker, one command at a time, every
// request answered, orderly shutdown.

type execRoles struct {
	ev, rec, cmd, rsp, pool *types.Named
	table                   *ssa.Global
	newPool                 *ssa.Function   // makes a pool and starts its worker
	workers                 []*ssa.Function // goroutine bodies that take events
	handle                  *ssa.Function   // request -> reply bytes
	add, stop               *ssa.Function   // methods of the pool
	dyn                     []ssa.CallInstruction
}

func (c *ctx) exec() *execRoles {
	p := c.p
	x := &execRoles{ev: p.namedType("event", "Event"), rec: p.namedType("protocol", "Receive"), cmd: p.namedType("redis", "Command"),
		rsp: p.namedType("protocol", "Response"), pool: p.namedType("event", "EventPool"), table: p.commandTable()}
	if x.ev == nil || x.rec == nil || x.cmd == nil || x.rsp == nil || x.table == nil {
		panic("event, request, command or response type not found")
	}
	for _, f := range p.Funcs {
		if f.Pkg == nil {
			continue
		}
		in := f.Pkg == p.pkg("event")
		sig := f.Signature
		if in && sig.Recv() == nil && sig.Params().Len() == 1 && ptrTo(sig.Params().At(0).Type(), x.rec) && sig.Results().Len() == 1 && f.Object() != nil && f.Object().Exported() {
			if s, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok && isBasic(s.Elem(), types.IsInteger) {
				x.handle = f
			}
		}
		if in && x.pool != nil && sig.Recv() != nil && ptrTo(sig.Recv().Type(), x.pool) && f.Object() != nil && f.Object().Exported() {
			switch f.Name() {
			case "AddEvent":
				x.add = f
			case "Stop":
				x.stop = f
			}
		}
		if in && x.pool != nil && sig.Recv() == nil && sig.Results().Len() == 1 && ptrTo(sig.Results().At(0).Type(), x.pool) && f.Parent() == nil && sig.Params().Len() == 0 {
			if f.Name() == "NewEventPool" || x.newPool == nil {
				x.newPool = f
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
					if x.isHandlerSig(ci.Common().Signature()) {
						x.dyn = append(x.dyn, ci)
					}
				}
			}
		}
	}
	return x
}

func (x *execRoles) isHandlerSig(s *types.Signature) bool {
	return s.Params().Len() == 1 && s.Results().Len() == 2 && ptrTo(s.Params().At(0).Type(), x.cmd) && ptrTo(s.Results().At(0).Type(), x.rsp)
}

func (x *execRoles) isEvChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && ptrTo(ch.Elem(), x.ev)
}

// guard runs an analysis; one that cannot be completed is noted.
func (c *ctx) guard(f *flow, what string, g func()) {
	defer func() {
		c.count("functions interpreted", len(f.funcs))
		c.count("abstract steps", f.steps)
		for _, s := range uniq(f.stuck) {
			c.undecided("%s: %s", what, s)
		}
		if x := recover(); x != nil {
			if s, ok := x.(flowStop); ok {
				c.undecided("%s: %s", what, s.why)
				return
			}
			panic(x)
		}
	}()
	g()
}

func uniq(a []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range a {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	sort.Strings(r)
	return r
}

func (f *flow) stableCells() {
	f.stable = func(a *fv) bool {
		if a.op == "faddr" {
			k := f.p.fieldStores(a.own, a.s)
			return k == 0 || k == 1
		}
		return a.op == "text" || a.op == "cap" || a.op == "lenof"
	}
}

// handlerCall models the call of a command's implementation: any outcome is possible.
func (f *flow) handlerCall(st *fst, in ssa.CallInstruction) []fout {
	st.m["g:h"] = "1"
	st.m["g:ran"] = "1"
	q := st.clone()
	q.panic, q.pos = "panic in the command", in
	q.m["g:hdone"] = "1"
	q.note("%s: the command panics", f.pos(in))
	st.m["g:hdone"] = "1"
	rs := f.results(st, in, in.Common().Signature(), nil)
	return []fout{{q, nil}, {st, rs}}
}

func dynFromTable(v *fv) (m, k *fv, ok bool) {
	if v.op == "lookup" {
		return v.a[0], v.a[1], true
	}
	return nil, nil, false
}

// poolRun is the interpretation of the pool's constructor, its worker, and its methods.
type poolRun struct {
	x       *execRoles
	f       *flow
	starts  int
	outs    []fout
	pool    *fv
	evch    map[*fv]bool
	oks     map[string]*fv
	vals    map[string]*fv
	onDone  func(st *fst, in ssa.Instruction, rsp *fv, known bool)
	onStart func(st *fst, in ssa.Instruction)
	onDyn   func(st *fst, in ssa.CallInstruction, h *fv, args []*fv)
	onStuck func(st *fst, in ssa.Instruction)
	onDie   func(st *fst, in ssa.Instruction, why string)
	onEnd   func(tr *ftrace)
	onRound func(st *fst, at string)
	body    map[*ssa.Function]bool
	isWork  bool
}

// worker interprets the pool constructor with the worker's goroutine.
func (c *ctx) worker(x *execRoles) *poolRun {
	f := newFlow(c)
	f.stableCells()
	r := &poolRun{x: x, f: f, evch: map[*fv]bool{}, oks: map[string]*fv{}, vals: map[string]*fv{}, body: map[*ssa.Function]bool{}}
	depth := 0
	f.onRecv = func(st *fst, in ssa.Instruction, ch, v, ok *fv) {
		var t types.Type
		switch y := in.(type) {
		case *ssa.UnOp:
			t = y.X.Type()
		case *ssa.Select:
			for _, s := range y.States {
				if x.isEvChan(s.Chan.Type()) && f.sameChan(st, ch, s) {
					t = s.Chan.Type()
				}
			}
		}
		if t != nil && x.isEvChan(t) {
			r.evch[ch] = true
			for _, fn := range f.stack {
				r.body[fn] = true
			}
			if r.onStart != nil && st.m["ev"] != "" && st.m["evdone"] == "" {
				r.onRound(st, f.pos(in))
			}
			r.vals[fmt.Sprint(v.id)], r.oks[fmt.Sprint(v.id)] = v, ok
			st.m["ev"] = fmt.Sprint(v.id)
			delete(st.m, "evdone")
			delete(st.m, "g:h")
			delete(st.m, "g:hdone")
			st.note("%s: takes an event", f.pos(in))
			return
		}
		// the result of a command
		if gr, ok := st.m["~gr"]; ok {
			if gr != "running" {
				delete(st.m, "run")
			}
			delete(st.m, "~gr")
		}
	}
	f.onGo = func(st *fst, in ssa.Instruction, g *fv, args []*fv) bool {
		depth++
		return false
	}
	f.onSpawn = func(st *fst, in ssa.Instruction, g *fv, outs []*ftrace) {
		works, runs := false, false
		for _, t := range outs {
			if t.m["ev"] != "" && st.m["ev"] == "" {
				works = true
			}
			if t.m["g:h"] == "1" && st.m["g:h"] != "1" || t.m["g:ran"] == "1" && st.m["g:ran"] != "1" {
				runs = true
			}
		}
		if g.fn != nil && r.body[g.fn] && st.m["ev"] == "" {
			works = true
		}
		if works {
			switch st.m["workers"] {
			case "":
				st.m["workers"] = "1"
			default:
				st.m["workers"] = "many"
			}
			st.m["~workerAt"] = f.pos(in)
			if r.onEnd != nil {
				for _, t := range outs {
					r.onEnd(t)
				}
			}
			return
		}
		if runs {
			if r.onStart != nil {
				r.onStart(st, in)
			}
			st.m["run"] = "1"
			st.note("%s: starts the command in a goroutine", f.pos(in))
		}
	}
	f.onDyn = func(st *fst, in ssa.CallInstruction, h *fv, args []*fv) ([]fout, bool) {
		if !x.isHandlerSig(in.Common().Signature()) {
			return nil, false
		}
		if r.onDyn != nil {
			r.onDyn(st, in, h, args)
		}
		if st.m["run"] == "1" && r.onStart != nil {
			r.onStart(st, in)
		}
		return f.handlerCall(st, in), true
	}
	f.onCall = func(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
		switch name {
		case "(*sync.WaitGroup).Add":
			st.m["wgadd"] += fmt.Sprintf("%d,", args[0].id)
			if len(st.m["wgadd"]) > 40 {
				st.m["wgadd"] = "many"
			}
			return one(st, f.tup()), true
		case "(*sync.WaitGroup).Done":
			if len(st.m["wgdone"]) > 20 {
				st.m["wgdone"] = "many"
			} else {
				st.m["wgdone"] += fmt.Sprintf("%d,", args[0].id)
			}
			return one(st, f.tup()), true
		}
		// an implementation may also be reached without the table
		if g := in.Common().StaticCallee(); g != nil && x.isHandlerSig(g.Signature) && g.Signature.Recv() == nil && g.Pkg == c.p.pkg("redis") {
			return f.handlerCall(st, in), true
		}
		return nil, false
	}
	f.onBlock = func(st *fst, in ssa.Instruction, ch *fv) {
		if r.onStuck != nil {
			r.onStuck(st, in)
		}
	}
	f.onCrash = func(st *fst, in ssa.Instruction, why string) {
		if r.onDie != nil {
			r.onDie(st, in, why)
		}
	}
	complete := func(st *fst, in ssa.Instruction, ch *fv) {
		ev := st.m["ev"]
		if ev == "" {
			return
		}
		e := r.vals[ev]
		if ch.op == "ld" && ch.a[0].op == "faddr" && ch.a[0].a[0] == e {
			var rsp *fv
			for a, v := range st.heap {
				if a.op == "faddr" && a.a[0] == e && v != nil {
					if i := fieldIndex(a.own, a.s); i >= 0 && ptrTo(a.own.Field(i).Type(), x.rsp) {
						rsp = v
					}
				}
			}
			known := rsp != nil && f.nonNil(st, rsp)
			if r.onDone != nil {
				r.onDone(st, in, rsp, known)
			}
			st.m["evdone"] = "1"
		}
	}
	f.onClose = complete
	f.onSend = func(st *fst, in ssa.Instruction, ch, v *fv) {
		complete(st, in, ch)
	}
	f.onBack = func(st *fst, fn *ssa.Function, h *ssa.BasicBlock, env, old map[ssa.Value]*fv) {
		if st.m["ev"] != "" && r.onRound != nil {
			if okv := r.oks[st.m["ev"]]; okv != nil {
				if b, known := f.truth(st, okv); known && !b {
					return
				}
			}
			r.onRound(st, f.p.pos(fn.Pos()))
		}
		// a new round knows nothing about the previous event
		for _, k := range []string{"ev", "evdone", "g:h", "g:hdone"} {
			delete(st.m, k)
		}
	}
	return r
}

func (f *flow) sameChan(st *fst, ch *fv, s *ssa.SelectState) bool { return true }

func fieldIndex(s *types.Struct, n string) int {
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

// build runs the constructor; false if there is none.
func (r *poolRun) build(c *ctx) bool {
	if r.x.newPool == nil {
		c.undecided("constructor of the executor not found")
		return false
	}
	r.outs = r.f.exec(newFst(), r.x.newPool, nil, nil)
	for _, o := range r.outs {
		if o.res != nil && len(o.res.a) == 1 {
			r.pool = o.res.a[0]
		}
	}
	return len(r.outs) > 0
}

// commandOutcome (C06): whatever a command does, its event is completed with a reply.
func commandOutcome(c *ctx) {
	x := c.exec()
	r := c.worker(x)
	f := r.f
	c.guard(f, "executor", func() {
		n := 0
		r.onDone = func(st *fst, in ssa.Instruction, rsp *fv, known bool) {
			c.obl()
			n++
			if !known {
				c.bad("no-reply", f.pos(in), "an event is completed without a reply: its reply is %s%s", rsp, path(st))
			}
		}
		r.onRound = func(st *fst, at string) {
			c.obl()
			if st.m["ev"] != "" && st.m["evdone"] == "" {
				c.bad("unanswered", at, "an event taken by the executor is never completed%s", path(st))
			}
		}
		r.onStuck = func(st *fst, in ssa.Instruction) {
			c.obl()
			c.bad("stuck", f.pos(in), "waits forever for a channel nothing is sent to%s", path(st))
		}
		r.onDie = func(st *fst, in ssa.Instruction, why string) {
			c.obl()
			c.bad("crash", f.pos(in), "%s: the server process ends%s", why, path(st))
		}
		r.onEnd = func(t *ftrace) {
			c.obl()
			if t.crash != "" {
				c.bad("crash", f.p.pos(x.newPool.Pos()), "the executor's goroutine ends by %s", t.crash)
				return
			}
			if ev := t.m["ev"]; ev != "" && t.m["evdone"] == "" {
				st := newFst()
				st.facts = t.facts
				if b, known := f.truth(st, r.oks[ev]); !known || b {
					c.bad("unanswered", f.p.pos(x.newPool.Pos()), "the executor's goroutine may end with an event taken and not completed")
				}
			}
		}
		if r.build(c) && n == 0 {
			c.undecided("no event is completed on any analysed path of the executor")
		}
	})
}

func path(st *fst) string {
	if len(st.hist) == 0 {
		return ""
	}
	h := st.hist
	if len(h) > 6 {
		h = h[len(h)-6:]
	}
	return " [path: " + strings.Join(h, "; ") + "]"
}

// requestWait (C06): the caller of the executor gets a reply, or its deadline ends the wait.
func requestWait(c *ctx) {
	x := c.exec()
	if x.handle == nil {
		c.undecided("function that turns a request into a reply not found")
		return
	}
	c.request(x, func(f *flow, st *fst, rec *fv, o *fv) {
		c.obl()
		if o == nil {
			return
		}
		if o.isNil() || emptyBytes(f, st, o) {
			n := f.cmp(token.LSS, f.num(0), f.length(st, f.load(st, nil, f.mk("faddr", "Elements", nil, rec), types.NewSlice(types.Typ[types.String]))))
			if b, known := f.truth(st, n); known && !b {
				return // an empty request
			}
			c.bad("no-reply", f.p.pos(x.handle.Pos()), "a request that is not empty gets no reply%s", path(st))
		}
	})
}

func emptyBytes(f *flow, st *fst, v *fv) bool {
	n, ok := f.length(st, v).int()
	return ok && n == 0
}

type reqEvents struct {
	sends []string
}

// request interprets the handling of one request up to its reply.
func (c *ctx) request(x *execRoles, end func(f *flow, st *fst, rec, res *fv)) {
	f := newFlow(c)
	f.stableCells()
	rec := f.sym("request")
	var events []*fv
	isDone := func(ch *fv) bool {
		if ch.op != "obj" && ch.op != "ld" {
			return false
		}
		for _, e := range events {
			if ch.has(e) {
				return true
			}
			for a, v := range f.evCells {
				if v == ch && a.has(e) {
					return true
				}
			}
		}
		return false
	}
	f.onSend = func(st *fst, in ssa.Instruction, ch, v *fv) {
		if v == nil || v.t == nil || !ptrTo(v.t, x.ev) {
			return
		}
		events = append(events, v)
		f.evCells = map[*fv]*fv{}
		for a, w := range st.heap {
			if a.root() == v {
				f.evCells[a] = w
			}
		}
		st.m["sent"] += "1"
		if len(st.m["sent"]) > 2 {
			st.m["sent"] = "11"
		}
		st.m["~event"] = fmt.Sprint(v.id)
		st.note("%s: hands the event to the executor", f.pos(in))
	}
	f.onPut = func(st *fst, in ssa.CallInstruction, o *fv) {
		if st.m["sent"] == "" || st.m["evdone"] == "1" {
			return
		}
		id := st.m["~event"]
		held := id == fmt.Sprint(o.id)
		for a, v := range st.heap {
			held = held || v == o && fmt.Sprint(a.root().id) == id
		}
		if held {
			c.obl()
			c.bad("reused", f.pos(in), "what was handed to the executor is given back for another request before the executor has done with it%s", path(st))
		}
	}
	if c.prop == "C04" {
		f.onStore = func(st *fst, in ssa.Instruction, a, v *fv) {
			if a.op != "iaddr" {
				return
			}
			el := f.load(st, nil, f.recElements(x, rec), types.NewSlice(types.Typ[types.String]))
			if bareTerm(a.a[0]) != el && a.a[0] != el {
				return
			}
			c.obl()
			was := f.mk("ld", "", types.Typ[types.String], a)
			for v.op == "app" && v.s == "strings.ToLower" && isNum(a.a[1], 0) {
				v = v.a[0]
			}
			if v != was {
				c.bad("changed", f.pos(in), "an argument of a request is replaced after it was received%s", path(st))
			}
		}
	}
	deadline := func(ch *fv) bool {
		s := ch.String()
		if ch.op == "app" && ch.s == "Done" {
			return strings.Contains(s, "WithTimeout") || strings.Contains(s, "WithDeadline")
		}
		return strings.Contains(s, "call") && ch.t != nil && strings.Contains(ch.t.String(), "time.Time")
	}
	f.onSelect = func(st *fst, in *ssa.Select, chosen int, chans []*fv) {
		hasDone, hasDl := false, false
		for _, ch := range chans {
			hasDone = hasDone || isDone(ch)
			hasDl = hasDl || deadline(ch)
		}
		if !hasDone {
			return
		}
		c.obl()
		if in.Blocking && !hasDl {
			c.bad("no-deadline", f.pos(in), "the wait for a command's completion has no deadline")
		}
		if chosen >= 0 && deadline(chans[chosen]) {
			st.note("%s: deadline", f.pos(in))
		} else if chosen == -1 {
			st.note("%s: does not wait", f.pos(in))
		}
		st.m["waited"] = "1"
	}
	f.onRecv = func(st *fst, in ssa.Instruction, ch, v, ok *fv) {
		if !isDone(ch) {
			return
		}
		if _, plain := in.(*ssa.UnOp); plain {
			c.obl()
			c.bad("no-deadline", f.pos(in), "the wait for a command's completion has no deadline")
		}
		st.m["evdone"] = "1"
		st.note("%s: command completed", f.pos(in))
	}
	f.onLoad = func(st *fst, in ssa.Instruction, a *fv) *fv {
		if a.op != "faddr" || !st.heapHasEvent(events, a.a[0]) {
			return nil
		}
		if i := fieldIndex(a.own, a.s); i < 0 || !ptrTo(a.own.Field(i).Type(), x.rsp) {
			return nil
		}
		if st.m["evdone"] == "1" {
			v := f.mk("reply", "", a.t, a.a[0])
			st.facts[f.cmp(token.EQL, v, f.null())] = false
			return v
		}
		return f.mk("maybenil", "early", a.t, a.a[0])
	}
	f.onCall = func(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
		g := in.Common().StaticCallee()
		if g != nil && g.Name() == "Encode" && g.Signature.Recv() != nil && ptrTo(g.Signature.Recv().Type(), x.rsp) {
			v := args[0]
			if v.isNil() {
				st.panic, st.pos = "nil reply encoded", in
				return one(st, nil), true
			}
			r := f.mk("encoded", "", nil, v)
			st.facts[f.cmp(token.EQL, r, f.null())] = false
			st.facts[f.mk("lt", "", nil, f.num(0), f.mk("len", "", nil, r))] = true
			if v.op == "maybenil" {
				q := st.clone()
				q.panic, q.pos = "a reply read before the command completed is encoded", in
				return []fout{{q, nil}, {st, r}}, true
			}
			return one(st, r), true
		}
		return nil, false
	}
	f.onBlock = func(st *fst, in ssa.Instruction, ch *fv) {
		c.obl()
		c.bad("stuck", f.pos(in), "waits forever for a channel nothing is sent to%s", path(st))
	}
	f.onCrash = func(st *fst, in ssa.Instruction, why string) {
		c.obl()
		c.bad("crash", f.pos(in), "%s: the server process ends%s", why, path(st))
	}
	c.guard(f, fnName(x.handle), func() {
		outs := f.exec(newFst(), x.handle, []*fv{rec}, nil)
		c.count("ways a request can end", len(outs))
		for _, o := range outs {
			if o.st.panic != "" {
				c.obl()
				c.bad("panic", f.pos(o.st.pos), "handling a request panics (%s), so it is not answered%s", o.st.panic, path(o.st))
				continue
			}
			if len(o.res.a) == 1 {
				end(f, o.st, rec, o.res.a[0])
			}
		}
	})
}

func (s *fst) heapHasEvent(events []*fv, v *fv) bool {
	for _, e := range events {
		if e == v {
			return true
		}
	}
	return false
}

// serialExec (C05): one worker, the next command only after the previous one.
func serialExec(c *ctx) {
	x := c.exec()
	r := c.worker(x)
	f := r.f
	c.guard(f, "executor", func() {
		n := 0
		r.onStart = func(st *fst, in ssa.Instruction) {
			c.obl()
			n++
			if st.m["run"] == "1" {
				c.bad("overlap", f.pos(in), "a command is started although the previous one may still be running%s", path(st))
			}
		}
		r.onRound = func(st *fst, at string) {}
		r.onDone = func(st *fst, in ssa.Instruction, rsp *fv, known bool) {
			c.obl()
			if st.m["run"] == "1" {
				c.bad("overlap", f.pos(in), "an event is completed although its command may still be running%s", path(st))
			}
		}
		if !r.build(c) {
			return
		}
		seen := false
		for _, o := range r.outs {
			c.obl()
			switch o.st.m["workers"] {
			case "1":
				seen = true
			case "many":
				seen = true
				c.bad("workers", o.st.m["~workerAt"], "more than one worker takes events from the queue, so commands run concurrently")
			}
		}
		if !seen {
			c.undecided("no goroutine that takes events is started by the constructor")
		}
		c.onlyExecutor(x, r)
	})
}

// dispatch (C08): names, handlers and arguments.
func dispatch(c *ctx) {
	p := c.p
	x := c.exec()
	regs, odd := p.registrations()
	if len(odd) > 0 {
		c.undecided("command table entries of unknown form at %s", p.pos(odd[0]))
	}
	byName := map[string]registration{}
	byFn := map[*ssa.Function]registration{}
	for _, g := range regs {
		c.obl()
		if o, ok := byName[g.name]; ok {
			c.bad("collision", p.pos(g.pos), "command %q is registered twice: %s and %s", g.name, fnName(o.fn), fnName(g.fn))
		}
		if o, ok := byFn[g.fn]; ok && o.name != g.name {
			c.bad("collision", p.pos(g.pos), "%s implements both %q and %q", fnName(g.fn), o.name, g.name)
		}
		byName[g.name] = g
		byFn[g.fn] = g
		if strings.ToLower(g.name) != g.name {
			c.bad("unreachable", p.pos(g.pos), "command %q is registered under a name that no request can have: names are looked up in lower case", g.name)
		}
		if g.in.Name() != "init" && !strings.HasPrefix(g.in.Name(), "init#") {
			if !calledFromInit(p, g.in) {
				c.undecided("%s registers a command and is not an initialiser", fnName(g.in))
			}
		}
		for _, b := range g.in.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Return); !ok {
					continue
				}
				for _, bb := range g.in.Blocks {
					for _, in2 := range bb.Instrs {
						if mu, ok := in2.(*ssa.MapUpdate); ok && mu.Pos() == g.pos && !bb.Dominates(b) {
							c.bad("conditional", p.pos(g.pos), "command %q is registered only under a condition", g.name)
						}
					}
				}
			}
		}
	}
	var names []string
	for n := range Specs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.obl()
		if _, ok := byName[n]; !ok && len(odd) == 0 {
			c.bad("missing", p.pos(x.table.Pos()), "supported command %q reaches no implementation", n)
		}
	}
	for _, f := range p.Funcs {
		if f.Pkg != p.pkg("redis") || f.Signature.Recv() != nil || f.Parent() != nil || f.Synthetic != "" || !x.isHandlerSig(f.Signature) {
			continue
		}
		c.obl()
		g, ok := byFn[f]
		if !ok {
			if len(odd) == 0 && !p.usedElsewhere(f) {
				c.bad("unregistered", p.pos(f.Pos()), "%s has the form of a command implementation and is not registered", fnName(f))
			}
			continue
		}
		low := strings.ToLower(f.Name())
		if low != g.name {
			if o, ok := byName[low]; ok {
				c.bad("swapped", p.pos(g.pos), "command %q is bound to %s, the implementation of %q (which is bound to %s)", g.name, f.Name(), low, fnName(o.fn))
			}
		}
	}
	c.count("registered commands", len(regs))
	c.lookup(x)
}

func (p *Prog) usedElsewhere(f *ssa.Function) bool {
	return f.Referrers() != nil && len(*f.Referrers()) > 0 || p.calls()[f]
}

// calls is the set of functions that are called or taken as a value somewhere.
func (p *Prog) calls() map[*ssa.Function]bool {
	if p.used != nil {
		return p.used
	}
	p.used = map[*ssa.Function]bool{}
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						p.used[f] = true
					}
				}
			}
		}
	}
	return p.used
}

func calledFromInit(p *Prog, f *ssa.Function) bool {
	for _, g := range p.Funcs {
		if g.Name() != "init" && !strings.HasPrefix(g.Name(), "init#") {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

// lookup checks what the executor looks up, and what the looked-up function is given.
func (c *ctx) lookup(x *execRoles) {
	p := c.p
	// 1. how a request becomes a command
	type cmdForm struct {
		lowered bool
	}
	lowered, made := true, 0
	c.buildsCommand(x, func(f *flow, st *fst, in ssa.Instruction, rec, cmd *fv) {
		var name, vals *fv
		var nameT, valsT types.Type
		s, _ := x.cmd.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			fl := s.Field(i)
			a := f.faddr(cmd, s, i)
			switch {
			case isBasic(fl.Type(), types.IsString):
				name, nameT = f.load(st, in, a, fl.Type()), fl.Type()
			case isStrSlice(fl.Type()):
				vals, valsT = f.load(st, in, a, fl.Type()), fl.Type()
			}
		}
		_, _ = nameT, valsT
		if name == nil || vals == nil {
			c.undecided("command name or arguments not found")
			return
		}
		made++
		c.obl()
		el := f.load(st, in, f.recElements(x, rec), types.NewSlice(types.Typ[types.String]))
		first := f.mk("ld", "", types.Typ[types.String], f.iaddr(el, f.num(0), types.Typ[types.String]))
		n := name
		low := false
		for n.op == "app" && n.s == "strings.ToLower" {
			n, low = n.a[0], true
		}
		if !low {
			lowered = false
		}
		if n != first {
			c.bad("name", f.pos(in), "the command name is not the first element of the request: %s%s", name, path(st))
		}
		v := vals
		if v.op == "append" && v.a[0].isNil() {
			v = v.a[1]
		}
		want := f.mk("slice", "", types.NewSlice(types.Typ[types.String]), el, f.num(1), nil)
		if v != want {
			if v.op == "slice" && v.a[0] == el {
				c.bad("arguments", f.pos(in), "the command does not get exactly the arguments that followed its name: it gets %s%s", vals, path(st))
			} else if v.op == "const" || v == el || v.isNil() {
				c.bad("arguments", f.pos(in), "the command does not get exactly the arguments that followed its name: it gets %s%s", vals, path(st))
			} else {
				c.undecided("arguments of the command are %s", vals)
			}
		}
	})
	if made == 0 {
		c.undecided("no command is made from a request on any analysed path")
	}
	// 2. the executor's lookup
	r := c.worker(x)
	f := r.f
	c.guard(f, "executor", func() {
		calls := 0
		r.onRound = func(st *fst, at string) {}
		r.onDyn = func(st *fst, in ssa.CallInstruction, h *fv, args []*fv) {
			c.obl()
			calls++
			m, k, ok := dynFromTable(h)
			if !ok {
				c.undecided("the function called at %s is not taken from the table: %s", f.pos(in), h)
				return
			}
			if m.op != "ld" || m.a[0].op != "global" || m.a[0].s != x.table.RelString(nil) {
				c.undecided("looked up in %s", m)
				return
			}
			found := false
			if b, known := f.truth(st, f.mk("inmap", "", nil, m, k)); known && b {
				found = true
			}
			if f.nonNil(st, h) {
				found = true
			}
			if !found {
				c.bad("unknown-command", f.pos(in), "the result of the lookup is called without knowing that the name is in the table%s", path(st))
			}
			low := lowered
			n := k
			for n.op == "app" && (n.s == "strings.ToLower") {
				n, low = n.a[0], true
			}
			if !low {
				c.bad("case", f.pos(in), "the name is looked up without bringing it to lower case")
			}
			cmd := args[0]
			good := n.op == "ld" && n.a[0].op == "faddr" && isBasic(n.a[0].t, types.IsString)
			if !good {
				c.bad("lookup-key", f.pos(in), "the table is not searched for the name of the command: %s%s", k, path(st))
				return
			}
			if n.a[0].a[0] != cmd {
				c.undecided("the implementation gets %s, the name is of %s", cmd, n.a[0].a[0])
			}
		}
		r.onDone = func(st *fst, in ssa.Instruction, rsp *fv, known bool) {
			if st.m["g:h"] == "1" || rsp == nil {
				return
			}
			// no implementation was called: the reply must be the unknown-command error
			c.obl()
			if e := f.errorOf(st, rsp); e != nil && !strings.Contains(strings.ToLower(c.errText(e)), "unknown") {
				c.bad("unknown-command", f.pos(in), "a name that is not in the table is not answered by the unknown-command error: %s%s", e, path(st))
			} else if e == nil {
				c.bad("unknown-command", f.pos(in), "a name that is not in the table is answered by something else than an error%s", path(st))
			}
		}
		if r.build(c) && calls == 0 {
			c.undecided("no implementation is called on any analysed path of the executor")
		}
	})
	_ = p
}

// errorOf is the error a reply was made of, nil if it is no error reply.
func (f *flow) errorOf(st *fst, rsp *fv) *fv {
	var walk func(v *fv, d int) *fv
	walk = func(v *fv, d int) *fv {
		if v == nil || d > 6 {
			return nil
		}
		if v.op == "err" {
			return v
		}
		if v.op == "iface" && len(v.a) == 1 {
			if e := walk(v.a[0], d+1); e != nil {
				return e
			}
		}
		if v.op == "obj" || v.op == "slice" || v.op == "append1" || v.op == "append" {
			for _, a := range v.a {
				if e := walk(a, d+1); e != nil {
					return e
				}
			}
			if v.op == "obj" {
				var ks []*fv
				for a := range st.heap {
					if a != v && a.root() == v {
						ks = append(ks, a)
					}
				}
				sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
				for _, a := range ks {
					if e := walk(st.heap[a], d+1); e != nil {
						return e
					}
				}
			}
		}
		return nil
	}
	return walk(rsp, 0)
}

// errText is the text of an error made from a constant.
func (c *ctx) errText(e *fv) string {
	for _, a := range e.a {
		if s, ok := a.text(); ok {
			return s
		}
	}
	// a package variable
	for _, g := range c.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if a, ok := s.Addr.(*ssa.Global); ok && a.RelString(nil) == e.s {
					if call, ok := s.Val.(*ssa.Call); ok && len(call.Call.Args) > 0 {
						if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							return constant.StringVal(k.Value)
						}
					}
				}
			}
		}
	}
	return ""
}

func (f *flow) recElements(x *execRoles, rec *fv) *fv {
	s, _ := x.rec.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if isStrSlice(s.Field(i).Type()) {
			return f.faddr(rec, s, i)
		}
	}
	panic(flowStop{"elements of a request not found"})
}

// buildsCommand interprets the handling of a request and reports every command handed to the executor.
func (c *ctx) buildsCommand(x *execRoles, see func(f *flow, st *fst, in ssa.Instruction, rec, cmd *fv)) {
	if x.handle == nil {
		c.undecided("function that turns a request into a reply not found")
		return
	}
	f := newFlow(c)
	f.stableCells()
	rec := f.sym("request")
	f.onSend = func(st *fst, in ssa.Instruction, ch, v *fv) {
		if v == nil || v.t == nil || !ptrTo(v.t, x.ev) {
			return
		}
		for a, w := range st.heap {
			if a.op == "faddr" && a.a[0] == v && w.t != nil && ptrTo(w.t, x.cmd) {
				see(f, st, in, rec, w)
			}
		}
	}
	c.guard(f, fnName(x.handle), func() {
		f.exec(newFst(), x.handle, []*fv{rec}, nil)
	})
}

func isNum(v *fv, n int64) bool {
	k, ok := v.int()
	return ok && k == n
}
