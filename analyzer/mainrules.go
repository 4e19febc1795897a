package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The program's own life: a signal that asks it to end is received and stops the server, and main does not return
// while the server runs.

type mainRun struct {
	served bool // on some path
	notify bool // signals are asked for
	taken  bool // and received
	every  bool // every signal, or ones that are not known
	asked  map[int64]bool
	at     string
}

func mainStops(c *ctx) {
	sp := c.p.pkg("cmd/server")
	if sp == nil || sp.Func("main") == nil {
		c.undecided("main not found")
		return
	}
	mainFn := sp.Func("main")
	f := newFlow(c)
	f.stableCells()
	r := &mainRun{asked: map[int64]bool{}}
	sig := types.NewInterfaceType(nil, nil)
	add := func(st *fst, k string, n int) {
		v := 0
		fmt.Sscan(st.m[k], &v)
		st.m[k] = fmt.Sprint(v + n)
	}
	f.onCall = func(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
		switch {
		case strings.HasSuffix(name, "gnet.Serve"):
			r.served = true
			st.m["serving"] = "1"
			if !f.inGoroutine(st) {
				st.m["served here"] = "1"
			}
		case strings.HasSuffix(name, "gnet.Stop"):
			st.m["stop"] = "1"
			if !f.inGoroutine(st) {
				st.m["waits"] += "chan,"
			}
		case name == "os.Exit" || strings.HasPrefix(name, "log.Fatal"):
			if st.m["got"] != "" && st.m["stop"] == "" && st.m["passed"] == "" {
				c.obl()
				c.bad("signal", f.pos(in), "the process ends on a signal without stopping the server: accepted requests are lost")
			}
		case apart(in.Common().StaticCallee(), mainFn, map[*ssa.Function]bool{}):
			return []fout{{st, f.fresh(st, in, "apart", in.Common().Signature().Results())}}, true
		case (name == "os/signal.Notify" || name == "os/signal.NotifyContext") && len(args) == 2:
			c.obl()
			r.notify = true
			if name == "os/signal.NotifyContext" {
				r.taken = true
			} else {
				st.m["sigchan"] = fmt.Sprint(bareTerm(args[0]).id)
			}
			n, ok := f.length(st, args[1]).int()
			if args[1].isNil() {
				n, ok = 0, true
			}
			r.at, r.every = f.pos(in), r.every || n == 0 && ok
			for i := int64(0); ok && i < n; i++ {
				v := f.load(st, in, f.iaddr(args[1], f.num(i), sig), sig)
				if v.op == "iface" {
					v = v.a[0]
				}
				var k int64
				if k, ok = v.int(); ok {
					r.asked[k] = true
				}
			}
			if !ok {
				c.undecided("the signals main waits for are not known")
				r.every = true
			}
		case name == "(*sync.WaitGroup).Add" && len(args) == 2:
			n, ok := args[1].int()
			if !ok {
				st.m["wg?"] = "1"
			}
			add(st, fmt.Sprintf("wg+%d", bareTerm(args[0]).id), int(n))
		case name == "(*sync.WaitGroup).Done" && len(args) == 1:
			add(st, fmt.Sprintf("wg-%d", bareTerm(args[0]).id), 1)
		case name == "(*sync.WaitGroup).Wait" && len(args) == 1:
			st.m["waits"] += fmt.Sprintf("%d,", bareTerm(args[0]).id)
		}
		return nil, false
	}
	f.onRecv = func(st *fst, in ssa.Instruction, ch, v, ok *fv) {
		if st.m["sigchan"] == fmt.Sprint(bareTerm(ch).id) {
			r.taken = true
			st.m["got"] = f.pos(in)
		} else if !f.inGoroutine(st) {
			st.m["waits"] += "chan,"
		}
	}
	pass := func(st *fst) {
		if st.m["got"] != "" {
			st.m["passed"] = "1"
		}
	}
	f.onSend = func(st *fst, in ssa.Instruction, ch, v *fv) { pass(st) }
	f.onClose = func(st *fst, in ssa.Instruction, ch *fv) { pass(st) }
	f.onDyn = func(st *fst, in ssa.CallInstruction, g *fv, args []*fv) ([]fout, bool) {
		pass(st)
		return nil, false
	}
	f.onSpawn = func(st *fst, in ssa.Instruction, g *fv, outs []*ftrace) {
		serves := false
		done := map[string]int{}
		stops, went := st.m["stop"] == "", 0 // it stops the server, whatever happens, which takes until the server has stopped
		for i, t := range outs {
			c.obl()
			if t.crash == "" {
				went++
				stops = stops && t.m["stop"] != ""
			}
			if t.m["serving"] != "" && st.m["serving"] == "" {
				serves = true
			}
			if at := t.m["got"]; at != "" && st.m["got"] == "" && t.crash == "" && t.m["stop"] == "" && t.m["passed"] == "" {
				c.bad("signal", at, "a signal to end is received, but the server is not stopped: the process keeps running or is killed with requests under way")
			}
			for k, v := range t.m {
				if !strings.HasPrefix(k, "wg-") && !strings.HasPrefix(k, "wg+") {
					continue
				}
				n, was := 0, 0
				fmt.Sscan(v, &n)
				fmt.Sscan(st.m[k], &was)
				if i > 0 && done[k] != n-was {
					st.m["wg?"] = "1"
				}
				done[k] = n - was
			}
		}
		for k, n := range done {
			add(st, k, n)
			if (serves || stops && went > 0) && strings.HasPrefix(k, "wg-") {
				st.m["server in"] += strings.TrimPrefix(k, "wg-") + ","
			}
		}
		if serves {
			st.m["server runs"] = "1"
			st.m["waits"] = ""
		}
	}
	c.guard(f, "main", func() {
		for _, o := range f.exec(newFst(), mainFn, nil, nil) {
			st := o.st
			if st.panic != "" || st.m["server runs"] == "" {
				continue
			}
			c.obl()
			at := f.p.pos(mainFn.Pos())
			if st.m["got"] != "" && st.m["stop"] == "" && st.m["passed"] == "" {
				c.bad("signal", st.m["got"], "a signal to end is received, but the server is not stopped: it ends with requests under way")
				continue
			}
			waits := false
			for _, w := range strings.Split(st.m["waits"], ",") {
				waits = waits || w == "chan" || w != "" && strings.Contains(","+st.m["server in"], ","+w+",")
			}
			if !waits {
				c.bad("main-returns", at, "main returns while the server is running: accepted requests are lost%s", path(st))
				continue
			}
			if st.m["wg?"] != "" {
				continue
			}
			for k, v := range st.m {
				if !strings.HasPrefix(k, "wg-") {
					continue
				}
				if w := st.m["wg+"+k[3:]]; w != v {
					if w == "" {
						w = "0"
					}
					c.bad("main-returns", at, "main's wait group is raised by %s and lowered by %s: main does not wait for the server to end, or never ends", w, v)
				}
			}
		}
		if !r.served {
			return
		}
		c.obl()
		switch {
		case r.notify && r.taken && !r.every:
			for k, s := range map[int64]string{2: "SIGINT", 15: "SIGTERM"} {
				if !r.asked[k] {
					c.bad("signal", r.at, "%s ends the process at once: accepted requests are lost", s)
				}
			}
		case !r.notify:
			c.bad("signal", f.p.pos(mainFn.Pos()), "no signal is handled: SIGTERM ends the process at once and accepted requests are lost")
		case !r.taken:
			c.bad("signal", f.p.pos(mainFn.Pos()), "a signal to end is never received: the server cannot be stopped")
		}
	})
}

func (f *flow) inGoroutine(st *fst) bool { return f.spawn > 0 }

// apart: g has no part in starting or stopping the server: it calls only functions known by name, none of which
// deals with signals, threads or a server, and sets nothing of the program's.
func apart(g, from *ssa.Function, seen map[*ssa.Function]bool) bool {
	if g == nil || g == from || g.Blocks == nil {
		return false
	}
	if pk := g.Package(); pk == nil || pk != from.Package() {
		return pk != nil && strings.HasSuffix(pk.Pkg.Path(), "/redis")
	}
	if seen[g] {
		return true
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.MakeClosure, *ssa.Panic, *ssa.Send:
				return false
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Global); ok {
					return false
				}
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				h := in.Call.StaticCallee()
				if h == nil || h.Package() == nil {
					return false
				}
				switch path := h.Package().Pkg.Path(); {
				case path == "fmt" || path == "strings" || path == "strconv" || path == "time":
				case path == "log" && !strings.HasPrefix(h.Name(), "Fatal") && !strings.HasPrefix(h.Name(), "Panic"):
				case !apart(h, from, seen):
					return false
				}
			}
		}
	}
	return true
}
