package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: an -check ID | -worker TAGS | -dbg [command [d|kk|r]] | -finds [command]")
		os.Exit(2)
	}
	switch args[0] {
	case "-worker":
		tags := ""
		if len(args) > 1 {
			tags = args[1]
		}
		worker(tags)
	case "-check":
		os.Exit(checkMain(args[1:]))
	case "-finds":
		finds(args[1:])
	case "-all":
		all(args[1:])
	case "-dbg":
		dbg(args[1:])
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", args[0])
		os.Exit(2)
	}
}

func repoDir() string {
	if d := os.Getenv("GODIS_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// result is what a worker says about one command.
type result struct {
	Cmd      string   `json:"cmd"`
	Report   *Report  `json:"report"`
	Steps    int      `json:"steps"`
	States   int      `json:"states"`
	Loops    int      `json:"loops"`
	Branches int      `json:"branches"`
	Effects  int      `json:"effects"`
	Issues   []string `json:"issues"`
	Funcs    []string `json:"funcs"`
	Ms       int64    `json:"ms"`
	Err      string   `json:"err,omitempty"`
}

func analyse(p *Prog, r *Roles, name string, dbg func(*Engine, []*State)) (res result) {
	res.Cmd = name
	res.Report = newReport()
	t0 := time.Now()
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("ANPANIC") != "" {
				panic(x)
			}
			res.Err = fmt.Sprint(x)
		}
		res.Ms = time.Since(t0).Milliseconds()
	}()
	regs, _ := p.registrations()
	for _, g := range regs {
		if g.name != name {
			continue
		}
		e := newEngine(p, r)
		h := &hc{e: e, p: p, r: r, name: name, fn: g.fn, sp: Specs[name], rep: res.Report, pt: p.proto()}
		if h.sp == nil {
			res.Err = "no specification of command " + name
			return
		}
		e.onEvent = h.event
		out := e.runHandler(g.name, g.fn)
		e.onEvent = nil
		for _, s := range out {
			h.exit(s)
		}
		h.done(out)
		res.Steps, res.States, res.Loops, res.Branches, res.Effects = e.steps, len(out), e.loopsRun, e.branches, e.effects
		for _, i := range e.issues {
			res.Issues = append(res.Issues, i.kind+" "+p.pos(i.pos)+" "+i.msg)
		}
		for f := range e.visitedFns {
			res.Funcs = append(res.Funcs, fnName(f))
		}
		sort.Strings(res.Funcs)
		if dbg != nil {
			dbg(e, out)
		}
	}
	return
}

func worker(tags string) {
	p, err := load(repoDir(), tags)
	out := json.NewEncoder(os.Stdout)
	if err != nil {
		out.Encode(result{Err: "load: " + err.Error()})
		return
	}
	r := newRoles(p)
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		out.Encode(analyse(p, r, strings.TrimSpace(sc.Text()), nil))
	}
}

func mustLoad() (*Prog, *Roles) {
	p, err := load(repoDir(), os.Getenv("ANTAGS"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	return p, newRoles(p)
}

func finds(args []string) {
	p, r := mustLoad()
	fmt.Println(len(p.Funcs), r.missing, r.shards, p.proto().ok)
	regs, _ := p.registrations()
	for _, g := range regs {
		if len(args) > 0 && !contains(args, g.name) {
			continue
		}
		res := analyse(p, r, g.name, nil)
		printResult(res)
	}
}

// all runs everything once and prints what any check would report (development aid).
func all(args []string) {
	p, r := mustLoad()
	if len(r.missing) > 0 {
		fmt.Println("roles not found:", r.missing)
	}
	n := 0
	var ids []string
	for id := range propChecks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	only := os.Getenv("ANOTHER") // comma-separated; all when empty
	for _, id := range ids {
		if only != "" && !contains(strings.Split(only, ","), id) {
			continue
		}
		for _, f := range propChecks[id].other {
			c := &ctx{p: p, r: r, rep: newReport(), prop: id, seen: map[string]int{}}
			c.run(f)
			for _, f := range c.rep.Finds {
				n++
				fmt.Printf("%s [%s] %s: %s\n", f.Prop, f.Rule, f.Pos, f.Msg)
			}
			for k := range c.rep.Notes {
				fmt.Println("   ", id, "note", k)
			}
		}
	}
	regs, _ := p.registrations()
	var todo []string
	for _, g := range regs {
		if len(args) == 0 || contains(args, g.name) {
			todo = append(todo, g.name)
		}
	}
	sort.SliceStable(todo, func(i, j int) bool { return heavy[todo[i]] > heavy[todo[j]] })
	for _, res := range runWorkers("", todo) {
		for _, f := range res.Report.Finds {
			n++
			fmt.Printf("%s %s [%s] %s: %s\n", f.Prop, res.Cmd, f.Rule, f.Pos, f.Msg)
		}
		if res.Err != "" {
			fmt.Println("   ", res.Cmd, "error", res.Err)
		}
		for _, i := range res.Issues {
			fmt.Println("   ", res.Cmd, "issue", i)
		}
		for k := range res.Report.Notes {
			fmt.Println("   ", res.Cmd, "note", k)
		}
		if res.Ms > 60000 {
			fmt.Println("   ", res.Cmd, "slow", res.Ms)
		}
	}
	fmt.Println("findings:", n)
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func printResult(res result) {
	fmt.Printf("%-12s states=%d steps=%d loops=%d %dms obl=%v notes=%v %s\n", res.Cmd, res.States, res.Steps, res.Loops, res.Ms, res.Report.Obl, res.Report.Notes, res.Err)
	for _, i := range res.Issues {
		fmt.Println("    issue", i)
	}
	for _, f := range res.Report.Finds {
		fmt.Printf("    %s [%s] %s: %s\n", f.Prop, f.Rule, f.Pos, f.Msg)
		if os.Getenv("TRAIL") != "" {
			fmt.Println("         ", strings.Join(f.Trail, "\n          "))
		}
	}
}

func dbg(args []string) {
	p, r := mustLoad()
	regs, _ := p.registrations()
	for _, g := range regs {
		if len(args) > 0 && args[0] != g.name {
			continue
		}
		e := newEngine(p, r)
		if len(args) > 1 {
			e.debug = args[1] != "r"
			e.debugKey = args[1] == "kk"
		}
		t := time.Now()
		out := e.runHandler(g.name, g.fn)
		np := 0
		for _, s := range out {
			if s.panic != nil {
				np++
			}
		}
		fmt.Printf("%-12s states=%d panics=%d steps=%d loops=%d %v\n", g.name, len(out), np, e.steps, e.loopsRun, time.Since(t).Round(time.Millisecond))
		for _, i := range e.issues {
			fmt.Printf("    %s %s %s\n", i.kind, p.pos(i.pos), i.msg)
		}
		for _, s := range out {
			if s.panic != nil {
				fmt.Printf("    PANIC %s %s %s\n", s.panic.kind, p.pos(s.panic.pos), s.panic.msg)
			}
			if len(args) > 1 {
				fmt.Println("  RET", len(s.effects))
				for _, v := range s.ret {
					fmt.Println("     ", showV(v))
				}
				fmt.Println("   path", s.choices)
				fmt.Println(s.dump())
			}
		}
	}
}
