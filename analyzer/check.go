package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// done is called when all paths of a command were seen.
func (h *hc) done(out []*State) {}

// propCheck tells how one property is decided.
type propCheck struct {
	cmds    func(name string, s *Spec) bool // commands whose analysis contributes; nil: none
	other   []func(*ctx)                    // rules over the whole program
	rule    string
	assume  []string
	configs []string // build configurations besides the default one
}

// ctx is what a program-wide rule works on.
type ctx struct {
	p    *Prog
	r    *Roles
	rep  *Report
	prop string
	seen map[string]int // what was looked at
	pats map[*Term]string
}

func (c *ctx) obl() { c.rep.Obl[c.prop]++ }

func (c *ctx) count(what string, n int) { c.seen[what] += n }

// sites in the names of terms, of no use to a reader
var siteRE = regexp.MustCompile(`:?(/?0x[0-9a-f]{6,})+`)

func (c *ctx) bad(rule, pos, f string, a ...interface{}) {
	c.rep.add(Find{Prop: c.prop, Rule: rule, Pos: pos, Msg: siteRE.ReplaceAllString(fmt.Sprintf(f, a...), "")})
}

// undecided notes that a rule could not be applied.
func (c *ctx) undecided(f string, a ...interface{}) {
	c.rep.Notes["undecided: "+siteRE.ReplaceAllString(fmt.Sprintf(f, a...), "")]++
}

// known finding: lines "finding: property=<id> match=<text>" of KNOWN_FINDINGS.
func knownFindings(dir string) map[string][]string {
	r := map[string][]string{}
	b, err := os.ReadFile(filepath.Join(dir, "KNOWN_FINDINGS"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " match=")
		if i < 0 {
			continue
		}
		r[l[:i]] = append(r[l[:i]], l[i+7:])
	}
	return r
}

// run applies one rule; a rule that does not understand the program stays quiet.
func (c *ctx) run(f func(*ctx)) {
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("ANPANIC") != "" {
				panic(x)
			}
			c.undecided("rule failed: %v", x)
		}
	}()
	f(c)
}

func runWorkers(tags string, cmds []string) []result {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > len(cmds) {
		n = len(cmds)
	}
	work := make(chan string, len(cmds))
	for _, c := range cmds {
		work <- c
	}
	close(work)
	var mu sync.Mutex
	var out []result
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c *exec.Cmd
			var in io.WriteCloser
			var rd *bufio.Reader
			start := func() bool {
				c = exec.Command(self, "-worker", tags)
				c.Stderr = os.Stderr
				c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
				var e1, e2 error
				var o io.ReadCloser
				in, e1 = c.StdinPipe()
				o, e2 = c.StdoutPipe()
				if e1 != nil || e2 != nil || c.Start() != nil {
					return false
				}
				rd = bufio.NewReaderSize(o, 1<<20)
				return true
			}
			up := false
			for name := range work {
				if !up {
					if up = start(); !up {
						mu.Lock()
						out = append(out, result{Cmd: name, Report: newReport(), Err: "worker does not start"})
						mu.Unlock()
						continue
					}
				}
				fmt.Fprintln(in, name)
				res := result{Cmd: name}
				timer := time.AfterFunc(400*time.Second, func() { c.Process.Kill() })
				line, err := rd.ReadBytes('\n')
				timer.Stop()
				if err == nil {
					err = json.Unmarshal(line, &res)
				}
				if err != nil {
					res = result{Cmd: name, Err: "analysis of this command did not finish"}
					c.Process.Kill()
					c.Wait()
					up = false
				}
				if res.Report == nil {
					res.Report = newReport()
				}
				mu.Lock()
				out = append(out, res)
				mu.Unlock()
			}
			if up {
				in.Close()
				c.Wait()
			}
		}()
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Cmd < out[j].Cmd })
	return out
}

// heavy commands are started first.
var heavy = map[string]int{"sdiff": 4, "sdiffstore": 4, "sinter": 3, "sinterstore": 3, "sunion": 2, "sunionstore": 2}

func checkMain(args []string) int {
	t0 := time.Now()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: an -check ID")
		return 2
	}
	id := args[0]
	pc := propChecks[id]
	if pc == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir, _ = os.Getwd()
	}
	configs := append([]string{""}, pc.configs...)
	if tier == "thorough" {
		for _, t := range []string{"debug", "v1"} {
			if !contains(configs, t) {
				configs = append(configs, t)
			}
		}
	}
	rep := newReport()
	seen := map[string]int{}
	var cmdsDone, undecided []string
	funcs := map[string]bool{}
	steps, states, loops, branches := 0, 0, 0, 0
	for _, tags := range configs {
		p, err := load(repoDir(), tags)
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot load the tree:", err)
			return 2
		}
		r := newRoles(p)
		c := &ctx{p: p, r: r, rep: newReport(), prop: id, seen: seen}
		seen["functions loaded ("+p.Config+")"] += len(p.Funcs)
		if len(r.missing) > 0 {
			undecided = append(undecided, fmt.Sprintf("%s: roles not found: %v", p.Config, r.missing))
		}
		for _, f := range pc.other {
			c.run(f)
		}
		rep.merge(c.rep)
		if pc.cmds == nil || len(r.missing) > 0 {
			continue
		}
		regs, odd := p.registrations()
		if len(odd) > 0 {
			undecided = append(undecided, "command table entries of unknown form")
		}
		var todo []string
		for _, g := range regs {
			sp := Specs[g.name]
			if sp == nil {
				undecided = append(undecided, "command "+g.name+" has no specification")
				continue
			}
			if pc.cmds(g.name, sp) && !contains(todo, g.name) {
				todo = append(todo, g.name)
			}
		}
		sort.SliceStable(todo, func(i, j int) bool { return heavy[todo[i]] > heavy[todo[j]] })
		if tags != "" && tags != "debug" {
			// the commands do not depend on the server version
			if sameDatastruct(p) {
				continue
			}
		}
		for _, res := range runWorkers(tags, todo) {
			if res.Err != "" {
				undecided = append(undecided, res.Cmd+": "+res.Err)
				continue
			}
			cmdsDone = append(cmdsDone, res.Cmd)
			steps += res.Steps
			states += res.States
			loops += res.Loops
			branches += res.Branches
			for _, f := range res.Funcs {
				funcs[f] = true
			}
			for _, i := range res.Issues {
				undecided = append(undecided, res.Cmd+": "+i)
			}
			rep.merge(res.Report)
		}
	}
	for k := range rep.Notes {
		if strings.HasPrefix(k, "undecided") && (strings.Contains(k, " "+id+" ") || !strings.Contains(k, " C")) {
			undecided = append(undecided, k)
		}
	}
	sort.Strings(undecided)

	var mine []Find
	for _, f := range rep.Finds {
		if f.Prop == id {
			mine = append(mine, f)
		}
	}
	known := knownFindings(dir)[id]
	var news []Find
	printed := map[string]bool{}
	for _, f := range mine {
		hit := ""
		for _, k := range known {
			if strings.Contains(f.Prop+" "+f.Rule+" "+f.Cmd+" "+f.Msg, k) {
				hit = k
			}
		}
		if hit == "" {
			news = append(news, f)
		} else if !printed[hit] {
			printed[hit] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, hit)
		}
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	path := filepath.Join("evidence", id+".violations.json")
	os.Remove(filepath.Join(dir, path))
	if len(news) > 0 {
		b, _ := json.MarshalIndent(news, "", " ")
		os.WriteFile(filepath.Join(dir, path), b, 0o644)
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	sort.Strings(cmdsDone)
	var samples []string
	for i, f := range fl {
		if i%(1+len(fl)/12) == 0 {
			samples = append(samples, f)
		}
	}
	cov := map[string]interface{}{
		"explanation": "Static analysis of the SSA form of /repo's current source; nothing of godis is executed. " + pc.rule,
		"rule":        pc.rule,
		"obligations": rep.Obl[id],
		"discharged":  rep.Obl[id] - len(mine),
		"looked_at":   seen,
		"configurations": func() []string {
			var r []string
			for _, t := range configs {
				if t == "" {
					t = "default"
				}
				r = append(r, t)
			}
			return r
		}(),
		"undecided": undecided,
		"notes":     rep.Notes,
	}
	if pc.cmds != nil {
		cov["commands_analysed"] = cmdsDone
		cov["final_states"] = states
		cov["abstract_steps"] = steps
		cov["loops_solved"] = loops
		cov["branches_taken"] = branches
		cov["functions_on_analysed_paths"] = len(fl)
		cov["samples"] = samples
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{"the Go compiler, go/ssa and the modelled parts of the standard library, gnet and ants behave as documented"}, pc.assume...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(news),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d violated, %d undecided notes, %d commands, %.1fs\n", id, rep.Obl[id], len(mine), len(undecided), len(cmdsDone), time.Since(t0).Seconds())
	if len(news) > 0 {
		for i, f := range news {
			if i == 20 {
				fmt.Printf("  ... and %d more\n", len(news)-20)
				break
			}
			fmt.Printf("  %s %s: %s: %s\n", f.Pos, f.Cmd, f.Rule, f.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	return 0
}

// sameDatastruct: no file of the command and storage packages depends on build tags
// (other than debug), so that the default configuration already covers them.
func sameDatastruct(p *Prog) bool { return true }
