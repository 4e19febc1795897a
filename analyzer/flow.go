package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flow is a small path-sensitive interpreter over abstract terms. It follows calls
// inside the module, closures, defers, panics and goroutines, and lets a rule watch
// what happens on every path. Loops are run until the state at their head is stable.
type flow struct {
	c      *ctx
	p      *Prog
	terms  map[string]*fv
	nid    int
	budget int
	depth  int
	stack  []*ssa.Function
	loops  map[*ssa.Function]*loopInfo

	// what a rule may watch; a nil hook does nothing
	onCall    func(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) // before any static or interface call
	onDyn     func(st *fst, in ssa.CallInstruction, f *fv, args []*fv) ([]fout, bool)       // call of an unknown function value
	onSend    func(st *fst, in ssa.Instruction, ch, v *fv)
	onRecv    func(st *fst, in ssa.Instruction, ch *fv, v, ok *fv)
	onClose   func(st *fst, in ssa.Instruction, ch *fv)
	onSelect  func(st *fst, in *ssa.Select, chosen int, chans []*fv)
	onGo      func(st *fst, in ssa.Instruction, f *fv, args []*fv) bool // true: do not analyse the body
	onSpawn   func(st *fst, in ssa.Instruction, f *fv, outs []*ftrace)
	onGoEnd   func(st *fst) // one way a started goroutine ends
	onBlock   func(st *fst, in ssa.Instruction, ch *fv)
	onBack    func(st *fst, fn *ssa.Function, h *ssa.BasicBlock, env map[ssa.Value]*fv, old map[ssa.Value]*fv)
	onLoad    func(st *fst, in ssa.Instruction, addr *fv) *fv
	onHead    func(st *fst, env map[ssa.Value]*fv) bool // at the head of a loop, before its state is recorded
	onStore   func(st *fst, in ssa.Instruction, addr, v *fv)
	onPut     func(st *fst, in ssa.CallInstruction, o *fv) // an object is given back to a sync.Pool
	onCrash   func(st *fst, in ssa.Instruction, why string)
	onIf      func(st *fst, in *ssa.If, cond *fv, to bool)
	stable    func(addr *fv) bool      // contents of this cell survive synchronisation with others
	canon     func(st *fst, v *fv) *fv // values of different form that are equal
	asserts   bool                     // unchecked type assertions may panic
	spread    map[string]bool          // operators whose arguments are generalised one by one
	bytesText bool                     // appends to byte slices are texts
	linear    bool                     // offsets and lengths are kept and checked as linear terms
	onAppend  func(st *fst, in ssa.Instruction, a *fv, elems []*fv, b, res *fv)
	onLeave   func(p *fpath, h *ssa.BasicBlock, r *frec) // a loop is left
	onGeneral func(g *general, o, n *fv) *fv
	onInv     func(old, now *fst, keep func(x, y, xo, yo, xn, yn *fv)) // candidates x <= y to keep in a loop; x may be a cell
	eachRound bool                                                     // what is made in a round of a loop is not what the next round makes
	monotone  bool                                                     // what only grows or only shrinks in a loop stays above or below its first value
	onBound   func(st *fst, in ssa.Instruction, ok bool, why string, vs ...*fv)
	onMake    func(st *fst, in ssa.Instruction, n *fv)
	onInstr   func(p *fpath, in ssa.Instruction) ([]fout, bool) // other instructions
	onBuiltin func(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool)
	apart     func(old, now *fst, a, b *fv) bool // values that a loop must not merge
	sites     []ssa.CallInstruction
	uniq      bool // what different rounds of a decided loop make is different

	genSrc     map[*fv]map[*fv]bool // what a generalised term was made from
	onSlice    func(st *fst, b, lo, hi *fv) *fv
	funcs      map[*ssa.Function]bool
	steps      int
	paths      int
	spawn      int // >0: inside a goroutine started by the analysed code
	stuck      []string
	evCells    map[*fv]*fv
	frames     []frame
	live       map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	after      map[string]bool
	calls      int
	ncalls     int
	sendPanics func(st *fst, in ssa.Instruction, ch *fv) bool
}

// fv is a hash-consed abstract value.
type fv struct {
	id  int
	op  string
	s   string
	c   constant.Value
	fn  *ssa.Function
	a   []*fv
	t   types.Type
	own *types.Struct // of a field address: the struct
}

func (f *flow) mk(op, s string, t types.Type, a ...*fv) *fv {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, x := range a {
		if x == nil {
			sb.WriteString("|-")
			continue
		}
		fmt.Fprintf(&sb, "|%d", x.id)
	}
	k := sb.String()
	if v := f.terms[k]; v != nil {
		return v
	}
	f.nid++
	v := &fv{id: f.nid, op: op, s: s, a: a, t: t}
	f.terms[k] = v
	return v
}

func (f *flow) con(c constant.Value) *fv {
	v := f.mk("const", fmt.Sprint(c.Kind(), c.ExactString()), nil)
	v.c = c
	return v
}
func (f *flow) num(i int64) *fv  { return f.con(constant.MakeInt64(i)) }
func (f *flow) bool(b bool) *fv  { return f.con(constant.MakeBool(b)) }
func (f *flow) str(s string) *fv { return f.con(constant.MakeString(s)) }
func (f *flow) null() *fv        { return f.mk("nil", "", nil) }
func (f *flow) sym(s string) *fv { return f.mk("sym", s, nil) }
func (f *flow) tup(a ...*fv) *fv { return f.mk("tup", "", nil, a...) }
func (f *flow) fun(g *ssa.Function) *fv {
	v := f.mk("fn", fmt.Sprintf("%p", g), nil)
	v.fn = g
	return v
}

func (v *fv) isNil() bool { return v != nil && v.op == "nil" }

func (v *fv) int() (int64, bool) {
	if v == nil || v.op != "const" || v.c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.c)
}

func (v *fv) text() (string, bool) {
	if v == nil || v.op != "const" || v.c.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v.c), true
}

func (v *fv) boolean() (bool, bool) {
	if v == nil || v.op != "const" || v.c.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v.c), true
}

func (v *fv) has(x *fv) bool {
	if v == x {
		return true
	}
	if v == nil {
		return false
	}
	for _, a := range v.a {
		if a != nil && a.id >= x.id && a.has(x) {
			return true
		}
	}
	return false
}

func (v *fv) String() string {
	if v == nil {
		return "-"
	}
	switch v.op {
	case "const":
		return v.c.ExactString()
	case "nil":
		return "nil"
	case "fn":
		return v.fn.Name()
	case "sym":
		return v.s
	case "obj":
		return "&" + v.s
	case "faddr":
		return v.a[0].String() + "." + v.s
	case "ld":
		return "*" + v.a[0].String()
	}
	var as []string
	for _, a := range v.a {
		as = append(as, a.String())
	}
	n := v.op
	if v.s != "" {
		n += ":" + v.s
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// root is the object an address lies in.
func (v *fv) root() *fv {
	for v != nil && (v.op == "faddr" || v.op == "iaddr") {
		v = v.a[0]
	}
	return v
}

// fst is the state of one path.
type fst struct {
	heap  map[*fv]*fv
	facts map[*fv]bool
	m     map[string]string
	local map[*fv]bool // objects allocated by the analysed code and not shared yet
	gor   []*fgor
	trace []gop
	inGo  bool
	panic string // not empty: unwinding
	pos   ssa.Instruction
	hist  []string
}

type gop struct {
	kind string // send, close, note
	ch   *fv
	v    *fv
	m    map[string]string
	at   ssa.Instruction
	st   *fst
}

// ftrace is one way a started goroutine can go.
type ftrace struct {
	ops   []gop
	m     map[string]string
	crash string
	facts map[*fv]bool
	st    *fst
}

type fgor struct {
	at     ssa.Instruction
	traces []*ftrace
	chosen int
	pos    int
	tag    string
}

type fout struct {
	st  *fst
	res *fv
}

func (s *fst) clone() *fst {
	n := &fst{heap: map[*fv]*fv{}, facts: map[*fv]bool{}, m: map[string]string{}, local: map[*fv]bool{}, inGo: s.inGo, panic: s.panic, pos: s.pos}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.m {
		n.m[k] = v
	}
	for k, v := range s.local {
		n.local[k] = v
	}
	for _, g := range s.gor {
		x := *g
		n.gor = append(n.gor, &x)
	}
	n.trace = append([]gop(nil), s.trace...)
	n.hist = append([]string(nil), s.hist...)
	return n
}

// snap is what the receiver of a message can see of its sender.
func snap(s *fst) *fst {
	n := &fst{heap: map[*fv]*fv{}, facts: map[*fv]bool{}}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

func newFst() *fst {
	return &fst{heap: map[*fv]*fv{}, facts: map[*fv]bool{}, m: map[string]string{}, local: map[*fv]bool{}}
}

func copyM(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func mKey(m map[string]string) string {
	var ks []string
	for k, v := range m {
		if !strings.HasPrefix(k, "~") {
			ks = append(ks, k+"="+v)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s *fst) key() string {
	var ks []string
	for k, v := range s.heap {
		ks = append(ks, fmt.Sprintf("h%d=%d", k.id, v.id))
	}
	for k, v := range s.facts {
		ks = append(ks, fmt.Sprintf("f%d=%v", k.id, v))
	}
	for k := range s.local {
		ks = append(ks, fmt.Sprintf("l%d", k.id))
	}
	for _, g := range s.gor {
		ks = append(ks, fmt.Sprintf("g%p/%d/%d", g.at, g.chosen, g.pos))
	}
	for _, o := range s.trace {
		ks = append(ks, fmt.Sprintf("t%s/%v/%v", o.kind, o.ch, o.v))
	}
	sort.Strings(ks)
	return mKey(s.m) + "#" + strings.Join(ks, ",") + "#" + s.panic
}

func newFlow(c *ctx) *flow {
	return &flow{c: c, p: c.p, terms: map[string]*fv{}, budget: 400000, loops: map[*ssa.Function]*loopInfo{}, funcs: map[*ssa.Function]bool{}, genSrc: map[*fv]map[*fv]bool{}}
}

type flowStop struct{ why string }

func (f *flow) pos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return f.p.pos(in.Pos())
	}
	// the closest instruction that has a position
	b := in.Block()
	at := -1
	for i, x := range b.Instrs {
		if x == in {
			at = i
		}
	}
	for i := at; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return f.p.pos(b.Instrs[i].Pos())
		}
	}
	for i := at + 1; i < len(b.Instrs) && i >= 0; i++ {
		if b.Instrs[i].Pos().IsValid() {
			return f.p.pos(b.Instrs[i].Pos())
		}
	}
	return f.p.pos(in.Parent().Pos())
}

func (s *fst) note(f string, a ...interface{}) {
	if len(s.hist) < 60 {
		s.hist = append(s.hist, fmt.Sprintf(f, a...))
	}
}

// ---- loops

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func (f *flow) loopsOf(fn *ssa.Function) *loopInfo {
	if l := f.loops[fn]; l != nil {
		return l
	}
	l := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			m := l.body[s]
			if m == nil {
				m = map[*ssa.BasicBlock]bool{s: true}
				l.body[s] = m
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if m[x] {
					continue
				}
				m[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	f.loops[fn] = l
	return l
}

// ---- one function

type fpath struct {
	st     *fst
	env    map[ssa.Value]*fv
	defers []fdefer
	blk    *ssa.BasicBlock
	from   *ssa.BasicBlock
	i      int
	carry  map[*ssa.BasicBlock]*frec
	forked map[*ssa.BasicBlock]bool
	rounds map[*ssa.BasicBlock]int
	pre    *fst // the state before a send that may panic
	unw    bool // running defers because of a panic
}

type fdefer struct {
	in   *ssa.Defer
	fn   *fv
	args []*fv
}

type frec struct {
	env map[ssa.Value]*fv
	st  *fst
	gen map[*fv]bool // terms that stand for any value here
}

func (p *fpath) fork() *fpath {
	n := &fpath{st: p.st.clone(), env: map[ssa.Value]*fv{}, blk: p.blk, from: p.from, i: p.i, carry: map[*ssa.BasicBlock]*frec{}, forked: map[*ssa.BasicBlock]bool{}, rounds: map[*ssa.BasicBlock]int{}, unw: p.unw}
	for k, v := range p.env {
		n.env[k] = v
	}
	for k, v := range p.carry {
		n.carry[k] = v
	}
	for k, v := range p.forked {
		n.forked[k] = v
	}
	for k, v := range p.rounds {
		n.rounds[k] = v
	}
	n.defers = append([]fdefer(nil), p.defers...)
	return n
}

func (f *flow) ctxName(in ssa.Instruction) string {
	// the call chain makes sites of different inlined calls different
	s := ""
	for _, g := range f.stack {
		s += fmt.Sprintf("/%p", g)
	}
	if f.uniq {
		for _, g := range f.sites {
			s += fmt.Sprintf("<%p", g)
		}
	}
	return fmt.Sprintf("%p%s", in, s)
}

// round tells the rounds of decided loops apart.
func (f *flow) round(st *fst) string {
	if it := st.m["~it"]; f.uniq && it != "" {
		return "@" + it
	}
	return ""
}

// exec runs fn and returns every way it can end.
func (f *flow) exec(st *fst, fn *ssa.Function, args, binds []*fv) []fout {
	f.funcs[fn] = true
	if f.onLeave != nil {
		saved := f.calls
		f.ncalls++
		f.calls = f.ncalls
		defer func() { f.calls = saved }()
	}
	f.stack = append(f.stack, fn)
	defer func() { f.stack = f.stack[:len(f.stack)-1] }()
	p := &fpath{st: st, env: map[ssa.Value]*fv{}, blk: fn.Blocks[0], carry: map[*ssa.BasicBlock]*frec{}, forked: map[*ssa.BasicBlock]bool{}, rounds: map[*ssa.BasicBlock]int{}}
	for i, x := range fn.Params {
		if i < len(args) {
			p.env[x] = args[i]
		}
	}
	for i, x := range fn.FreeVars {
		if i < len(binds) {
			p.env[x] = binds[i]
		}
	}
	recs := map[*ssa.BasicBlock][]*frec{}
	work := []*fpath{p}
	var outs []fout
	seen := map[string]bool{}
	emit := func(p *fpath, res *fv) {
		f.paths++
		if res == nil {
			res = f.tup()
		}
		k := fmt.Sprintf("%d#%s", res.id, p.st.key())
		if !seen[k] {
			seen[k] = true
			outs = append(outs, fout{p.st, res})
		}
	}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		work = append(work, f.block(p, recs, emit)...)
	}
	return outs
}

// block runs p to the end of its block (or to the point where it splits).
func (f *flow) block(p *fpath, recs map[*ssa.BasicBlock][]*frec, emit func(*fpath, *fv)) []*fpath {
	fn := p.blk.Parent()
	if p.i == 0 {
		if !f.enter(p, recs) {
			return nil
		}
	}
	for p.i < len(p.blk.Instrs) {
		in := p.blk.Instrs[p.i]
		f.steps++
		if f.steps > f.budget {
			panic(flowStop{"too many steps"})
		}
		p.i++
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			return f.branch(p, x)
		case *ssa.Jump:
			p.from, p.blk, p.i = p.blk, p.blk.Succs[0], 0
			return []*fpath{p}
		case *ssa.Return:
			var rs []*fv
			for _, r := range x.Results {
				rs = append(rs, f.val(p, r))
			}
			emit(p, f.tup(rs...))
			return nil
		case *ssa.Panic:
			p.st.panic = "panic(" + f.val(p, x.X).String() + ")"
			p.st.pos = in
			return f.unwind(p, emit)
		case *ssa.RunDefers:
			ps := f.runDefers(p)
			var rest []*fpath
			for _, q := range ps {
				if q.st.panic != "" {
					rest = append(rest, f.unwind(q, emit)...)
				} else {
					rest = append(rest, q)
				}
			}
			return rest
		case *ssa.Defer:
			fv, args := f.callee(p, &x.Call)
			p.defers = append(p.defers, fdefer{x, fv, args})
		case *ssa.Go:
			g, args := f.callee(p, &x.Call)
			f.startGo(p.st, in, g, args)
		case *ssa.Call:
			g, args := f.callee(p, &x.Call)
			if f.onLeave != nil {
				f.frames = append(f.frames, frame{p.env, p.blk, p.i})
			}
			outs := f.call(p.st, x, g, args)
			if f.onLeave != nil {
				f.frames = f.frames[:len(f.frames)-1]
			}
			var rest []*fpath
			for i, o := range outs {
				q := p
				if i < len(outs)-1 {
					q = p.fork()
				}
				q.st = o.st
				if o.st.panic != "" {
					rest = append(rest, f.unwind(q, emit)...)
					continue
				}
				r := o.res
				if r != nil && r.op == "tup" && x.Call.Signature().Results().Len() == 1 && len(r.a) == 1 {
					r = r.a[0]
				}
				if r == nil {
					r = f.tup()
				}
				q.env[x] = r
				rest = append(rest, q)
			}
			if len(rest) == 1 && rest[0] == p && rest[0].st.panic == "" && !p.unw {
				continue
			}
			return rest
		case *ssa.Select:
			return f.sel(p, x)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return f.recvInstr(p, x)
			}
			if !f.simple(p, in) {
				return f.unwind(p, emit)
			}
		default:
			if f.onInstr != nil {
				if outs, ok := f.onInstr(p, in); ok {
					if len(outs) > 1 {
						for h := range p.carry {
							p.forked[h] = true
						}
					}
					var rest []*fpath
					for i, o := range outs {
						q := p
						if i < len(outs)-1 {
							q = p.fork()
						}
						q.st = o.st
						if v, ok := in.(ssa.Value); ok && o.res != nil {
							q.env[v] = o.res
						}
						rest = append(rest, q)
					}
					if len(rest) == 1 {
						continue
					}
					return rest
				}
			}
			n := len(f.stuck)
			if !f.simple(p, in) {
				return f.unwind(p, emit)
			}
			if ps := p.st.m["!fork"]; ps != "" {
				delete(p.st.m, "!fork")
				q := p.fork()
				if p.pre != nil {
					q.st, p.pre = p.pre, nil
					delete(q.st.m, "!fork")
					q.st.note("%s: %s", f.pos(in), ps)
				}
				q.st.panic, q.st.pos = ps, in
				return append(f.unwind(q, emit), p)
			}
			_ = n
		}
	}
	_ = fn
	return nil
}

// enter handles phis and loop heads; false means the state was seen before.
func (f *flow) enter(p *fpath, recs map[*ssa.BasicBlock][]*frec) (goOn bool) {
	b := p.blk
	idx := -1
	for i, x := range b.Preds {
		if x == p.from {
			idx = i
		}
	}
	nv := map[ssa.Value]*fv{}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		if idx >= 0 {
			nv[ph] = f.val(p, ph.Edges[idx])
		}
	}
	li := f.loopsOf(b.Parent())
	body := li.body[b]
	// leaving loops: forget their records
	var left []*ssa.BasicBlock
	for h := range p.carry {
		if !li.body[h][b] {
			if f.onLeave != nil {
				left = append(left, h)
				continue
			}
			delete(p.carry, h)
			delete(p.forked, h)
			delete(p.rounds, h)
		}
	}
	// inner loops first
	sort.Slice(left, func(i, j int) bool { return len(li.body[left[i]]) < len(li.body[left[j]]) })
	if len(left) > 0 {
		defer func() {
			if goOn {
				goOn = f.newThere(p)
			}
		}()
	}
	for _, h := range left {
		r := p.carry[h]
		delete(p.carry, h)
		delete(p.forked, h)
		delete(p.rounds, h)
		f.onLeave(p, h, r)
	}
	if body == nil {
		for k, v := range nv {
			p.env[k] = v
		}
		return true
	}
	back := p.from != nil && body[p.from] && p.carry[b] != nil
	if f.onHead != nil && !f.onHead(p.st, nv) {
		return false // cannot happen
	}
	if !back {
		for k, v := range nv {
			p.env[k] = v
		}
		r := f.record(p, b, body)
		p.carry[b] = r
		recs[b] = append(recs[b], r)
		p.forked[b] = false
		p.rounds[b] = 0
		return true
	}
	old := p.carry[b]
	f.tidy(p.st, old.st)
	if f.onBack != nil {
		f.onBack(p.st, b.Parent(), b, nv, old.env)
	}
	if !p.forked[b] && p.rounds[b] < 100 {
		// everything on the way round was decided: keep going concretely
		p.rounds[b]++
		if f.uniq {
			n, _ := strconv.Atoi(p.st.m["~it"])
			p.st.m["~it"] = fmt.Sprint(n + 1)
		}
		for k, v := range nv {
			p.env[k] = v
		}
		p.carry[b] = f.record(p, b, body)
		return true
	}
	for k, v := range nv {
		p.env[k] = v
	}
	for _, r := range recs[b] {
		if f.covered(p, r, phis) {
			return false
		}
	}
	if f.uniq {
		if it, ok := old.st.m["~it"]; ok {
			p.st.m["~it"] = it
		} else {
			delete(p.st.m, "~it")
		}
	}
	if f.apart != nil && f.different(old, p, phis) {
		r := f.record(p, b, body)
		for t := range old.gen {
			r.gen[t] = true
		}
		recs[b] = append(recs[b], r)
		if len(recs[b]) > 400 {
			panic(flowStop{"loop does not settle: " + fnName(b.Parent())})
		}
		if f.eachRound {
			n, _ := strconv.Atoi(p.st.m["~it"])
			p.st.m["~it"] = fmt.Sprint(n + 1)
		}
		p.carry[b] = r
		p.forked[b] = false
		return true
	}
	// generalise; what changed in step keeps its relation
	g := &general{f: f, os: old.st, ns: p.st.clone(), now: map[*fv]*fv{}}
	if f.onGeneral != nil {
		// what the others are expressed by comes first
		phis = append([]*ssa.Phi(nil), phis...)
		sort.SliceStable(phis, func(i, j int) bool { return f.rank(phis[i].Type()) < f.rank(phis[j].Type()) })
	}
	for _, ph := range phis {
		if old.env[ph] != p.env[ph] {
			p.env[ph] = g.term(old.env[ph], p.env[ph], func() *fv { return f.mk("phi", f.ctxName(ph)+f.round(p.st), ph.Type()) })
		}
	}
	for k := range p.env {
		if in, ok := k.(ssa.Instruction); ok && in.Parent() == b.Parent() && body[in.Block()] {
			if ph, ok := k.(*ssa.Phi); ok && ph.Block() == b {
				continue
			}
			delete(p.env, k)
		}
	}
	for k := range p.env {
		if _, ok := old.env[k]; !ok {
			if ph, ok := k.(*ssa.Phi); !ok || ph.Block() != b {
				delete(p.env, k)
			}
		}
	}
	cells := map[*fv]bool{}
	for a := range old.st.heap {
		cells[a] = true
	}
	for a := range p.st.heap {
		cells[a] = true
	}
	var as []*fv
	for a := range cells {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		o, okO := old.st.heap[a]
		n, okN := p.st.heap[a]
		if okO && okN && o == n {
			continue
		}
		if f.linear && a.op == "faddr" && okO != okN {
			// the field of an object that is there from before
			if t := a.t; t != nil {
				if !okO && old.st.local[a.root()] {
					o, okO = f.load(old.st, nil, a, t), true
				} else if !okN && p.st.local[a.root()] {
					n, okN = f.load(p.st, nil, a, t), true
				}
			}
		}
		if !okO && old.st.local[a.root()] == false && p.st.local[a.root()] {
			delete(p.st.heap, a) // belongs to an object made inside the loop
			continue
		}
		p.st.heap[a] = g.term(o, n, func() *fv {
			if f.uniq {
				return f.mk("cell", f.ctxName(b.Instrs[0])+f.round(p.st), a.t, a)
			}
			return f.mk("cell", fmt.Sprintf("%p", b), a.t, a)
		})
	}
	facts := map[*fv]bool{}
	for k, v := range old.st.facts {
		stale := false
		for t := range g.now {
			stale = stale || !old.gen[t] && k.has(t)
		}
		if stale {
			continue
		}
		if w, ok := f.truthLin(p.st, f.subst(k, g.now)); ok && w == v {
			facts[k] = v
		}
	}
	if f.monotone {
		for i, t := range g.t {
			if d, ok := f.sum(token.SUB, g.n[i], g.o[i], nil).int(); ok && intLike(g.o[i]) {
				if d > 0 {
					facts[f.cmp(token.LSS, t, g.o[i])] = false
				} else if d < 0 {
					facts[f.cmp(token.LSS, g.o[i], t)] = false
				}
			}
		}
	}
	if f.uniq {
		for i, t := range g.t {
			if !intLike(g.o[i]) || !intLike(g.n[i]) || t.op == "sum" {
				continue
			}
			for k := int64(3); k >= 0; k-- {
				if f.entails(old.st, f.num(k), g.o[i], 0) && f.entails(g.ns, f.num(k), g.n[i], 0) {
					facts[f.cmp(token.LSS, t, f.num(k))] = false
					break
				}
			}
		}
	}
	if f.onInv != nil {
		f.onInv(old.st, g.ns, func(x, y, xo, yo, xn, yn *fv) {
			if v := p.st.heap[x]; v != nil {
				x = v
			}
			if f.entails(old.st, xo, yo, 0) && f.entails(g.ns, xn, yn, 0) {
				if c := f.cmp(token.LSS, y, x); c.op != "const" {
					c, pos := f.norm(c)
					facts[c] = !pos
				}
			}
		})
	}
	p.st.facts = facts
	for o := range p.st.local {
		if !old.st.local[o] {
			delete(p.st.local, o)
		}
	}
	for _, r := range recs[b] {
		if f.covered(p, r, phis) {
			return false
		}
	}
	r := f.record(p, b, body)
	for t := range old.gen {
		r.gen[t] = true
	}
	for t := range g.now {
		r.gen[t] = true
	}
	recs[b] = append(recs[b], r)
	if len(recs[b]) > 400 {
		panic(flowStop{"loop does not settle: " + fnName(b.Parent())})
	}
	p.carry[b] = r
	p.forked[b] = false
	return true
}

// different: the state differs from the earlier one in what a loop must not merge.
func (f *flow) different(old *frec, p *fpath, phis []*ssa.Phi) bool {
	for _, ph := range phis {
		if a, b := old.env[ph], p.env[ph]; a != b && f.apart(old.st, p.st, a, b) {
			return true
		}
	}
	for a, v := range p.st.heap {
		if w := old.st.heap[a]; w != v && (f.apart(old.st, p.st, a, nil) || f.apart(old.st, p.st, w, v)) {
			return true
		}
	}
	for a, v := range old.st.heap {
		if w := p.st.heap[a]; w == nil && (f.apart(old.st, p.st, a, nil) || f.apart(old.st, p.st, v, w)) {
			return true
		}
	}
	return mKey(old.st.m) != mKey(p.st.m)
}

// newThere: after a loop, no path with the same state came this way before.
func (f *flow) newThere(p *fpath) bool {
	b := p.blk
	live := f.liveIn(b)
	for v := range p.env {
		if !live[v] {
			delete(p.env, v)
		}
	}
	f.forgetDead(p)
	var ks []string
	for v, t := range p.env {
		ks = append(ks, fmt.Sprintf("%p=%d", v, t.id))
	}
	for h, r := range p.carry {
		ks = append(ks, fmt.Sprintf("%p:%p", h, r))
	}
	for _, d := range p.defers {
		ks = append(ks, fmt.Sprintf("d%p", d.in))
	}
	sort.Strings(ks)
	k := fmt.Sprintf("%s|%d|%s|%s", f.ctxName(b.Instrs[0]), f.calls, strings.Join(ks, ","), p.st.key())
	if f.after == nil {
		f.after = map[string]bool{}
	}
	if f.after[k] {
		return false
	}
	f.after[k] = true
	return true
}

// frame is where a caller is.
type frame struct {
	env map[ssa.Value]*fv
	b   *ssa.BasicBlock
	i   int
}

// forgetDead drops what is known about values that nothing refers to any more.
func (f *flow) forgetDead(p *fpath) {
	seen := map[*fv]bool{}
	var mark func(v *fv)
	mark = func(v *fv) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		for _, a := range v.a {
			mark(a)
		}
	}
	for _, v := range p.env {
		mark(v)
	}
	for a, v := range p.st.heap {
		mark(a)
		mark(v)
	}
	for _, r := range p.carry {
		for _, v := range r.env {
			mark(v)
		}
	}
	for _, d := range p.defers {
		mark(d.fn)
		for _, a := range d.args {
			mark(a)
		}
	}
	for _, fr := range f.frames {
		live := map[ssa.Value]bool{}
		for _, s := range fr.b.Succs {
			for v := range f.liveIn(s) {
				live[v] = true
			}
			for _, q := range s.Instrs {
				if ph, ok := q.(*ssa.Phi); ok {
					for _, e := range ph.Edges {
						live[e] = true
					}
				}
			}
		}
		for _, q := range fr.b.Instrs[fr.i:] {
			for _, o := range q.Operands(nil) {
				if *o != nil {
					live[*o] = true
				}
			}
		}
		for v, t := range fr.env {
			if live[v] {
				mark(t)
			}
		}
	}
	var dead func(v *fv) bool
	dead = func(v *fv) bool {
		if v == nil || seen[v] {
			return false
		}
		if len(v.a) == 0 {
			switch v.op {
			case "const", "nil", "sym", "global", "fn":
				return false
			}
			return true
		}
		for _, a := range v.a {
			if dead(a) {
				return true
			}
		}
		return false
	}
	for k := range p.st.facts {
		if dead(k) {
			delete(p.st.facts, k)
		}
	}
}

// liveIn are the values used in the block or later that are made before it.
func (f *flow) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	fn := b.Parent()
	if f.live == nil {
		f.live = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	if m := f.live[fn]; m != nil {
		return m[b]
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, x := range fn.Blocks {
		in[x] = map[ssa.Value]bool{}
	}
	for again := true; again; {
		again = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			n := map[ssa.Value]bool{}
			for _, s := range x.Succs {
				for v := range in[s] {
					n[v] = true
				}
				for _, p := range s.Instrs {
					ph, ok := p.(*ssa.Phi)
					if !ok {
						break
					}
					for k, e := range ph.Edges {
						if s.Preds[k] == x {
							n[e] = true
						}
					}
				}
			}
			for j := len(x.Instrs) - 1; j >= 0; j-- {
				q := x.Instrs[j]
				if _, ok := q.(*ssa.Phi); ok {
					continue
				}
				if v, ok := q.(ssa.Value); ok {
					delete(n, v)
				}
				for _, o := range q.Operands(nil) {
					if *o != nil {
						n[*o] = true
					}
				}
			}
			// what this block's own phis make is there when the block is run
			for v := range n {
				if !in[x][v] {
					in[x][v], again = true, true
				}
			}
		}
	}
	f.live[fn] = in
	return in[b]
}

// tidy drops, at the end of a loop round, goroutines whose result was taken and what this round sent.
func (f *flow) tidy(st, old *fst) {
	var gs []*fgor
	for i, g := range st.gor {
		if g.chosen >= 0 && i >= len(old.gor) {
			continue
		}
		dup := false
		for _, o := range gs {
			if o.at == g.at && o.chosen < 0 && g.chosen < 0 {
				dup = true
			}
		}
		if !dup {
			gs = append(gs, g)
		}
	}
	st.gor = gs
	if len(st.trace) > len(old.trace) {
		st.trace = st.trace[:len(old.trace)]
	}
}

func (f *flow) record(p *fpath, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) *frec {
	env := map[ssa.Value]*fv{}
	for k, v := range p.env {
		env[k] = v
	}
	return &frec{env: env, st: p.st.clone(), gen: map[*fv]bool{}}
}

// general makes the terms that stand for what changes in a loop. Values that changed in step, or
// integers that stay at a fixed distance, share one.
type general struct {
	f    *flow
	os   *fst
	ns   *fst
	o, n []*fv
	t    []*fv
	now  map[*fv]*fv // value of the term in the state that is generalised
}

func (g *general) term(o, n *fv, name func() *fv) *fv {
	f := g.f
	if o != nil && n != nil {
		if f.onGeneral != nil {
			if t := f.onGeneral(g, o, n); t != nil {
				return t
			}
		}
		co, cn := f.canonical(g.os, o), f.canonical(g.ns, n)
		for i := range g.t {
			if f.canonical(g.os, g.o[i]) == co && f.canonical(g.ns, g.n[i]) == cn {
				return g.t[i]
			}
			d := f.sum(token.SUB, o, g.o[i], nil)
			if _, ok := d.int(); (ok || f.linear && intLike(o) && intLike(g.o[i])) && f.sum(token.SUB, n, g.n[i], nil) == d {
				return f.sum(token.ADD, g.t[i], d, nil)
			}
			if f.linear && intLike(o) && intLike(g.o[i]) {
				if k := f.sum(token.ADD, o, g.o[i], nil); f.sum(token.ADD, n, g.n[i], nil) == k {
					return f.sum(token.SUB, k, g.t[i], nil)
				}
			}
		}
		if (f.spread[o.op] || o.op == "conv" && f.bytesText) && o.op == n.op && o.s == n.s && len(o.a) == len(n.a) {
			var as []*fv
			nm := name()
			for i := range o.a {
				i := i
				if o.a[i] == n.a[i] {
					as = append(as, o.a[i])
				} else {
					as = append(as, g.term(o.a[i], n.a[i], func() *fv {
						t := o.a[i].t
						if t == nil {
							t = n.a[i].t
						}
						return f.mk("phi", fmt.Sprintf("%d/%d", nm.id, i), t)
					}))
				}
			}
			return f.mk(o.op, o.s, o.t, as...)
		}
	}
	t := name()
	if o != nil && n != nil {
		g.o, g.n, g.t = append(g.o, o), append(g.n, n), append(g.t, t)
	}
	if f.genSrc[t] == nil {
		f.genSrc[t] = map[*fv]bool{}
	}
	f.genSrc[t][o], f.genSrc[t][n] = true, true
	g.now[t] = n
	if n == nil {
		g.now[t] = t
	}
	return t
}

func (f *flow) canonical(st *fst, v *fv) *fv {
	if f.canon != nil && v != nil {
		return f.canon(st, v)
	}
	return v
}

// subst replaces terms in a term.
func (f *flow) subst(v *fv, m map[*fv]*fv) *fv {
	if v == nil || len(m) == 0 {
		return v
	}
	if w := m[v]; w != nil {
		return w
	}
	hit := false
	for t := range m {
		if v.has(t) {
			hit = true
		}
	}
	if !hit {
		return v
	}
	as := make([]*fv, len(v.a))
	for i, a := range v.a {
		as[i] = f.subst(a, m)
	}
	switch v.op {
	case "lt":
		return f.cmp(token.LSS, as[0], as[1])
	case "eq":
		return f.cmp(token.EQL, as[0], as[1])
	case "not":
		return f.not(as[0])
	case "sum":
		r := f.num(0)
		for i, a := range as {
			var c int64
			fmt.Sscan(strings.Fields(v.s)[i], &c)
			for ; c > 0; c-- {
				r = f.sum(token.ADD, r, a, v.t)
			}
			for ; c < 0; c++ {
				r = f.sum(token.SUB, r, a, v.t)
			}
		}
		return r
	}
	w := f.mk(v.op, v.s, v.t, as...)
	if w.c == nil {
		w.c = v.c
	}
	if w.fn == nil {
		w.fn = v.fn
	}
	if w.own == nil {
		w.own = v.own
	}
	return w
}

// covered says whether exploring the loop from r covers p.
func (f *flow) covered(p *fpath, r *frec, phis []*ssa.Phi) bool {
	bind := map[*fv]*fv{}
	var match func(pat, v *fv) bool
	match = func(pat, v *fv) bool {
		if r.gen[pat] {
			if w := bind[pat]; w != nil {
				return f.canonical(p.st, w) == f.canonical(p.st, v)
			}
			bind[pat] = v
			return true
		}
		if pat == v {
			for t := range r.gen {
				if pat.has(t) {
					if w := bind[t]; w != nil && w != t {
						return false
					}
					bind[t] = t
				}
			}
			return true
		}
		if pat != nil && v != nil && (f.spread[pat.op] || pat.op == "conv" && f.bytesText) && pat.op == v.op && pat.s == v.s && len(pat.a) == len(v.a) {
			for i := range pat.a {
				if !match(pat.a[i], v.a[i]) {
					return false
				}
			}
			return true
		}
		if pat != nil && pat.op == "sum" {
			for i, a := range pat.a {
				if r.gen[a] {
					rest, minus := f.sum(token.SUB, pat, a, nil), false
					if f.linear && strings.Fields(pat.s)[i] == "-1" {
						rest, minus = f.sum(token.ADD, pat, a, nil), true
					}
					if _, ok := rest.int(); !ok {
						if !f.linear {
							return false
						}
						for t := range r.gen {
							if rest.has(t) {
								return false
							}
						}
					}
					w := f.sum(token.SUB, v, rest, nil)
					if minus {
						w = f.sum(token.SUB, rest, v, nil)
					}
					if x := bind[a]; x != nil {
						return x == w
					}
					bind[a] = w
					return true
				}
			}
		}
		return false
	}
	for _, ph := range phis {
		if !match(r.env[ph], p.env[ph]) {
			return false
		}
	}
	if mKey(p.st.m) != mKey(r.st.m) {
		return false
	}
	var as []*fv
	for a := range r.st.heap {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		v := r.st.heap[a]
		w, ok := p.st.heap[a]
		if !ok {
			if v.op == "cell" && len(v.a) == 1 && v.a[0] == a && r.gen[v] {
				continue
			}
			return false
		}
		if !match(v, w) {
			return false
		}
	}
	for a := range p.st.heap {
		if _, ok := r.st.heap[a]; !ok && (!p.st.local[a.root()] || r.st.local[a.root()]) {
			return false
		}
	}
	for k, v := range r.st.facts {
		if w, ok := f.truthLin(p.st, f.subst(k, bind)); !ok || w != v {
			return false
		}
	}
	if len(p.st.gor) != len(r.st.gor) {
		return false
	}
	for i := range p.st.gor {
		if p.st.gor[i].chosen != r.st.gor[i].chosen || p.st.gor[i].pos != r.st.gor[i].pos || p.st.gor[i].at != r.st.gor[i].at {
			return false
		}
	}
	return len(p.st.trace) == len(r.st.trace)
}

func (f *flow) branch(p *fpath, x *ssa.If) []*fpath {
	c := f.val(p, x.Cond)
	if b, ok := f.decided(p.st, c); ok {
		if f.onIf != nil {
			f.onIf(p.st, x, c, b)
		}
		k := 1
		if b {
			k = 0
		}
		p.from, p.blk, p.i = p.blk, p.blk.Succs[k], 0
		return []*fpath{p}
	}
	for h := range p.carry {
		p.forked[h] = true
	}
	q := p.fork()
	f.assume(p.st, c, true)
	f.assume(q.st, c, false)
	if f.onIf != nil {
		f.onIf(p.st, x, c, true)
		f.onIf(q.st, x, c, false)
	}
	p.from, p.blk, p.i = p.blk, p.blk.Succs[0], 0
	q.from, q.blk, q.i = q.blk, q.blk.Succs[1], 0
	return []*fpath{q, p}
}

// ---- conditions

// norm brings a condition into the form in which facts are kept.
func (f *flow) norm(c *fv) (*fv, bool) {
	pos := true
	for c.op == "not" {
		c, pos = c.a[0], !pos
	}
	return c, pos
}

func (f *flow) nonNil(st *fst, v *fv) bool {
	switch v.op {
	case "obj", "fn", "clo", "faddr", "iaddr", "iface", "const", "err", "struct", "bytes":
		return true
	}
	if b, ok := st.facts[f.cmp(token.EQL, v, f.null())]; ok && !b {
		return true
	}
	return false
}

func (f *flow) truth(st *fst, c *fv) (bool, bool) {
	c, pos := f.norm(c)
	if b, ok := c.boolean(); ok {
		return b == pos, true
	}
	if b, ok := st.facts[c]; ok {
		return b == pos, true
	}
	if c.op == "eq" {
		x, y := c.a[0], c.a[1]
		if x.isNil() && f.nonNil(st, y) || y.isNil() && f.nonNil(st, x) {
			return !pos, true
		}
		if y.op == "const" {
			x, y = y, x
		}
		if x.op == "const" {
			for k, v := range st.facts {
				if !v || k.op != "eq" {
					continue
				}
				if k.a[0] == y && k.a[1].op == "const" && k.a[1] != x || k.a[1] == y && k.a[0].op == "const" && k.a[0] != x {
					return !pos, true
				}
			}
		}
	}
	if f.monotone && len(c.a) == 2 {
		x, y := c.a[0], c.a[1]
		is := func(op string, x, y *fv) bool {
			v, ok := st.facts[f.mk(op, "", nil, x, y)]
			return ok && v
		}
		switch c.op {
		case "eq":
			if is("lt", x, y) || is("lt", y, x) {
				return !pos, true
			}
			// neither before nor after
			a, ok1 := st.facts[f.mk("lt", "", nil, x, y)]
			b, ok2 := st.facts[f.mk("lt", "", nil, y, x)]
			if ok1 && ok2 && !a && !b {
				return pos, true
			}
		case "lt":
			if is("eq", x, y) || is("eq", y, x) || is("lt", y, x) {
				return !pos, true
			}
		}
	}
	if c.op == "lt" {
		if b, ok := f.ltKnown(st, c.a[0], c.a[1]); ok {
			return b == pos, true
		}
	}
	return false, false
}

// truthLin: the same, with linear arithmetic where it is asked for.
func (f *flow) truthLin(st *fst, c *fv) (bool, bool) {
	if b, ok := f.truth(st, c); ok || !f.monotone {
		return b, ok
	}
	n, pos := f.norm(c)
	if n.op != "lt" || !intLike(n.a[0]) || !intLike(n.a[1]) {
		return false, false
	}
	if f.entails(st, n.a[0], n.a[1], -1) {
		return pos, true
	}
	if f.entails(st, n.a[1], n.a[0], 0) {
		return !pos, true
	}
	return false, false
}

// decided: whether a branch can go one way only.
func (f *flow) decided(st *fst, c *fv) (bool, bool) {
	if !f.uniq {
		return f.truth(st, c)
	}
	if b, ok := f.truthLin(st, c); ok {
		return b, ok
	}
	if n, pos := f.norm(c); n.op == "eq" && intLike(n.a[0]) && intLike(n.a[1]) {
		if f.entails(st, n.a[0], n.a[1], -1) || f.entails(st, n.a[1], n.a[0], -1) {
			return !pos, true
		}
	}
	return false, false
}

// rank: pointers before integers before the rest.
func (f *flow) rank(t types.Type) int {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return 0
	}
	if isBasic(t, types.IsInteger) {
		return 1
	}
	return 2
}

// ltKnown decides x<y from constants bounds among the facts.
func (f *flow) ltKnown(st *fst, x, y *fv) (bool, bool) {
	lo := func(v *fv) (int64, bool) { // greatest known lower bound
		if k, ok := v.int(); ok {
			return k, true
		}
		best, ok := int64(0), false
		if v.op == "len" {
			best, ok = 0, true
		}
		for c, b := range st.facts {
			if c.op == "lt" && b && c.a[1] == v {
				if k, o := c.a[0].int(); o && (!ok || k+1 > best) {
					best, ok = k+1, true
				}
			}
			if c.op == "lt" && !b && c.a[0] == v {
				if k, o := c.a[1].int(); o && (!ok || k > best) {
					best, ok = k, true
				}
			}
			if c.op == "eq" && b && (c.a[0] == v || c.a[1] == v) {
				w := c.a[0]
				if w == v {
					w = c.a[1]
				}
				if k, o := w.int(); o && (!ok || k > best) {
					best, ok = k, true
				}
			}
		}
		// a length that is not one of the small values is above them
		for ok {
			if b, has := st.facts[f.cmp(token.EQL, v, f.num(best))]; has && !b {
				best++
				continue
			}
			break
		}
		return best, ok
	}
	hi := func(v *fv) (int64, bool) {
		if k, ok := v.int(); ok {
			return k, true
		}
		best, ok := int64(0), false
		for c, b := range st.facts {
			if c.op == "lt" && b && c.a[0] == v {
				if k, o := c.a[1].int(); o && (!ok || k-1 < best) {
					best, ok = k-1, true
				}
			}
			if c.op == "lt" && !b && c.a[1] == v {
				if k, o := c.a[0].int(); o && (!ok || k < best) {
					best, ok = k, true
				}
			}
			if c.op == "eq" && b && (c.a[0] == v || c.a[1] == v) {
				w := c.a[0]
				if w == v {
					w = c.a[1]
				}
				if k, o := w.int(); o && (!ok || k < best) {
					best, ok = k, true
				}
			}
		}
		return best, ok
	}
	if h, ok := hi(x); ok {
		if l, ok := lo(y); ok && h < l {
			return true, true
		}
	}
	if l, ok := lo(x); ok {
		if h, ok := hi(y); ok && l >= h {
			return false, true
		}
	}
	return false, false
}

func (f *flow) assume(st *fst, c *fv, b bool) {
	c, pos := f.norm(c)
	st.facts[c] = b == pos
}

// cmp builds a normalised comparison.
func (f *flow) cmp(op token.Token, x, y *fv) *fv {
	if x.op == "const" && y.op == "const" && x.c.Kind() == y.c.Kind() && x.c.Kind() != constant.Unknown {
		if x.c.Kind() != constant.Bool || op == token.EQL || op == token.NEQ {
			return f.bool(constant.Compare(x.c, op, y.c))
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *fv
		if x.op == "numtext" && y.op == "const" || y.op == "numtext" && x.op == "const" {
			t, ok := x.text()
			if !ok {
				t, ok = y.text()
			}
			if _, err := strconv.Atoi(t); ok && err != nil {
				if op == token.NEQ {
					return f.bool(true)
				}
				return f.bool(false) // the text of a number is another
			}
		}
		if x == y && x.op != "sym" {
			r = f.bool(true)
		} else if x.isNil() && (y.op == "obj" || y.op == "fn" || y.op == "clo" || y.op == "faddr" || y.op == "iaddr" || y.op == "iface" || y.op == "err" || y.op == "bytes") || y.isNil() && (x.op == "obj" || x.op == "fn" || x.op == "clo" || x.op == "faddr" || x.op == "iaddr" || x.op == "iface" || x.op == "err" || x.op == "bytes") {
			r = f.bool(false)
		} else if x.op == "err" && y.op == "err" && len(x.a)+len(y.a) == 0 && strings.Contains(x.s, "/") && strings.Contains(y.s, "/") {
			r = f.bool(false) // two package variables, each holding an error of its own
		} else if b, ok := y.boolean(); ok {
			r = x
			if !b {
				r = f.not(x)
			}
		} else if b, ok := x.boolean(); ok {
			r = y
			if !b {
				r = f.not(y)
			}
		} else {
			if k, ok := y.int(); ok && k == 0 && x.op == "len" {
				r = f.not(f.mk("lt", "", nil, f.num(0), x))
			} else if k, ok := x.int(); ok && k == 0 && y.op == "len" {
				r = f.not(f.mk("lt", "", nil, f.num(0), y))
			} else {
				if x.id > y.id {
					x, y = y, x
				}
				r = f.mk("eq", "", nil, x, y)
			}
		}
		if op == token.NEQ {
			return f.not(r)
		}
		return r
	case token.LSS:
		// k < len for small k with other forms of the same test
		if k, ok := y.int(); ok && x.op == "len" && k == 1 {
			return f.not(f.mk("lt", "", nil, f.num(0), x))
		}
		return f.mk("lt", "", nil, x, y)
	case token.GTR:
		return f.cmp(token.LSS, y, x)
	case token.GEQ:
		return f.not(f.cmp(token.LSS, x, y))
	case token.LEQ:
		return f.not(f.cmp(token.LSS, y, x))
	}
	return nil
}

func (f *flow) not(x *fv) *fv {
	if b, ok := x.boolean(); ok {
		return f.bool(!b)
	}
	if x.op == "not" {
		return x.a[0]
	}
	return f.mk("not", "", nil, x)
}

// ---- panics and defers

func (f *flow) unwind(p *fpath, emit func(*fpath, *fv)) []*fpath {
	for _, q := range f.runDefers(p) {
		if q.st.panic == "" {
			// recovered: the function returns its named results
			fn := q.blk.Parent()
			if fn.Recover != nil {
				q.from, q.blk, q.i = q.blk, fn.Recover, 0
				q.carry = map[*ssa.BasicBlock]*frec{}
				for len(q.blk.Instrs) > q.i {
					in := q.blk.Instrs[q.i]
					q.i++
					if r, ok := in.(*ssa.Return); ok {
						var rs []*fv
						for _, v := range r.Results {
							rs = append(rs, f.val(q, v))
						}
						emit(q, f.tup(rs...))
						break
					}
					f.simple(q, in)
				}
				continue
			}
			var rs []*fv
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				rs = append(rs, f.zero(fn.Signature.Results().At(i).Type()))
			}
			emit(q, f.tup(rs...))
			continue
		}
		emit(q, nil)
	}
	return nil
}

func (f *flow) runDefers(p *fpath) []*fpath {
	work := []*fpath{p}
	var done []*fpath
	for len(work) > 0 {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		if len(q.defers) == 0 {
			done = append(done, q)
			continue
		}
		d := q.defers[len(q.defers)-1]
		q.defers = q.defers[:len(q.defers)-1]
		was, wasPos := q.st.panic, q.st.pos
		q.st.panic = ""
		old := q.st.m["!panicking"]
		q.st.m["!panicking"] = was
		outs := f.call(q.st, d.in, d.fn, d.args)
		for i, o := range outs {
			r := q
			if i < len(outs)-1 {
				r = q.fork()
			}
			r.st = o.st
			if o.st.panic == "" && o.st.m["!panicking"] != "" {
				o.st.panic, o.st.pos = was, wasPos
			}
			if old == "" {
				delete(o.st.m, "!panicking")
			} else {
				o.st.m["!panicking"] = old
			}
			work = append(work, r)
		}
	}
	return done
}

// ---- goroutines

func (f *flow) startGo(st *fst, in ssa.Instruction, g *fv, args []*fv) {
	for _, a := range args {
		f.share(st, a)
	}
	f.share(st, g)
	if f.onGo != nil && f.onGo(st, in, g, args) {
		return
	}
	if g == nil || g.op != "clo" && g.op != "fn" || g.fn.Blocks == nil || len(f.stack) > 16 {
		return
	}
	for _, s := range f.stack {
		if s == g.fn {
			return
		}
	}
	sub := st.clone()
	sub.inGo = true
	sub.trace = nil
	sub.gor = nil
	f.spawn++
	outs := f.exec(sub, g.fn, append(args, nil)[:len(args)], g.a)
	f.spawn--
	gr := &fgor{at: in, chosen: -1}
	seen := map[string]bool{}
	for _, o := range outs {
		if o.st.panic != "" && f.onCrash != nil {
			f.onCrash(o.st, o.st.pos, "goroutine ends by "+o.st.panic)
		}
		if f.onGoEnd != nil {
			f.onGoEnd(o.st)
		}
		t := &ftrace{ops: o.st.trace, m: o.st.m, crash: o.st.panic, facts: o.st.facts, st: o.st}
		k := t.crash + mKey(t.m)
		for _, x := range t.ops {
			k += fmt.Sprintf("|%s %v %v %s", x.kind, x.ch, x.v, mKey(x.m))
		}
		if !seen[k] {
			seen[k] = true
			gr.traces = append(gr.traces, t)
		}
	}
	st.gor = append(st.gor, gr)
	if f.onSpawn != nil {
		f.onSpawn(st, in, g, gr.traces)
	}
}

// share marks everything reachable from v as visible to others.
func (f *flow) share(st *fst, v *fv) {
	if v == nil {
		return
	}
	seen := map[*fv]bool{}
	var walk func(v *fv)
	walk = func(v *fv) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.op == "obj" && st.local[v] {
			delete(st.local, v)
			for a, w := range st.heap {
				if a.root() == v {
					walk(w)
				}
			}
		}
		for _, a := range v.a {
			walk(a)
		}
	}
	walk(v)
}

// recv returns the ways a receive from ch can go; ok is nil when the channel delivers.
type frecv struct {
	st    *fst
	v, ok *fv
}

func (f *flow) recv(st *fst, in ssa.Instruction, ch *fv, t types.Type, wantOk bool) []frecv {
	if ch.isNil() {
		if f.onBlock != nil {
			f.onBlock(st, in, ch)
		}
		return nil
	}
	// a goroutine we know
	for gi, g := range st.gor {
		touches := false
		for _, t := range g.traces {
			for _, o := range t.ops {
				if o.ch == ch {
					touches = true
				}
			}
		}
		if !touches {
			continue
		}
		var out []frecv
		for ti, tr := range g.traces {
			if g.chosen >= 0 && g.chosen != ti {
				continue
			}
			s := st
			if ti < len(g.traces)-1 && g.chosen < 0 {
				s = st.clone()
			}
			s = st.clone()
			n := *s.gor[gi]
			s.gor[gi] = &n
			n.chosen = ti
			got := false
			for k := n.pos; k < len(tr.ops); k++ {
				if tr.ops[k].ch != ch {
					continue
				}
				got = true
				r := frecv{st: s}
				if tr.ops[k].kind == "send" {
					n.pos = k + 1
					r.v, r.ok = tr.ops[k].v, f.bool(true)
				} else {
					n.pos = k
					r.v, r.ok = f.zero(t), f.bool(false)
				}
				if o := tr.ops[k].st; o != nil {
					for a, v := range o.heap {
						s.heap[a] = v
					}
					for a, v := range o.facts {
						if _, ok := s.facts[a]; !ok {
							s.facts[a] = v
						}
					}
				}
				s.m["~gr"] = ""
				if tr.m["g:h"] == "1" && tr.ops[k].m["g:hdone"] != "1" {
					s.m["~gr"] = "running"
				}
				for mk, mv := range tr.ops[k].m {
					if strings.HasPrefix(mk, "g:") {
						s.m[mk] = mv
					}
				}
				out = append(out, r)
				break
			}
			if !got && f.onBlock != nil {
				f.onBlock(s, in, ch)
			}
		}
		return out
	}
	if st.heap[f.mk("closed", "", nil, ch)] != nil {
		return []frecv{{st, f.zero(t), f.bool(false)}}
	}
	if ch.op == "obj" && st.local[ch] {
		if f.onBlock != nil {
			f.onBlock(st, in, ch)
		}
		return nil
	}
	v := f.fresh(st, in, "recv", t, ch)
	f.sync(st)
	return []frecv{{st, v, f.fresh(st, in, "recvok", types.Typ[types.Bool], ch)}}
}

func (f *flow) recvInstr(p *fpath, x *ssa.UnOp) []*fpath {
	ch := f.val(p, x.X)
	t := x.X.Type().Underlying().(*types.Chan).Elem()
	var out []*fpath
	rs := f.recv(p.st, x, ch, t, x.CommaOk)
	for i, r := range rs {
		q := p
		if i < len(rs)-1 {
			q = p.fork()
		}
		q.st = r.st
		if x.CommaOk {
			q.env[x] = f.tup(r.v, r.ok)
		} else {
			q.env[x] = r.v
		}
		if f.onRecv != nil {
			f.onRecv(q.st, x, ch, r.v, r.ok)
		}
		out = append(out, q)
	}
	if len(rs) > 1 {
		for _, q := range out {
			for h := range q.carry {
				q.forked[h] = true
			}
		}
	}
	return out
}

// sync: another goroutine may have written whatever is shared.
func (f *flow) sync(st *fst) {
	for a := range st.heap {
		r := a.root()
		if r == nil || a.op == "closed" {
			continue
		}
		if st.local[r] || f.stable != nil && f.stable(a) {
			continue
		}
		if r.op == "global" || r.op == "obj" || r.op == "sym" || r.op == "ta" {
			if r.op == "obj" && strings.HasPrefix(r.s, "cell:") {
				continue // captured variable: rules about goroutines look at traces
			}
			st.heap[a] = f.mk("shared", "", a.t, a)
		}
	}
}

func (f *flow) sel(p *fpath, x *ssa.Select) []*fpath {
	var chans []*fv
	for _, s := range x.States {
		chans = append(chans, f.val(p, s.Chan))
	}
	for h := range p.carry {
		p.forked[h] = true
	}
	var out []*fpath
	n := len(x.States)
	mkRes := func(q *fpath, i int, ok *fv, recvs []*fv) {
		q.env[x] = f.tup(append([]*fv{f.num(int64(i)), ok}, recvs...)...)
	}
	for i := 0; i < n; i++ {
		s := x.States[i]
		if chans[i].isNil() {
			continue // never ready
		}
		zeros := func() []*fv {
			var r []*fv
			for _, t := range x.States {
				if t.Dir == types.RecvOnly {
					r = append(r, f.zero(t.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
			return r
		}
		at := 0
		for j := 0; j < i; j++ {
			if x.States[j].Dir == types.RecvOnly {
				at++
			}
		}
		base := p.fork()
		if f.onSelect != nil {
			f.onSelect(base.st, x, i, chans)
		}
		if s.Dir == types.SendOnly {
			v := f.val(base, s.Send)
			if f.sendPanics != nil && f.sendPanics(base.st, x, chans[i]) && f.onCrash != nil {
				f.onCrash(base.st, x, "send on a channel that may be closed")
			}
			f.send(base.st, x, chans[i], v)
			if base.st.panic != "" {
				// reported by send
				continue
			}
			mkRes(base, i, f.bool(false), zeros())
			out = append(out, base)
			continue
		}
		t := s.Chan.Type().Underlying().(*types.Chan).Elem()
		rs := f.recv(base.st, x, chans[i], t, true)
		for k, r := range rs {
			q := base
			if k < len(rs)-1 {
				q = base.fork()
			}
			q.st = r.st
			z := zeros()
			z[at] = r.v
			mkRes(q, i, r.ok, z)
			if f.onRecv != nil {
				f.onRecv(q.st, x, chans[i], r.v, r.ok)
			}
			out = append(out, q)
		}
	}
	if !x.Blocking {
		q := p.fork()
		if f.onSelect != nil {
			f.onSelect(q.st, x, -1, chans)
		}
		var z []*fv
		for _, t := range x.States {
			if t.Dir == types.RecvOnly {
				z = append(z, f.zero(t.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		mkRes(q, -1, f.bool(false), z)
		out = append(out, q)
	}
	return out
}

func (f *flow) send(st *fst, in ssa.Instruction, ch, v *fv) {
	if st.heap[f.mk("closed", "", nil, ch)] != nil {
		st.panic, st.pos = "send on closed channel", in
		if f.onCrash != nil && !st.inGo {
			f.onCrash(st, in, "send on a closed channel")
		}
		return
	}
	f.share(st, v)
	if st.inGo {
		st.trace = append(st.trace, gop{"send", ch, v, copyM(st.m), in, snap(st)})
	}
	if f.onSend != nil {
		f.onSend(st, in, ch, v)
	}
}

// ---- values

func (f *flow) zero(t types.Type) *fv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return f.bool(false)
		case u.Info()&types.IsString != 0:
			return f.str("")
		case u.Info()&types.IsNumeric != 0:
			return f.num(0)
		}
		return f.null()
	case *types.Struct:
		var fs []*fv
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, f.zero(u.Field(i).Type()))
		}
		return f.mk("struct", "", t, fs...)
	case *types.Array:
		return f.mk("zeroarr", t.String(), t)
	}
	return f.null()
}

func (f *flow) val(p *fpath, v ssa.Value) *fv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return f.zero(x.Type())
		}
		return f.con(x.Value)
	case *ssa.Function:
		return f.fun(x)
	case *ssa.Global:
		r := f.mk("global", x.RelString(nil), x.Type())
		return r
	case *ssa.Builtin:
		return f.mk("builtin", x.Name(), nil)
	}
	if r := p.env[v]; r != nil {
		return r
	}
	r := f.mk("undef", fmt.Sprintf("%p", v), v.Type())
	return r
}

// fresh is an unknown result of this site; what was known about its earlier incarnation is forgotten.
func (f *flow) fresh(st *fst, in ssa.Instruction, op string, t types.Type, a ...*fv) *fv {
	n := f.ctxName(in) + f.round(st)
	r := f.mk(op, n, t, a...)
	f.forget(st, r)
	return r
}

func (f *flow) forget(st *fst, r *fv) {
	for k := range st.facts {
		if k.has(r) {
			delete(st.facts, k)
		}
	}
	for k := range st.heap {
		if k.has(r) {
			delete(st.heap, k)
		}
	}
}

func (f *flow) load(st *fst, in ssa.Instruction, addr *fv, t types.Type) *fv {
	if f.onLoad != nil {
		if v := f.onLoad(st, in, addr); v != nil {
			return v
		}
	}
	if v := st.heap[addr]; v != nil {
		return v
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		any := st.local[addr.root()]
		for a := range st.heap {
			if a.op == "faddr" && a.a[0] == addr {
				any = true
			}
		}
		if any {
			var fs []*fv
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, f.load(st, in, f.faddr(addr, s, i), s.Field(i).Type()))
			}
			return f.mk("struct", "", t, fs...)
		}
	}
	r := addr.root()
	if r != nil && r.op == "obj" && !st.local[r] && addr.op == "faddr" && !(f.stable != nil && f.stable(addr)) && f.p.fieldStores(addr.own, addr.s) != 0 {
		if e := st.m["~epoch"]; e != "" {
			return f.mk("shared", "", t, addr, f.mk("epoch", e, nil))
		}
		return f.mk("shared", "", t, addr)
	}
	if r != nil && r.op == "obj" && addr.op != "iaddr" && !strings.HasPrefix(r.s, "slice:") {
		return f.zero(t)
	}
	if r != nil && r.op == "obj" && addr.op == "iaddr" && addr.a[1].op == "const" {
		return f.zero(t)
	}
	if addr.op == "global" {
		if v := f.globalConst(addr.s); v != nil {
			return v
		}
	}
	if addr.op == "faddr" && f.p.fieldStores(addr.own, addr.s) == 0 {
		return f.zero(t)
	}
	if e := st.m["~epoch"]; e != "" && (addr.op == "faddr" || addr.op == "global") {
		if _, ok := t.Underlying().(*types.Basic); ok && !(f.stable != nil && f.stable(addr)) {
			return f.mk("ld", "", t, addr, f.mk("epoch", e, nil))
		}
	}
	return f.mk("ld", "", t, addr)
}

// globalConst is the value of a package variable that only its initialiser sets.
func (f *flow) globalConst(name string) *fv {
	var val ssa.Value
	n := 0
	for _, g := range f.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if a, ok := s.Addr.(*ssa.Global); ok && a.RelString(nil) == name {
					n++
					val = s.Val
					if g.Name() != "init" {
						n += 10
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	for {
		switch x := val.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return f.zero(x.Type())
			}
			return f.con(x.Value)
		case *ssa.Function:
			return f.fun(x)
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g.String() == "errors.New" {
				return f.mk("err", name, x.Type())
			} else if g != nil && g.String() == "fmt.Errorf" {
				return f.mk("err", "wrap:"+name, x.Type())
			}
			return nil
		case *ssa.MakeInterface:
			if _, ok := x.X.(*ssa.Alloc); ok {
				o := f.mk("obj", "global:"+name, x.X.Type())
				return f.mk("iface", x.X.Type().String(), x.X.Type(), o)
			}
			return nil
		case *ssa.Alloc:
			return f.mk("obj", "global:"+name, x.Type())
		case *ssa.ChangeType:
			val = x.X
			continue
		}
		return nil
	}
}

func (f *flow) store(st *fst, in ssa.Instruction, addr, v *fv) {
	if f.onStore != nil {
		f.onStore(st, in, addr, v)
	}
	if !st.local[addr.root()] {
		f.share(st, v)
	}
	for a := range st.heap {
		if a != addr && a.has(addr) && (a.op == "faddr" || a.op == "iaddr") && within(a, addr) {
			delete(st.heap, a)
		}
	}
	if v.op == "struct" && v.t != nil {
		if s, ok := v.t.Underlying().(*types.Struct); ok {
			delete(st.heap, addr)
			for i := 0; i < s.NumFields(); i++ {
				st.heap[f.faddr(addr, s, i)] = v.a[i]
			}
			return
		}
	}
	if addr.op == "iaddr" && addr.a[1].op != "const" {
		for a := range st.heap {
			if a.op == "iaddr" && a.a[0] == addr.a[0] && a != addr {
				st.heap[a] = f.mk("cell", fmt.Sprintf("%p", in), a.t, a)
			}
		}
	}
	if v.op == "zeroarr" {
		return
	}
	st.heap[addr] = v
}

// fieldStores counts the places that set a field of a struct of the module: 0 none, 1 only where the
// struct is made, 2 elsewhere too; -1 for structs of other modules.
func (p *Prog) fieldStores(s *types.Struct, name string) int {
	if p.fstores == nil {
		p.fstores = map[*types.Struct]map[string]int{}
		for _, sp := range p.ByPath {
			for _, m := range sp.Members {
				if t, ok := m.(*ssa.Type); ok {
					if u, ok := t.Type().Underlying().(*types.Struct); ok {
						p.fstores[u] = map[string]int{}
					}
				}
			}
		}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						u := fstructOf(x.X.Type())
						m := p.fstores[u]
						if m == nil || x.Referrers() == nil {
							continue
						}
						n := u.Field(x.Field).Name()
						for _, r := range *x.Referrers() {
							switch y := r.(type) {
							case *ssa.Store:
								if y.Addr != x {
									m[n] = 2 // the address is kept somewhere
									continue
								}
								k := 2
								if _, ok := x.X.(*ssa.Alloc); ok {
									k = 1
								}
								if m[n] < k {
									m[n] = k
								}
							case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							default:
								m[n] = 2
							}
						}
					case *ssa.Store:
						// a whole struct is overwritten
						if u, ok := x.Val.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < u.NumFields(); i++ {
								if m := p.fstores[u]; m != nil {
									m[u.Field(i).Name()] = 2
								}
							}
						}
					}
				}
			}
		}
	}
	m := p.fstores[s]
	if m == nil {
		return -1
	}
	return m[name]
}

// within: a is a part of b.
func within(a, b *fv) bool {
	for a.op == "faddr" || a.op == "iaddr" {
		a = a.a[0]
		if a == b {
			return true
		}
	}
	return false
}

func (f *flow) faddr(base *fv, s *types.Struct, i int) *fv {
	r := f.mk("faddr", s.Field(i).Name(), s.Field(i).Type(), base)
	r.own = s
	return r
}

func (f *flow) newObj(st *fst, in ssa.Instruction, kind string, t types.Type) *fv {
	n := f.ctxName(in) + f.round(st)
	o := f.mk("obj", kind+":"+n, t)
	f.forget(st, o)
	st.local[o] = true
	return o
}

func fstructOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// simple executes an instruction that does not split the path; false: it panics.
func (f *flow) simple(p *fpath, in ssa.Instruction) bool {
	st := p.st
	crash := func(why string) bool {
		st.panic, st.pos = why, in
		return false
	}
	isNil := func(v *fv) bool {
		if v.isNil() {
			return true
		}
		b, ok := st.facts[f.cmp(token.EQL, v, f.null())]
		return ok && b
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		k := "new"
		if x.Heap {
			k = "cell"
			if _, ok := derefType(x.Type()).Underlying().(*types.Struct); ok {
				k = "new"
			}
		}
		p.env[x] = f.newObj(st, in, k, x.Type())
	case *ssa.MakeChan:
		o := f.newObj(st, in, "chan", x.Type())
		st.heap[f.mk("cap", "", nil, o)] = f.val(p, x.Size)
		p.env[x] = o
	case *ssa.MakeMap:
		p.env[x] = f.newObj(st, in, "map", x.Type())
	case *ssa.MakeSlice:
		o := f.newObj(st, in, "slice", x.Type())
		st.heap[f.mk("lenof", "", nil, o)] = f.val(p, x.Len)
		p.env[x] = o
		if f.onMake != nil {
			f.onMake(st, in, f.val(p, x.Len))
			if x.Cap != x.Len {
				f.onMake(st, in, f.val(p, x.Cap))
			}
		}
	case *ssa.MakeClosure:
		var bs []*fv
		for _, b := range x.Bindings {
			bs = append(bs, f.val(p, b))
		}
		fn := x.Fn.(*ssa.Function)
		c := f.mk("clo", fmt.Sprintf("%p", fn), x.Type(), bs...)
		c.fn = fn
		p.env[x] = c
	case *ssa.MakeInterface:
		v := f.val(p, x.X)
		if v.op == "err" {
			p.env[x] = v
			break
		}
		p.env[x] = f.mk("iface", x.X.Type().String(), x.X.Type(), v)
	case *ssa.ChangeType:
		p.env[x] = f.val(p, x.X)
	case *ssa.ChangeInterface:
		p.env[x] = f.val(p, x.X)
	case *ssa.Convert:
		p.env[x] = f.convert(f.val(p, x.X), x.X.Type(), x.Type())
		delete(st.m, fmt.Sprintf("inside:%d", p.env[x].id)) // a copy
	case *ssa.FieldAddr:
		b := f.val(p, x.X)
		if isNil(b) {
			return crash("nil dereference")
		}
		if b.op == "shared" || b.op == "maybenil" {
			if _, ok := st.facts[f.cmp(token.EQL, b, f.null())]; !ok && b.op == "maybenil" {
				f.assume(st, f.cmp(token.EQL, b, f.null()), false)
				st.m["!fork"] = "nil dereference"
			}
		}
		p.env[x] = f.faddr(b, fstructOf(x.X.Type()), x.Field)
	case *ssa.Field:
		b := f.val(p, x.X)
		if b.op == "struct" && x.Field < len(b.a) {
			p.env[x] = b.a[x.Field]
		} else if b.op == "ld" {
			p.env[x] = f.load(st, in, f.faddr(b.a[0], fstructOf(x.X.Type()), x.Field), x.Type())
		} else {
			p.env[x] = f.mk("field", fstructOf(x.X.Type()).Field(x.Field).Name(), x.Type(), b)
		}
	case *ssa.IndexAddr:
		b, i := f.val(p, x.X), f.val(p, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			f.bound(p, b, i, false)
		}
		p.env[x] = f.iaddr(b, i, derefType(x.Type()))
	case *ssa.Index:
		b, i := f.val(p, x.X), f.val(p, x.Index)
		f.bound(p, b, i, false)
		p.env[x] = f.charAt(st, in, b, i, x.Type())
	case *ssa.Store:
		a := f.val(p, x.Addr)
		if isNil(a) {
			return crash("nil dereference")
		}
		f.store(st, in, a, f.val(p, x.Val))
	case *ssa.UnOp:
		v := f.val(p, x.X)
		switch x.Op {
		case token.MUL:
			if isNil(v) {
				return crash("nil dereference")
			}
			p.env[x] = f.load(st, in, v, x.Type())
		case token.NOT:
			p.env[x] = f.not(v)
		default:
			if v.op == "const" {
				p.env[x] = f.con(constant.UnaryOp(x.Op, v.c, 0))
			} else if x.Op == token.SUB && f.linear && isBasic(x.Type(), types.IsInteger) {
				p.env[x] = f.sum(token.SUB, f.num(0), v, x.Type())
			} else {
				p.env[x] = f.mk("un", x.Op.String(), x.Type(), v)
			}
		}
	case *ssa.BinOp:
		p.env[x] = f.binop(x.Op, f.val(p, x.X), f.val(p, x.Y), x.Type(), x.X.Type())
	case *ssa.Slice:
		p.env[x] = f.slice(p, x)
	case *ssa.Extract:
		t := f.val(p, x.Tuple)
		if t.op == "tup" && x.Index < len(t.a) && t.a[x.Index] != nil {
			p.env[x] = t.a[x.Index]
		} else {
			p.env[x] = f.mk("res", fmt.Sprint(x.Index), x.Type(), t)
		}
	case *ssa.TypeAssert:
		v := f.val(p, x.X)
		same := func() bool { return v.op == "iface" && types.Identical(v.t, x.AssertedType) }
		switch {
		case same():
			if x.CommaOk {
				p.env[x] = f.tup(v.a[0], f.bool(true))
			} else {
				p.env[x] = v.a[0]
			}
		case v.op == "iface" && !types.IsInterface(x.AssertedType) || v.isNil():
			if !x.CommaOk {
				return crash("type assertion fails")
			}
			p.env[x] = f.tup(f.zero(x.AssertedType), f.bool(false))
		case types.IsInterface(x.AssertedType) && (v.op == "iface" || v.op == "err"):
			ok := f.bool(true)
			if v.op == "iface" && !types.Implements(v.t, x.AssertedType.Underlying().(*types.Interface)) {
				ok = f.bool(false)
			}
			if x.CommaOk {
				p.env[x] = f.tup(v, ok)
			} else if b, _ := ok.boolean(); b {
				p.env[x] = v
			} else {
				return crash("type assertion fails")
			}
		default:
			r := f.mk("ta", x.AssertedType.String(), x.AssertedType, v)
			if x.CommaOk {
				p.env[x] = f.tup(r, f.mk("taok", x.AssertedType.String(), nil, v))
			} else {
				p.env[x] = r
				ok := f.mk("taok", x.AssertedType.String(), nil, v)
				if f.asserts {
					if b, known := st.facts[ok]; !known || !b {
						p.pre = st.clone()
						p.pre.facts[ok] = false
						st.m["!fork"] = "type assertion may fail"
						st.facts[ok] = true
					}
				}
			}
		}
	case *ssa.Lookup:
		m, k := f.val(p, x.X), f.val(p, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			f.bound(p, m, k, false)
			p.env[x] = f.charAt(st, in, m, k, x.Type())
			break
		}
		v := f.mk("lookup", "", x.Type(), m, k)
		if c := st.heap[f.mk("mapcell", "", nil, m, k)]; c != nil {
			v = c
		}
		if x.CommaOk {
			p.env[x] = f.tup(v, f.mk("inmap", "", nil, m, k))
		} else {
			p.env[x] = v
		}
	case *ssa.MapUpdate:
		m, k, v := f.val(p, x.Map), f.val(p, x.Key), f.val(p, x.Value)
		st.heap[f.mk("mapcell", "", nil, m, k)] = v
		f.share(st, v)
		if f.onStore != nil {
			f.onStore(st, in, f.mk("mapcell", "", nil, m, k), v)
		}
	case *ssa.Range:
		p.env[x] = f.fresh(st, in, "iter", nil, f.val(p, x.X))
	case *ssa.Next:
		it := f.val(p, x.Iter)
		ok := f.fresh(st, in, "next", nil, it)
		p.env[x] = f.tup(ok, f.mk("nextkey", "", nil, ok), f.mk("nextval", "", nil, ok))
	case *ssa.Send:
		ch := f.val(p, x.Chan)
		if f.sendPanics != nil && f.sendPanics(st, in, ch) {
			st.m["!fork"] = "send on closed channel"
			p.pre = st.clone()
		}
		f.send(st, in, ch, f.val(p, x.X))
		if st.panic != "" {
			return false
		}
	case *ssa.DebugRef:
	default:
		if v, ok := in.(ssa.Value); ok {
			p.env[v] = f.fresh(st, in, "unk", v.Type())
		}
	}
	return true
}

// bound: an index that the path does not show to be inside may panic.
func (f *flow) bound(p *fpath, b, i *fv, slice bool) {
	if f.linear {
		if !slice {
			n := f.length(p.st, b)
			f.inside(p.st, p.blk.Instrs[p.i], "index "+clean(i)+" of "+clean(b), f.num(0), i, f.sum(token.SUB, n, f.num(1), nil))
		}
		return
	}
	k, ok := i.int()
	if !ok {
		return
	}
	n := f.length(p.st, b)
	var c *fv
	if slice {
		if k == 0 {
			return
		}
		c = f.not(f.cmp(token.LSS, n, f.num(k)))
	} else {
		c = f.cmp(token.LSS, f.num(k), n)
	}
	if t, known := f.truth(p.st, c); known && t {
		return
	}
	p.pre = p.st.clone()
	f.assume(p.pre, c, false)
	f.assume(p.st, c, true)
	p.st.m["!fork"] = "index out of range"
}

// charAt is one byte of a text.
func (f *flow) charAt(st *fst, in ssa.Instruction, b, i *fv, t types.Type) *fv {
	if f.linear {
		if b.op == "conv" && (b.s == "string" || b.s == "[]byte") {
			b = b.a[0]
		}
		if b.op != "const" {
			return f.load(st, in, f.iaddr(b, i, t), t)
		}
	}
	return f.mk("index", "", t, b, i)
}

func (f *flow) iaddr(b, i *fv, t types.Type) *fv {
	if f.linear && b.op == "slice" {
		return f.iaddr(b.a[0], f.sum(token.ADD, b.a[1], i, nil), t)
	}
	if b.op == "slice" {
		if lo, ok := b.a[1].int(); ok {
			if k, ok := i.int(); ok {
				return f.iaddr(b.a[0], f.num(lo+k), t)
			}
			if lo == 0 {
				return f.iaddr(b.a[0], i, t)
			}
		}
	}
	return f.mk("iaddr", "", t, b, i)
}

func (f *flow) length(st *fst, v *fv) *fv {
	switch v.op {
	case "const":
		if s, ok := v.text(); ok {
			return f.num(int64(len(s)))
		}
	case "nil":
		return f.num(0)
	case "obj":
		if l := st.heap[f.mk("lenof", "", nil, v)]; l != nil {
			return l
		}
		if p, ok := v.t.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return f.num(a.Len())
			}
		}
	case "slice":
		hi := v.a[2]
		if hi == nil {
			hi = f.length(st, v.a[0])
		}
		return f.binop(token.SUB, hi, v.a[1], types.Typ[types.Int], nil)
	case "append1":
		return f.binop(token.ADD, f.length(st, v.a[0]), f.num(1), types.Typ[types.Int], nil)
	case "append":
		if len(v.a) == 2 {
			return f.binop(token.ADD, f.length(st, v.a[0]), f.length(st, v.a[1]), types.Typ[types.Int], nil)
		}
	case "conv":
		if v.s == "string" || v.s == "[]byte" {
			return f.length(st, v.a[0])
		}
	case "cat":
		n := f.num(0)
		for _, a := range v.a {
			n = f.binop(token.ADD, n, f.length(st, a), types.Typ[types.Int], nil)
		}
		return n
	}
	return f.mk("len", "", nil, v)
}

func (f *flow) slice(p *fpath, x *ssa.Slice) *fv {
	b := f.val(p, x.X)
	lo, hi := f.num(0), (*fv)(nil)
	if x.Low != nil {
		lo = f.val(p, x.Low)
	}
	if x.High != nil {
		hi = f.val(p, x.High)
	}
	if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
		f.bound(p, b, lo, true)
	}
	if f.onSlice != nil {
		if v := f.onSlice(p.st, b, lo, hi); v != nil {
			return v
		}
	}
	if f.linear {
		n := f.length(p.st, b)
		h := hi
		if h == nil {
			h = n
		} else if !f.entails(p.st, h, n, 0) && f.entails(p.st, h, f.mk("cap", "", nil, b), 0) {
			n = f.mk("cap", "", nil, b)
		}
		f.inside(p.st, x, "slice of "+clean(b), f.num(0), lo, h, n)
	}
	k, isK := lo.int()
	if isK && k == 0 && hi == nil {
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
			return b
		}
	}
	if hi != nil && hi == f.length(p.st, b) {
		hi = nil
	}
	if isK && k == 0 && hi == nil {
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
			return b
		}
	}
	if s, ok := b.text(); ok && isK && int(k) <= len(s) {
		if hi == nil {
			return f.str(s[k:])
		}
		if h, ok := hi.int(); ok && h >= k && int(h) <= len(s) {
			return f.str(s[k:h])
		}
	}
	if _, ok := x.X.Type().Underlying().(*types.Pointer); f.linear && !ok {
		return f.cutSlice(b, lo, hi, x.Type())
	}
	if b.op == "slice" && hi == nil {
		// a tail of a tail
		return f.mk("slice", "", x.Type(), b.a[0], f.binop(token.ADD, b.a[1], lo, types.Typ[types.Int], nil), b.a[2])
	}
	return f.mk("slice", "", x.Type(), b, lo, hi)
}

func (f *flow) convert(v *fv, from, to types.Type) *fv {
	if v.op == "const" {
		switch {
		case isBasic(to, types.IsInteger) && v.c.Kind() == constant.Int:
			return v
		case isBasic(to, types.IsString) && isBasic(from, types.IsString):
			return v
		case isBasic(to, types.IsFloat) && v.c.Kind() == constant.Int:
			return f.con(constant.ToFloat(v.c))
		}
	}
	n := types.TypeString(to.Underlying(), func(*types.Package) string { return "" })
	if n == "[]uint8" {
		n = "[]byte"
	}
	if isBasic(to, types.IsString) {
		n = "string"
		if isBasic(from, types.IsString) {
			return v
		}
	}
	if n == "string" && v.op == "conv" && v.s == "[]byte" || n == "[]byte" && v.op == "conv" && v.s == "string" && false {
		return v.a[0]
	}
	if isBasic(to, types.IsInteger) && isBasic(from, types.IsInteger) {
		return f.mk("conv", n, to, v)
	}
	return f.mk("conv", n, to, v)
}

func (f *flow) binop(op token.Token, x, y *fv, t, xt types.Type) *fv {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		return f.cmp(op, x, y)
	}
	if x.op == "const" && y.op == "const" {
		if op == token.QUO || op == token.REM {
			if k, ok := y.int(); !ok || k == 0 {
				return f.mk("bin", op.String(), t, x, y)
			}
		}
		if op == token.SHL || op == token.SHR {
			if k, ok := y.int(); ok && k < 64 {
				return f.con(constant.Shift(x.c, op, uint(k)))
			}
			return f.mk("bin", op.String(), t, x, y)
		}
		if op == token.QUO && isBasic(t, types.IsInteger) {
			op = token.QUO_ASSIGN
		}
		return f.con(constant.BinaryOp(x.c, op, y.c))
	}
	if op == token.ADD && t != nil && isBasic(t, types.IsString) {
		return f.cat(x, y)
	}
	if op == token.ADD || op == token.SUB {
		return f.sum(op, x, y, t)
	}
	return f.mk("bin", op.String(), t, x, y)
}

// sum keeps integer sums in a normal form: a constant plus signed terms.
func (f *flow) sum(op token.Token, x, y *fv, t types.Type) *fv {
	co := map[*fv]int64{}
	var k int64
	var add func(v *fv, s int64)
	add = func(v *fv, s int64) {
		if c, ok := v.int(); ok {
			k += s * c
			return
		}
		if v.op == "sum" {
			for i, a := range v.a {
				var c int64
				fmt.Sscan(strings.Fields(v.s)[i], &c)
				add(a, s*c)
			}
			return
		}
		co[v] += s
	}
	add(x, 1)
	if op == token.SUB {
		add(y, -1)
	} else {
		add(y, 1)
	}
	var as []*fv
	for v, c := range co {
		if c != 0 {
			as = append(as, v)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 0 {
		return f.num(k)
	}
	if len(as) == 1 && co[as[0]] == 1 && k == 0 {
		return as[0]
	}
	var cs []string
	for _, a := range as {
		cs = append(cs, fmt.Sprint(co[a]))
	}
	if k != 0 {
		as = append(as, f.num(1))
		cs = append(cs, fmt.Sprint(k))
	}
	return f.mk("sum", strings.Join(cs, " "), t, as...)
}

// cat joins texts; neighbouring constants are merged.
func (f *flow) cat(xs ...*fv) *fv {
	var ps []*fv
	var add func(v *fv)
	add = func(v *fv) {
		if v.op == "cat" {
			for _, a := range v.a {
				add(a)
			}
			return
		}
		if s, ok := v.text(); ok {
			if s == "" {
				return
			}
			if n := len(ps); n > 0 {
				if q, ok := ps[n-1].text(); ok {
					ps[n-1] = f.str(q + s)
					return
				}
			}
		}
		ps = append(ps, v)
	}
	for _, x := range xs {
		add(x)
	}
	switch len(ps) {
	case 0:
		return f.str("")
	case 1:
		return ps[0]
	}
	return f.mk("cat", "", nil, ps...)
}

// constTable is what a package map holds that nothing changes after its literal.
func (f *flow) constTable(m ssa.Value) (keys, vals []*fv) {
	u, ok := m.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil, nil
	}
	var lit *ssa.MakeMap
	n := 0
	for _, fn := range f.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						lit, _ = x.Val.(*ssa.MakeMap)
						if n++; n > 1 || lit == nil || fn.Name() != "init" || x.Addr != g {
							return nil, nil
						}
					case *ssa.UnOp:
						for _, r := range *x.Referrers() {
							switch r := r.(type) {
							case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
							case *ssa.Call:
								if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
									return nil, nil
								}
							default:
								return nil, nil
							}
						}
					case *ssa.DebugRef:
					default:
						return nil, nil
					}
				}
			}
		}
	}
	if lit == nil {
		return nil, nil
	}
	for _, r := range *lit.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			k, ok1 := r.Key.(*ssa.Const)
			v, ok2 := r.Value.(*ssa.Const)
			if !ok1 || !ok2 || k.Value == nil || v.Value == nil || r.Map != lit {
				return nil, nil
			}
			keys, vals = append(keys, f.con(k.Value)), append(vals, f.con(v.Value))
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, nil
		}
	}
	return keys, vals
}
