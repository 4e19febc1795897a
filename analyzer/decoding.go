package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01, C02: the decoder. It is interpreted on a reader of which nothing is known: every
// read gives an arbitrary line, arbitrary bytes or an error. Ghost state says which header
// line was read and not dealt with yet, how many values of the current array are complete,
// and which slice holds the arguments so far. Functions that call each other recursively are
// taken one at a time; a call between them is replaced by what the callee is asked for
// (one value, or as many values as an argument says), and the callee is checked for that.

type decoding struct {
	c    *ctx // findings of C01
	f    *flow
	root *ssa.Function
	rec  *types.Struct
	args int // the field that holds the arguments
	cut  map[*ssa.Function]bool
	cur  dtask
	self []*fv // parameters of the function being analysed
	todo []dtask
	done map[string]bool
	said map[string]bool

	gLine, gCount, gInner, gLast *fv

	back   map[*ssa.Function][]dcall
	good   int
	reads  int
	apps   int
	wraps  []string // the reader's error is wrapped here
	dry    bool     // first round: only learn what the functions are asked for
	count  map[*ssa.Function]int
	goesOn bool
	cutOff bool // something was not analysed to its end
	calls  []acall
	found  []dfound
	vagues []dfound
	obls   map[string]int
	counts map[string]int
	sizes  []asize
}

// dtask: the function reads one value (n < 0), or as many as parameter n says.
type dtask struct {
	fn *ssa.Function
	n  int
}

// acall: a recursive function is called with an integer argument that a constant limits or not.
type acall struct {
	from, to *ssa.Function
	n        int
	via      int // the argument is at most this parameter of the caller
	ok       bool
	k        int64
	isK      bool
	readable bool
	at, arg  string
}

// asize: memory is set aside for as many as a parameter says.
type asize struct {
	fn *ssa.Function
	n  int
	at string
}

type dcall struct {
	from *ssa.Function
	at   string
	arg  map[int]string // integer parameter -> "up", "down" when it moves towards a bound known on the path
}

const memoryLimit = 1 << 31

func (c *ctx) decoder() *ssa.Function {
	sp := c.p.pkg("protocol")
	if sp == nil {
		return nil
	}
	fn, _ := sp.Members["DecodeFromReader"].(*ssa.Function)
	return fn
}

func decodeRequests(c *ctx) {
	root := c.decoder()
	if root == nil || len(root.Params) != 1 || root.Signature.Results().Len() != 2 {
		c.undecided("decoder of requests not found")
		return
	}
	var rec *types.Struct
	if pt, ok := root.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
		rec, _ = pt.Elem().Underlying().(*types.Struct)
	}
	if rec == nil {
		c.undecided("type of requests not found")
		return
	}
	args := -1
	for i := 0; i < rec.NumFields(); i++ {
		if isStrSlice(rec.Field(i).Type()) {
			args = i
		}
	}
	if args < 0 {
		c.undecided("arguments of a request not found")
		return
	}
	scc, edges := c.recursion(root)
	// Where recursion is cut is free; any choice under which the analysis goes through is a proof.
	var best *decoding
	for _, cut := range cuts(scc, edges) {
		d := &decoding{c: c, root: root, rec: rec, args: args, cut: cut}
		d.all()
		if best == nil || !d.cutOff && (best.cutOff || len(d.found) < len(best.found)) {
			best = d
		}
		if !best.cutOff && len(best.found) == 0 {
			break
		}
	}
	if best == nil {
		c.undecided("recursion of the decoder has an unknown form")
		return
	}
	for _, x := range best.found {
		if x.prop == c.prop {
			c.bad(x.rule, x.pos, "%s", x.msg)
		}
	}
	for _, x := range best.vagues {
		if x.prop == c.prop || x.prop == "" {
			c.undecided("%s", x.msg)
		}
	}
	for i := 0; i < best.obls[c.prop]; i++ {
		c.obl()
	}
	for k, n := range best.counts {
		c.count(k, n)
	}
	c.count("recursive functions", len(best.cut))
}

// all analyses the decoder with recursion cut in one way.
func (d *decoding) all() {
	d.count, d.said, d.obls, d.counts = map[*ssa.Function]int{}, map[string]bool{}, map[string]int{}, map[string]int{}
	for _, d.dry = range []bool{true, false} {
		d.todo = append(d.todo, dtask{d.root, -1})
		d.done, d.back, d.calls, d.sizes, d.wraps, d.cutOff = map[string]bool{}, map[*ssa.Function][]dcall{}, nil, nil, nil, false
		for len(d.todo) > 0 {
			t := d.todo[0]
			d.todo = d.todo[1:]
			k := fmt.Sprintf("%s/%d", t.fn, t.n)
			if d.done[k] {
				continue
			}
			d.done[k] = true
			d.run(t)
		}
	}
	if d.goesOn {
		d.found = nil // from calls taken for something else
	}
	if d.cutOff {
		return
	}
	d.recursionBounded()
	d.sizesBounded()
	d.comparedDirectly()
	if d.reads == 0 || d.apps == 0 || d.good == 0 {
		d.vague("", "no decoded argument seen on an analysed path")
	}
}

func staticCallees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil {
					r = append(r, g)
				}
			}
			if m, ok := in.(*ssa.MakeClosure); ok {
				r = append(r, m.Fn.(*ssa.Function))
			}
		}
	}
	return r
}

// recursion: functions reached from the decoder that can call themselves, and who of them calls whom.
func (c *ctx) recursion(root *ssa.Function) (map[*ssa.Function]bool, map[*ssa.Function][]*ssa.Function) {
	edges := map[*ssa.Function][]*ssa.Function{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if _, ok := edges[g]; ok {
			return
		}
		edges[g] = nil
		for _, h := range staticCallees(g) {
			if h.Pkg != nil && c.p.ByPath[h.Pkg.Pkg.Path()] == h.Pkg {
				edges[g] = append(edges[g], h)
				walk(h)
			}
		}
	}
	walk(root)
	c.count("functions of the decoder", len(edges))
	scc := map[*ssa.Function]bool{}
	for g := range edges {
		if reaches(g, edges, nil) {
			scc[g] = true
		}
	}
	return scc, edges
}

// reaches: g can get back to itself without passing through cut.
func reaches(g *ssa.Function, edges map[*ssa.Function][]*ssa.Function, cut map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(h *ssa.Function) bool
	walk = func(h *ssa.Function) bool {
		for _, k := range edges[h] {
			if cut[k] {
				continue
			}
			if k == g {
				return true
			}
			if !seen[k] {
				seen[k] = true
				if walk(k) {
					return true
				}
			}
		}
		return false
	}
	return walk(g)
}

// cuts are the smallest sets of functions without which nothing is recursive.
func cuts(scc map[*ssa.Function]bool, edges map[*ssa.Function][]*ssa.Function) []map[*ssa.Function]bool {
	var fns []*ssa.Function
	for g := range scc {
		fns = append(fns, g)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for size := 0; size <= len(fns) && size <= 3; size++ {
		var res []map[*ssa.Function]bool
		var pick func(from int, cur []*ssa.Function)
		pick = func(from int, cur []*ssa.Function) {
			if len(cur) == size {
				cut := map[*ssa.Function]bool{}
				for _, g := range cur {
					cut[g] = true
				}
				for _, g := range fns {
					if !cut[g] && reaches(g, edges, cut) {
						return
					}
				}
				res = append(res, cut)
				return
			}
			for i := from; i < len(fns); i++ {
				pick(i+1, append(append([]*ssa.Function(nil), cur...), fns[i]))
			}
		}
		pick(0, nil)
		if len(res) > 0 {
			return res
		}
	}
	return nil
}

type dfound struct{ prop, rule, pos, msg string }

func (d *decoding) bad(prop, rule, pos, form string, a ...interface{}) {
	m := fmt.Sprintf(form, a...)
	if !d.said[prop+rule+pos+m] && !d.dry {
		d.said[prop+rule+pos+m] = true
		d.found = append(d.found, dfound{prop, rule, pos, m})
	}
}

func (d *decoding) obl(prop string) {
	if !d.dry {
		d.obls[prop]++
	}
}

func (d *decoding) vague(prop, form string, a ...interface{}) {
	if !d.dry {
		d.vagues = append(d.vagues, dfound{prop: prop, msg: fmt.Sprintf(form, a...)})
	}
}

func (d *decoding) run(t dtask) {
	c := d.c
	f := newFlow(c)
	d.f, d.cur = f, t
	f.linear = true
	f.asserts = true
	f.stable = func(*fv) bool { return true }
	d.gLine, d.gCount, d.gInner, d.gLast = f.mk("ghost", "line", nil), f.mk("ghost", "count", nil), f.mk("ghost", "inner", nil), f.mk("ghost", "last", nil)
	st := newFst()
	st.heap[d.gLine] = f.null()
	st.heap[d.gCount] = f.num(0)
	st.heap[d.gInner] = f.num(0)
	d.self = nil
	var rec *fv
	for _, p := range t.fn.Params {
		v := f.mk("sym", p.Name(), p.Type())
		d.self = append(d.self, v)
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.facts[f.cmp(token.EQL, v, f.null())] = false
		}
		if _, ok := p.Type().Underlying().(*types.Interface); ok {
			st.facts[f.cmp(token.EQL, v, f.null())] = false
		}
	}
	st.heap[d.gLast] = f.null()
	if t.fn != d.root {
		for i, p := range t.fn.Params {
			if r := d.record(st, d.self[i], p.Type()); r != nil && rec == nil {
				rec = r
				st.facts[f.cmp(token.EQL, r, f.null())] = false
			}
		}
		if rec == nil {
			d.cutOff = true
			d.vague("C02", "%s is recursive and does not get the request", fnName(t.fn))
			d.vague("C01", "%s is recursive and does not get the request", fnName(t.fn))
			return
		}
		st.heap[d.gLast] = f.load(st, nil, f.faddr(rec, d.rec, d.args), d.rec.Field(d.args).Type())
		st.heap[f.faddr(rec, d.rec, d.args)] = st.heap[d.gLast]
	}
	f.onCall = d.call
	f.canon = func(st *fst, v *fv) *fv {
		switch v.op {
		case "ld", "obj", "slice", "cell", "phi":
			if v.t != nil && isStrSlice(v.t) && d.none(st, v) {
				return f.null()
			}
		}
		return v
	}
	f.onAppend = d.append
	f.onBound = func(st *fst, in ssa.Instruction, ok bool, why string, vs ...*fv) {
		d.obl("C01")
		if ok {
			return
		}
		if d.readable(vs...) {
			d.bad("C01", "bounds", f.pos(in), "decoding may panic: %s%s", why, path(st))
		} else {
			d.vague("C01", "bounds at %s: %s", f.pos(in), why)
		}
	}
	f.onMake = func(st *fst, in ssa.Instruction, n *fv) { d.room(st, in, n, "make") }
	finished := false
	func() {
		defer func() {
			d.counts["functions interpreted"] += len(f.funcs)
			d.counts["abstract steps"] += f.steps
			for _, s := range uniq(f.stuck) {
				d.vague("", "%s: %s", fnName(t.fn), s)
				finished = false
			}
			d.cutOff = d.cutOff || !finished
			if x := recover(); x != nil {
				s, ok := x.(flowStop)
				if !ok {
					panic(x)
				}
				d.vague("", "%s: %s", fnName(t.fn), s.why)
			}
		}()
		outs := f.exec(st, t.fn, d.self, nil)
		d.counts["ways to end"] += len(outs)
		for _, o := range outs {
			if o.st.panic != "" {
				d.obl("C01")
				if o.st.panic == "index out of range" || strings.HasPrefix(o.st.panic, "slice") {
					continue // reported where it is
				}
				d.bad("C01", "panic", f.pos(o.st.pos), "decoding may panic: %s%s", o.st.panic, path(o.st))
				continue
			}
			d.end(o.st, o.res, rec)
		}
		finished = true
	}()
}

// readable: the terms are made of lines, declared lengths and parameters only.
func (d *decoding) readable(vs ...*fv) bool {
	for _, v := range vs {
		if v == nil {
			continue
		}
		switch v.op {
		case "const", "line", "atoi", "atoibad", "nil", "got":
		case "sym":
			if d.cur.fn != d.root {
				return false // callers may have excluded it
			}
		case "obj":
		case "sum", "len", "slice", "conv", "iaddr":
			if !d.readable(v.a...) {
				return false
			}
		case "ld":
			if v.a[0].op != "iaddr" || !d.readable(v.a...) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// room: memory set aside at once is limited by a constant.
func (d *decoding) room(st *fst, in ssa.Instruction, n *fv, what string) {
	f := d.f
	d.obl("C01")
	if f.entails(st, f.num(0), n, 0) && f.entails(st, n, f.num(memoryLimit), 0) {
		return
	}
	if v := intTerm(n); v.op == "sym" {
		for i, p := range d.self {
			if p == v {
				d.sizes = append(d.sizes, asize{d.cur.fn, i, f.pos(in)})
				return
			}
		}
	}
	if !d.readable(n) {
		d.vague("C01", "size of what %s sets aside at %s: %s", what, f.pos(in), n)
		return
	}
	if !f.entails(st, f.num(0), n, 0) {
		d.bad("C01", "size", f.pos(in), "the size of what %s sets aside may be negative: %s%s", what, clean(n), path(st))
		return
	}
	d.bad("C01", "memory", f.pos(in), "%s sets aside %s bytes or elements, which no constant limits%s", what, clean(n), path(st))
}

// ---- the reader and the functions of the decoder

func (d *decoding) readErr(st *fst, in ssa.Instruction, what string) *fst {
	q := st.clone()
	q.m["cut"] = "1"
	q.note("%s: %s", d.f.pos(in), what)
	return q
}

func (d *decoding) call(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
	f := d.f
	g := in.Common().StaticCallee()
	switch {
	case name == "invoke:ReadBytes" && len(args) == 2, name == "invoke:ReadString" && len(args) == 2:
		if k, ok := args[1].int(); !ok || k != '\n' {
			d.vague("C02", "a read up to %s", args[1])
		}
		d.reads++
		q := d.readErr(st, in, "the input ends before the line is complete")
		e := f.mk("err", "cut", nil)
		part := f.fresh(q, in, "partial", types.NewSlice(types.Typ[types.Byte]))
		d.header(st, in)
		l := f.fresh(st, in, "line", types.NewSlice(types.Typ[types.Byte]))
		st.facts[f.cmp(token.LSS, f.num(0), f.length(st, l))] = true
		st.heap[f.iaddr(l, f.sum(token.SUB, f.length(st, l), f.num(1), nil), nil)] = f.num('\n')
		st.heap[d.gLine] = l
		st.m["open"] = "1"
		st.note("%s: a line", f.pos(in))
		if name == "invoke:ReadString" {
			return []fout{{q, f.tup(f.mk("conv", "string", types.Typ[types.String], part), e)}, {st, f.tup(f.mk("conv", "string", types.Typ[types.String], l), f.null())}}, true
		}
		return []fout{{q, f.tup(part, e)}, {st, f.tup(l, f.null())}}, true
	case name == "io.ReadFull" && len(args) == 2, name == "io.ReadAtLeast" && len(args) == 3, name == "invoke:Read" && len(args) == 2:
		d.reads++
		b := args[1]
		n := f.length(st, b)
		q := d.readErr(st, in, "the input ends before the bytes are complete")
		e := f.mk("err", "cut", nil)
		nq := f.fresh(q, in, "short", types.Typ[types.Int], b)
		full := name == "io.ReadFull" || name == "io.ReadAtLeast" && args[2] == n
		base, lo := b, f.num(0)
		if b.op == "slice" {
			base, lo = b.a[0], b.a[1]
		}
		st.note("%s: bytes", f.pos(in))
		if !full {
			// fewer bytes may come without an error
			got := f.fresh(st, in, "got", types.Typ[types.Int], b)
			st.facts[f.cmp(token.LSS, n, got)] = false
			st.facts[f.cmp(token.LSS, got, f.num(0))] = false
			if name == "io.ReadAtLeast" {
				st.facts[f.cmp(token.LSS, got, args[2])] = false
			}
			d.forgetBytes(st, base)
			st.heap[f.mk("read", "", nil, base)] = f.mk("part", "", nil, lo, got)
			return []fout{{q, f.tup(nq, e)}, {st, f.tup(got, f.null())}}, true
		}
		if lo == f.num(0) {
			d.forgetBytes(st, base)
			st.heap[f.mk("read", "", nil, base)] = f.mk("part", "", nil, lo, n)
		} else {
			// the rest of a buffer
			k := f.mk("read", "", nil, base)
			if p := st.heap[k]; p != nil && p.op == "part" && f.sum(token.ADD, p.a[0], p.a[1], nil) == lo {
				st.heap[k] = f.mk("part", "", nil, p.a[0], f.sum(token.ADD, p.a[1], n, nil))
			} else {
				st.heap[k] = f.mk("part", "", nil, lo, n)
			}
		}
		return []fout{{q, f.tup(nq, e)}, {st, f.tup(n, f.null())}}, true
	case name == "strconv.Atoi", name == "strconv.ParseInt" && len(args) == 3:
		if name == "strconv.ParseInt" {
			if b, ok := args[1].int(); !ok || b != 10 {
				return nil, false
			}
		}
		q := st.clone()
		q.note("%s: not a number", f.pos(in))
		return []fout{{q, f.tup(f.mk("atoibad", "", types.Typ[types.Int], args[0]), f.mk("err", "atoi", nil))}, {st, f.tup(f.mk("atoi", "", types.Typ[types.Int], args[0]), f.null())}}, true
	case strings.HasSuffix(name, ").Grow") && len(args) == 2:
		d.room(st, in, args[1], "Grow")
		return nil, false
	case name == "bytes.TrimSuffix" && len(args) == 2, name == "strings.TrimSuffix" && len(args) == 2:
		s := args[1]
		if s.op == "conv" {
			s = s.a[0]
		}
		t, ok := s.text()
		if !ok {
			return nil, false
		}
		x := args[0]
		c := f.mk("app", "bytes.HasSuffix", types.Typ[types.Bool], x, f.mk("conv", "[]byte", nil, f.str(t)))
		cut := func(st *fst) fout {
			return fout{st, f.cutSlice(x, f.num(0), f.sum(token.SUB, f.length(st, x), f.num(int64(len(t))), nil), in.Value().Type())}
		}
		if b, known := f.truth(st, c); known {
			if b {
				return []fout{cut(st)}, true
			}
			return one(st, x), true
		}
		q := st.clone()
		f.assume(q, c, true)
		f.assume(st, c, false)
		return []fout{cut(q), {st, x}}, true
	case g != nil && d.cut[g]:
		return d.ask(st, in, g, args), true
	}
	return nil, false
}

func (d *decoding) forgetBytes(st *fst, b *fv) {
	for k := range st.facts {
		if k.has(b) && !onlyLen(k, b) {
			delete(st.facts, k)
		}
	}
	for k := range st.heap {
		if k.op == "iaddr" && k.has(b) {
			delete(st.heap, k)
		}
	}
}

// onlyLen: b appears only under len.
func onlyLen(v, b *fv) bool {
	if v == b {
		return false
	}
	if v.op == "len" {
		return true
	}
	for _, a := range v.a {
		if a != nil && a.has(b) && !onlyLen(a, b) {
			return false
		}
	}
	return true
}

// header: another line is about to be read; the one before must have been dealt with.
func (d *decoding) header(st *fst, in ssa.Instruction) {
	f := d.f
	if st.m["inner"] != "" {
		d.innerDone(st, in)
	}
	if st.m["open"] == "" {
		return
	}
	l := st.heap[d.gLine]
	d.obl("C02")
	if d.kind(st, l) == '*' {
		// the elements of an array are read right here
		d.vague("C02", "elements of an array are read without a function of their own at %s", f.pos(in))
		panic(flowStop{"nested array read inline"})
	}
	d.bad("C02", "dropped", f.pos(in), "the value of a header line is not read or not stored before the next line is read%s", path(st))
	st.m["open"] = ""
}

// ask: a recursive function is called.
func (d *decoding) ask(st *fst, in ssa.CallInstruction, g *ssa.Function, args []*fv) []fout {
	f := d.f
	l := st.heap[d.gLine]
	n := -1
	d.obl("C02")
	rec := (*fv)(nil)
	for i, p := range g.Params {
		if i < len(args) && (!isBasic(p.Type(), types.IsInteger) || isBasic(p.Type(), types.IsUnsigned)) && fromLine(args[i]) {
			// it goes on with a header line that its caller has read: not asked for a value of its own
			d.goesOn = true
			if d.dry {
				d.cutOff = true
				return nil
			}
			panic(flowStop{fnName(g) + " gets a header line read by its caller"})
		}
	}
	for i, p := range g.Params {
		if i < len(args) && rec == nil {
			rec = d.record(st, args[i], p.Type())
		}
	}
	if st.m["open"] != "" {
		want := d.declared(st, l)
		odd := -1
		for i, p := range g.Params {
			if !isBasic(p.Type(), types.IsInteger) {
				continue
			}
			a := intTerm(args[i])
			if a == want {
				n = i
			} else if a.has(l) && d.readable(a) {
				odd = i
			}
		}
		if n < 0 && odd >= 0 {
			d.bad("C02", "array-length", f.pos(in), "the elements of an array are read with a count of %s instead of the declared length%s", clean(args[odd]), path(st))
			n = odd
		}
		if k, ok := d.count[g]; n < 0 && ok {
			n = k
			a := args[k]
			none := f.entails(st, want, f.num(0), 0) && f.entails(st, a, f.num(0), 0)
			if !none && !(f.entails(st, a, want, 0) && f.entails(st, want, a, 0)) {
				if d.readable(a) {
					d.bad("C02", "array-length", f.pos(in), "the elements of an array are read with a count of %s instead of the declared length%s", clean(a), path(st))
				} else {
					d.vague("C02", "count of elements at %s: %s", f.pos(in), clean(a))
				}
			}
		}
		if n < 0 && odd < 0 && d.kind(st, l) == '*' && d.oneValue(g) {
			// the elements are read one by one
			st.m["open"], st.m["inner"] = "", "1"
		} else if n < 0 && d.dry {
			d.cutOff = true
			return nil
		} else if n < 0 {
			panic(flowStop{"what " + fnName(g) + " reads is not known"})
		}
		if k := d.kind(st, l); k != '*' {
			if k == 0 || k < 0 {
				d.bad("C02", "kind", f.pos(in), "a line that is not known to be an array header is read as one%s", path(st))
			} else {
				d.bad("C02", "kind", f.pos(in), "a header line that starts with %q is read as an array%s", rune(k), path(st))
			}
		}
		if !d.crlf(st, l) {
			d.bad("C02", "line-end", f.pos(in), "the header line of an array is not checked to end in CRLF%s", path(st))
		}
	}
	if n >= 0 {
		d.count[g] = n
	}
	for i, a := range args {
		if i >= len(g.Params) || !isBasic(g.Params[i].Type(), types.IsInteger) {
			continue
		}
		ac := acall{from: d.cur.fn, to: g, n: i, via: -1, at: f.pos(in), arg: clean(a), readable: d.readable(a)}
		ac.k, ac.isK = a.int()
		ac.ok = f.entails(st, a, f.num(memoryLimit), 0)
		for j, p := range d.self {
			if isBasic(d.cur.fn.Params[j].Type(), types.IsInteger) && f.entails(st, a, p, 0) {
				ac.via = j
			}
		}
		d.calls = append(d.calls, ac)
	}
	if d.cur.fn != d.root || d.cut[d.root] {
		// a call on the way round: which parameter is bounded?
		dc := dcall{from: d.cur.fn, at: f.pos(in), arg: map[int]string{}}
		for i, a := range args {
			if i >= len(g.Params) || !isBasic(g.Params[i].Type(), types.IsInteger) {
				continue
			}
			for j, p := range d.self {
				if !isBasic(d.cur.fn.Params[j].Type(), types.IsInteger) {
					continue
				}
				k, ok := f.sum(token.SUB, a, p, nil).int()
				if !ok {
					continue
				}
				up, down := f.entails(st, a, f.num(1<<20), 0), f.entails(st, f.num(-1<<20), a, 0)
				// a step of one cannot pass a value that is excluded here
				stop := ""
				for c, b := range st.facts {
					if c.op != "eq" || b {
						continue
					}
					x, y := c.a[0], c.a[1]
					if y == p {
						x, y = y, x
					}
					if n, ok := y.int(); ok && x == p {
						stop += fmt.Sprintf("%d ", n)
					}
				}
				dc.arg[j*100+i] = fmt.Sprintf("%d/%v/%v/%s", k, up, down, stop)
			}
		}
		dc.at += " " + fnName(g)
		d.back[g] = append(d.back[g], dc)
	}
	d.todo = append(d.todo, dtask{g, n})
	sig := g.Signature.Results()
	res := func(st *fst, e *fv) *fv {
		var rs []*fv
		found := false
		for i := 0; i < sig.Len(); i++ {
			if isErrType(sig.At(i).Type()) {
				rs = append(rs, e)
				found = true
			} else {
				rs = append(rs, f.fresh(st, in, "sub", sig.At(i).Type(), f.num(int64(i))))
			}
		}
		if !found {
			panic(flowStop{fnName(g) + " reports no error"})
		}
		if len(rs) == 1 {
			return rs[0]
		}
		return f.tup(rs...)
	}
	// an error: of the reader, or of the input
	q := d.readErr(st, in, "the input ends before the value is complete")
	d.scramble(q, in, rec)
	q2 := st.clone()
	q2.note("%s: a malformed value", f.pos(in))
	d.scramble(q2, in, rec)
	st.note("%s: values read", f.pos(in))
	d.scramble(st, in, rec)
	if n >= 0 && st.m["open"] != "" {
		st.m["open"] = ""
		st.heap[d.gLine] = f.null()
	}
	d.complete(st, in)
	return []fout{{q, res(q, f.mk("err", "cut", nil))}, {q2, res(q2, f.mk("err", "malformed", nil))}, {st, res(st, f.null())}}
}

// record is the request a parameter is, or holds.
func (d *decoding) record(st *fst, v *fv, t types.Type) *fv {
	f := d.f
	isRec := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && pt.Elem().Underlying() == d.rec
	}
	if isRec(t) {
		return v
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if isRec(s.Field(i).Type()) {
					return f.load(st, nil, f.faddr(v, s, i), s.Field(i).Type())
				}
				if s.Field(i).Type().Underlying() == d.rec {
					return f.faddr(v, s, i)
				}
			}
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isRec(s.Field(i).Type()) {
				if v.op == "struct" && i < len(v.a) {
					return v.a[i]
				}
				return f.mk("field", s.Field(i).Name(), s.Field(i).Type(), v)
			}
		}
	}
	return nil
}

func fromLine(v *fv) bool {
	if v == nil {
		return false
	}
	if v.op == "line" {
		return true
	}
	for _, a := range v.a {
		if fromLine(a) {
			return true
		}
	}
	return false
}

func isErrType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// scramble: a recursive call has added arguments.
func (d *decoding) scramble(st *fst, in ssa.Instruction, rec *fv) {
	f := d.f
	now := f.fresh(st, in, "more", d.rec.Field(d.args).Type())
	st.heap[d.gLast] = now
	if rec != nil {
		st.heap[f.faddr(rec, d.rec, d.args)] = now
		for i := 0; i < d.rec.NumFields(); i++ {
			if i != d.args {
				st.heap[f.faddr(rec, d.rec, i)] = f.fresh(st, in, "other", d.rec.Field(i).Type(), f.num(int64(i)))
			}
		}
	}
}

// oneValue: a function that can only be asked for one value: no number it gets could be a count.
func (d *decoding) oneValue(g *ssa.Function) bool {
	_, counted := d.count[g]
	return !counted && !d.dry
}

// innerDone: all elements of the array that is read one by one are there.
func (d *decoding) innerDone(st *fst, in ssa.Instruction) {
	f := d.f
	l := st.heap[d.gLine]
	at := d.c.p.pos(d.cur.fn.Pos())
	if in != nil {
		at = f.pos(in)
	}
	d.obl("C02")
	if !d.crlf(st, l) {
		d.bad("C02", "line-end", at, "the header line of an array is not checked to end in CRLF%s", path(st))
	}
	if !f.entails(st, d.declared(st, l), st.heap[d.gInner], 0) {
		if d.exact(st, st.heap[d.gInner]) {
			d.bad("C02", "too-few", at, "fewer values than the array declares are read without an error%s", path(st))
		} else {
			d.vague("C02", "number of values read by %s", fnName(d.cur.fn))
		}
	}
	st.m["inner"] = ""
	st.heap[d.gInner] = f.num(0)
	st.heap[d.gLine] = f.null()
	d.complete(st, in)
}

// complete: one more value of the current scope has been read.
func (d *decoding) complete(st *fst, in ssa.Instruction) {
	f := d.f
	d.obl("C02")
	if st.m["inner"] != "" {
		cnt := st.heap[d.gInner]
		if !f.entails(st, cnt, d.declared(st, st.heap[d.gLine]), -1) {
			if d.exact(st, cnt) {
				d.bad("C02", "too-many", f.pos(in), "more values than the array declares are read%s", path(st))
			} else {
				d.vague("C02", "number of values read at %s", f.pos(in))
			}
		}
		st.heap[d.gInner] = f.sum(token.ADD, cnt, f.num(1), types.Typ[types.Int])
		return
	}
	cnt := st.heap[d.gCount]
	if n := d.wanted(); n != nil {
		if !f.entails(st, cnt, n, -1) {
			if d.exact(st, cnt) {
				d.bad("C02", "too-many", f.pos(in), "more values than the array declares are read%s", path(st))
			} else {
				d.vague("C02", "number of values read at %s", f.pos(in))
			}
		}
	} else if k, ok := cnt.int(); ok && k >= 1 {
		d.bad("C02", "too-many", f.pos(in), "a second value is read for one request or array element%s", path(st))
	}
	st.heap[d.gCount] = f.sum(token.ADD, cnt, f.num(1), types.Typ[types.Int])
}

// exact: the count is still known relative to constants and parameters.
func (d *decoding) exact(st *fst, v *fv) bool {
	ok := true
	var walk func(v *fv)
	walk = func(v *fv) {
		switch v.op {
		case "const", "sym", "phi", "cell", "atoi":
		case "sum":
			for _, a := range v.a {
				walk(a)
			}
		default:
			ok = false
		}
	}
	walk(v)
	return ok
}

func (d *decoding) wanted() *fv {
	if d.cur.n < 0 {
		return nil
	}
	return d.self[d.cur.n]
}

// ---- lines

// declared is the length a header line declares.
func (d *decoding) declared(st *fst, l *fv) *fv {
	f := d.f
	b := f.mk("slice", "", nil, l, f.num(1), f.sum(token.SUB, f.length(st, l), f.num(2), nil))
	return f.mk("atoi", "", nil, f.mk("conv", "string", nil, b))
}

// kind is the first byte of a line: 0 when not known, -1 when none of the kinds.
func (d *decoding) kind(st *fst, l *fv) int {
	f := d.f
	b := f.mk("ld", "", nil, f.iaddr(l, f.num(0), nil))
	none := 0
	for _, k := range []int64{'$', '*', '+', '-', ':'} {
		for _, x := range []*fv{b, f.mk("index", "", nil, f.mk("conv", "string", nil, l), f.num(0))} {
			if v, known := f.truth(st, f.cmp(token.EQL, x, f.num(k))); known {
				if v {
					return int(k)
				}
				none++
				break
			}
		}
	}
	if none == 5 {
		return -1
	}
	return 0
}

// tail: the bytes of b from position at on are known to be s.
func (d *decoding) tail(st *fst, b, at *fv, s string) bool {
	f := d.f
	all := true
	for i := range s {
		p := f.sum(token.ADD, at, f.num(int64(i)), nil)
		if v := st.heap[f.iaddr(b, p, nil)]; v != nil {
			if k, ok := v.int(); ok && k == int64(s[i]) {
				continue
			}
		}
		x := f.mk("ld", "", nil, f.iaddr(b, p, nil))
		y := f.mk("index", "", nil, f.mk("conv", "string", nil, b), p)
		if v, known := f.truth(st, f.cmp(token.EQL, x, f.num(int64(s[i])))); known && v {
			continue
		}
		if v, known := f.truth(st, f.cmp(token.EQL, y, f.num(int64(s[i])))); known && v {
			continue
		}
		all = false
	}
	if all {
		return true
	}
	n := f.length(st, b)
	for c, v := range st.facts {
		if !v {
			continue
		}
		var x, t *fv
		switch {
		case c.op == "eq":
			x, t = c.a[0], c.a[1]
			if x.op == "const" {
				x, t = t, x
			}
		case c.op == "app" && (c.s == "bytes.Equal"):
			x, t = c.a[0], c.a[1]
			if x.op == "conv" && x.a[0].op == "const" {
				x, t = t, x
			}
		case c.op == "app" && (c.s == "bytes.HasSuffix" || c.s == "strings.HasSuffix"):
			x, t = c.a[0], c.a[1]
			if x.op == "conv" {
				x = x.a[0]
			}
			if t.op == "conv" {
				t = t.a[0]
			}
			k, ok := t.text()
			if !ok || !strings.HasSuffix(k, s) {
				continue
			}
			// x ends where?
			base, end := x, f.length(st, x)
			if x.op == "slice" {
				base = x.a[0]
				if x.a[2] != nil {
					end = x.a[2]
				} else {
					end = f.length(st, base)
				}
			}
			if base == b && f.sum(token.ADD, at, f.num(int64(len(s))), nil) == end {
				return true
			}
			continue
		default:
			continue
		}
		if t.op == "conv" {
			t = t.a[0]
		}
		k, ok := t.text()
		if !ok {
			continue
		}
		if x.op == "conv" {
			x = x.a[0]
		}
		base, lo, hi := x, f.num(0), (*fv)(nil)
		if x.op == "slice" {
			base, lo, hi = x.a[0], x.a[1], x.a[2]
		}
		if hi == nil {
			hi = f.length(st, base)
		}
		if base != b {
			continue
		}
		if base == b && lo == at && strings.HasPrefix(k, s) {
			return true
		}
		// a known text that ends with s
		if strings.HasSuffix(k, s) && f.sum(token.ADD, at, f.num(int64(len(s))), nil) == hi {
			return true
		}
	}
	_ = n
	return false
}

func (d *decoding) crlf(st *fst, l *fv) bool {
	f := d.f
	return d.tail(st, l, f.sum(token.SUB, f.length(st, l), f.num(2), nil), "\r\n")
}

// ---- arguments

func (d *decoding) append(st *fst, in ssa.Instruction, a *fv, elems []*fv, b, res *fv) {
	f := d.f
	if !isStrSlice(in.(ssa.Value).Type()) {
		return
	}
	d.apps++
	last := st.heap[d.gLast]
	d.obl("C02")
	if elems == nil {
		if (b == last || d.none(st, b) && d.none(st, last)) && d.none(st, a) {
			st.heap[d.gLast] = res // moved to another array
			return
		}
		if b == last && a != last {
			d.bad("C02", "order", f.pos(in), "arguments are put in front of earlier ones%s", path(st))
			st.heap[d.gLast] = res
			return
		}
		panic(flowStop{"several arguments are added at once at " + f.pos(in)})
	}
	if !(a == last || d.none(st, a) && d.none(st, last)) {
		if d.none(st, a) {
			d.bad("C02", "lost", f.pos(in), "earlier arguments are dropped when one is added%s", path(st))
		} else {
			d.bad("C02", "lost", f.pos(in), "an argument is not added to the end of the arguments read so far%s", path(st))
		}
	}
	st.heap[d.gLast] = res
	for _, x := range elems {
		d.argument(st, in, x)
	}
}

func (d *decoding) none(st *fst, v *fv) bool {
	if v.isNil() {
		return true
	}
	if b, known := d.f.truth(st, d.f.cmp(token.EQL, v, d.f.null())); known && b {
		return true
	}
	return d.f.entails(st, d.f.length(st, v), d.f.num(0), 0)
}

// argument: x becomes an argument of the request.
func (d *decoding) argument(st *fst, in ssa.Instruction, x *fv) {
	f := d.f
	at := f.pos(in)
	d.obl("C02")
	if st.m["cut"] != "" {
		d.bad("C02", "cut-short", at, "an argument is taken from input that was cut short%s", path(st))
		return
	}
	if st.m["open"] == "" {
		d.bad("C02", "extra", at, "an argument is added for which no header line was read%s", path(st))
		return
	}
	l := st.heap[d.gLine]
	k := d.kind(st, l)
	closeLine := func() {
		st.m["open"] = ""
		st.heap[d.gLine] = f.null()
		d.complete(st, in)
	}
	if !d.crlf(st, l) {
		d.bad("C02", "line-end", at, "the line %q… of an argument is not checked to end in CRLF%s", kindName(k), path(st))
	}
	if s, ok := x.text(); ok {
		// a fixed word: the line is known to be it
		full := f.mk("conv", "string", nil, l)
		if d.holds(st, l, s) || d.same(st, full, s+"\r\n") || k > 0 && d.same(st, full, string(rune(k))+s+"\r\n") {
			closeLine()
			return
		}
		if k == '$' && s == "" {
			// an empty text
			if n, known := f.truth(st, f.cmp(token.EQL, d.declared(st, l), f.num(0))); known && n && d.tailRead(st) {
				closeLine()
				return
			}
		}
		d.bad("C02", "guessed", at, "the argument %q is made up: the line is not known to hold it%s", s, path(st))
		closeLine()
		return
	}
	if x.op == "app" && strings.HasPrefix(x.s, "strings.") && x.s != "strings.Clone" && len(x.a) > 0 && x.a[0].op == "conv" {
		d.bad("C02", "bytes", at, "an argument is not the bytes received but what %s makes of them%s", x.s, path(st))
		closeLine()
		return
	}
	if x.op == "app" && x.s == "strings.Clone" && len(x.a) == 1 {
		x = x.a[0]
	}
	if x.op != "conv" || x.s != "string" {
		d.vague("C02", "argument of unknown form at %s: %s", at, clean(x))
		closeLine()
		return
	}
	base, lo, hi := x.a[0], f.num(0), (*fv)(nil)
	if base.op == "slice" {
		base, lo, hi = base.a[0], base.a[1], base.a[2]
	}
	if hi == nil {
		hi = f.length(st, base)
	}
	switch {
	case base == l:
		end := f.sum(token.SUB, f.length(st, l), f.num(2), nil)
		switch {
		case k == '$' || k == '*':
			d.bad("C02", "kind", at, "the header line of a bulk string or array is itself taken as an argument%s", path(st))
		case k <= 0:
			d.bad("C02", "kind", at, "a line that is not known to be framed as a value is taken as an argument%s", path(st))
		case lo != f.num(1) || hi != end:
			if d.readable(lo, hi) {
				d.bad("C02", "bytes", at, "an argument is bytes %s to %s of its line and not everything between the first byte and CRLF%s", clean(lo), clean(hi), path(st))
			} else {
				d.vague("C02", "argument at %s: bytes %s to %s of the line", at, clean(lo), clean(hi))
			}
		}
		closeLine()
		return
	case base.op == "line" || base.op == "partial":
		d.bad("C02", "bytes", at, "an argument is taken from another line%s", path(st))
		closeLine()
		return
	}
	r := st.heap[f.mk("read", "", nil, base)]
	if r == nil || r.op != "part" {
		if base.op == "obj" {
			d.bad("C02", "bytes", at, "an argument is taken from a buffer that was not read completely%s", path(st))
		} else {
			d.vague("C02", "argument at %s: %s", at, clean(x))
		}
		closeLine()
		return
	}
	if k == '*' || k == '+' || k == '-' || k == ':' {
		d.bad("C02", "kind", at, "a line that starts with %q is followed by bytes taken as an argument%s", rune(k), path(st))
		closeLine()
		return
	}
	n := f.sum(token.SUB, hi, lo, nil)
	want := d.declared(st, l)
	switch {
	case k != '$':
		d.bad("C02", "kind", at, "a line not known to be a bulk header is followed by bytes taken as an argument%s", path(st))
	case intTerm(n) != want && !(f.entails(st, n, want, 0) && f.entails(st, want, n, 0)):
		if d.readable(n) {
			d.bad("C02", "length", at, "an argument has %s bytes, not the declared %s%s", clean(n), clean(want), path(st))
		} else {
			d.vague("C02", "length of the argument at %s: %s", at, clean(n))
		}
	case lo != r.a[0]:
		d.bad("C02", "bytes", at, "an argument starts at byte %s of what was read%s", clean(lo), path(st))
	case !f.entails(st, hi, f.sum(token.ADD, r.a[0], r.a[1], nil), 0):
		d.bad("C02", "cut-short", at, "an argument may hold bytes that were not received: a read may return fewer%s", path(st))
	case !d.tail(st, base, hi, "\r\n") && !d.tailRead(st):
		d.bad("C02", "line-end", at, "the bytes that follow an argument are not checked to be CRLF%s", path(st))
	}
	closeLine()
}

func kindName(k int) string {
	if k <= 0 {
		return "?"
	}
	return string(rune(k))
}

// tailRead: two bytes read on their own are known to be CRLF.
func (d *decoding) tailRead(st *fst) bool {
	var as []*fv
	for a := range st.heap {
		if a.op == "read" {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		if r := st.heap[a]; r != nil && r.op == "part" {
			if n, ok := r.a[1].int(); ok && n == 2 && d.tail(st, a.a[0], r.a[0], "\r\n") {
				return true
			}
		}
	}
	return false
}

// holds: the line is known, piece by piece, to be the word and CRLF.
func (d *decoding) holds(st *fst, l *fv, s string) bool {
	f := d.f
	n := f.num(int64(len(s)) + 2)
	if !d.crlf(st, l) || !f.entails(st, f.length(st, l), n, 0) || !f.entails(st, n, f.length(st, l), 0) {
		return false
	}
	for i := range s {
		if d.tail(st, l, f.num(int64(i)), s[i:i+1]) {
			continue
		}
		ok := false
		for c, b := range st.facts {
			if c.op != "eq" || !b {
				continue
			}
			x, t := c.a[0], c.a[1]
			if x.op == "const" {
				x, t = t, x
			}
			k, isT := t.text()
			if !isT || x.op != "conv" {
				continue
			}
			base, lo := x.a[0], int64(0)
			if base.op == "slice" {
				if o, isK := base.a[1].int(); isK {
					base, lo = base.a[0], o
				}
			}
			j := int64(i) - lo
			if base == l && j >= 0 && j < int64(len(k)) && k[j] == s[i] {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (d *decoding) same(st *fst, x *fv, s string) bool {
	b, known := d.f.truth(st, d.f.cmp(token.EQL, x, d.f.con(constant.MakeString(s))))
	return known && b
}

// ---- ends

func (d *decoding) end(st *fst, res *fv, rec *fv) {
	f := d.f
	at := d.c.p.pos(d.cur.fn.Pos())
	sig := d.cur.fn.Signature.Results()
	var err, req *fv
	for i := 0; i < sig.Len() && i < len(res.a); i++ {
		if isErrType(sig.At(i).Type()) {
			err = res.a[i]
		} else if d.cur.fn == d.root {
			req = res.a[i]
		}
	}
	if err == nil {
		d.vague("C01", "%s reports no error", fnName(d.cur.fn))
		return
	}
	failed := err.op == "err" || f.nonNil(st, err)
	if b, known := f.truth(st, f.cmp(token.EQL, err, f.null())); known && !b {
		failed = true
	}
	if failed {
		d.obl("C04")
		if st.m["cut"] != "" {
			d.cutShort(st, at, err)
		}
		return
	}
	if !err.isNil() {
		if b, known := f.truth(st, f.cmp(token.EQL, err, f.null())); !known || !b {
			d.vague("C01", "error of %s: %s", fnName(d.cur.fn), clean(err))
			d.vague("C02", "error of %s: %s", fnName(d.cur.fn), clean(err))
			return
		}
	}
	d.good++
	if d.cur.fn == d.root {
		d.obl("C01")
		if req == nil || req.isNil() {
			d.bad("C01", "no-request", at, "decoding reports success without a request%s", path(st))
			return
		}
		if !f.nonNil(st, req) {
			d.vague("C01", "request of %s: %s", fnName(d.cur.fn), clean(req))
		}
		rec = req
	}
	d.obl("C02")
	if st.m["cut"] != "" {
		d.bad("C02", "cut-short", at, "input that was cut short is decoded without an error%s", path(st))
		return
	}
	if st.m["open"] != "" {
		l := st.heap[d.gLine]
		k := d.kind(st, l)
		switch {
		case k == '*' && f.entails(st, d.declared(st, l), f.num(0), 0):
			// an array without elements
			if !d.crlf(st, l) {
				d.bad("C02", "line-end", at, "the header line of an array is not checked to end in CRLF%s", path(st))
			}
			d.complete(st, nil)
		default:
			d.bad("C02", "dropped", at, "a request is decoded although the value of its line (%s) was not read or not stored%s", kindName(k), path(st))
			return
		}
	}
	if st.m["inner"] != "" {
		d.innerDone(st, nil)
	}
	cnt := st.heap[d.gCount]
	if n := d.wanted(); n != nil {
		if !f.entails(st, n, cnt, 0) {
			if d.exact(st, cnt) {
				d.bad("C02", "too-few", at, "fewer values than the array declares are read without an error%s", path(st))
			} else {
				d.vague("C02", "number of values read by %s", fnName(d.cur.fn))
			}
		}
	} else if k, ok := cnt.int(); ok && k == 0 {
		d.bad("C02", "too-few", at, "a value is decoded without an error although none was read%s", path(st))
	}
	cell := f.load(st, nil, f.faddr(rec, d.rec, d.args), d.rec.Field(d.args).Type())
	last := st.heap[d.gLast]
	if cell != last && !(d.none(st, cell) && d.none(st, last)) {
		if cell.op == "slice" && !d.readable(cell) {
			d.vague("C02", "arguments of the request: %s", clean(cell))
		} else {
			d.bad("C02", "lost", at, "the request does not hold the arguments that were read%s", path(st))
		}
	}
}

// cutShort (C04): the caller must be able to tell input that is not complete yet from malformed input.
func (d *decoding) cutShort(st *fst, at string, err *fv) {
	if err.op == "err" && err.s == "cut" {
		return
	}
	has := false
	var walk func(v *fv, n int)
	walk = func(v *fv, n int) {
		if v == nil || n > 6 || has {
			return
		}
		if v.op == "err" && v.s == "cut" {
			has = true
			return
		}
		for _, a := range v.a {
			walk(a, n+1)
		}
		if v.op == "obj" {
			for a, w := range st.heap {
				if a.root() == v {
					walk(w, n+1)
				}
			}
		}
	}
	walk(err, 0)
	if has && err.op == "err" && len(err.a) > 0 {
		if s, ok := err.a[0].text(); ok && strings.Contains(s, "%w") {
			d.wraps = append(d.wraps, at)
			return
		}
	}
	if err.op == "err" {
		d.bad("C04", "cut-short", at, "input that is not complete yet ends in an error of the decoder's own, which the caller takes for malformed input%s", path(st))
		return
	}
	d.vague("C04", "error for input that is cut short: %s", clean(err))
}

// comparedDirectly: an error that is wrapped here must not be compared with == there.
func (d *decoding) comparedDirectly() {
	if len(d.wraps) == 0 {
		return
	}
	c := d.c
	for _, fn := range c.reactMethods() {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if seen[g] || g.Pkg == nil || c.p.ByPath[g.Pkg.Pkg.Path()] != g.Pkg {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					x, ok := in.(*ssa.BinOp)
					if !ok || x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					for _, v := range []ssa.Value{x.X, x.Y} {
						u, ok := v.(*ssa.UnOp)
						if !ok || u.Op != token.MUL {
							continue
						}
						if gl, ok := u.X.(*ssa.Global); ok && gl.Pkg.Pkg.Path() == "io" {
							d.obl("C04")
							d.bad("C04", "cut-short", c.p.pos(x.Pos()), "the decoder wraps the error of input that is not complete yet (%s), and here it is compared directly with io.%s, which then never matches", d.wraps[0], gl.Name())
						}
					}
				}
			}
			for _, h := range staticCallees(g) {
				walk(h)
			}
		}
		walk(fn)
	}
}

// sizesBounded: a parameter that says how much to set aside is limited at every call.
func (d *decoding) sizesBounded() {
	for _, z := range d.sizes {
		type fp struct {
			fn *ssa.Function
			n  int
		}
		seen := map[fp]bool{}
		var walk func(x fp)
		walk = func(x fp) {
			if seen[x] {
				return
			}
			seen[x] = true
			for _, c := range d.calls {
				if c.to != x.fn || c.n != x.n || c.ok {
					continue
				}
				switch {
				case c.via >= 0 && d.cut[c.from]:
					walk(fp{c.from, c.via})
				case c.readable:
					d.bad("C01", "memory", z.at, "make sets aside as much as %s of %s says, which is %s at %s, and no constant limits that", z.fn.Params[z.n].Name(), fnName(z.fn), c.arg, c.at)
				default:
					d.vague("C01", "size set aside at %s: %s at %s", z.at, c.arg, c.at)
				}
			}
		}
		walk(fp{z.fn, z.n})
	}
}

// recursionBounded: on every cycle of recursive calls some parameter moves towards a bound.
func (d *decoding) recursionBounded() {
	if len(d.cut) == 0 {
		d.obl("C01")
		return
	}
	var fns []*ssa.Function
	for g := range d.cut {
		fns = append(fns, g)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	// try every choice of one integer parameter per function
	pick := map[*ssa.Function]int{}
	var good bool
	var try func(i int)
	try = func(i int) {
		if good {
			return
		}
		if i == len(fns) {
			good = d.measured(pick, 1) || d.measured(pick, -1)
			return
		}
		for k, p := range fns[i].Params {
			if isBasic(p.Type(), types.IsInteger) {
				pick[fns[i]] = k
				try(i + 1)
			}
		}
	}
	try(0)
	d.obl("C01")
	if !good {
		for _, g := range fns {
			d.bad("C01", "recursion", d.c.p.pos(g.Pos()), "%s calls itself, directly or through others, without a bound on the depth that the path checks", fnName(g))
			break
		}
	}
}

// measured: with one parameter chosen per function, every call keeps it or moves it in one direction, the calls
// that only keep it form no cycle, and every call that moves it is made only within a constant bound.
func (d *decoding) measured(pick map[*ssa.Function]int, dir int64) bool {
	same := map[*ssa.Function][]*ssa.Function{}
	n := 0
	for g, calls := range d.back {
		for _, c := range calls {
			if !d.cut[c.from] {
				continue
			}
			n++
			s, ok := c.arg[pick[c.from]*100+pick[g]]
			if !ok {
				return false
			}
			var k int64
			ps := strings.Split(s, "/")
			fmt.Sscan(ps[0], &k)
			k *= dir
			switch {
			case k < 0:
				return false
			case k == 0:
				same[c.from] = append(same[c.from], g)
			case k == 1 && d.meets(g, pick[g], dir, ps[3]):
			case dir > 0 && ps[1] != "true", dir < 0 && ps[2] != "true":
				// the bound may be checked by the callee before it goes on
				if !d.refuses(g, pick[g], dir) {
					return false
				}
			}
		}
	}
	if n == 0 {
		return false
	}
	// no cycle that keeps the parameter
	for g := range d.cut {
		seen := map[*ssa.Function]bool{}
		var walk func(h *ssa.Function) bool
		walk = func(h *ssa.Function) bool {
			for _, k := range same[h] {
				if k == g {
					return true
				}
				if !seen[k] {
					seen[k] = true
					if walk(k) {
						return true
					}
				}
			}
			return false
		}
		if walk(g) {
			return false
		}
	}
	return true
}

// meets: counting in steps of one from where the recursion starts meets one of the excluded values.
func (d *decoding) meets(g *ssa.Function, n int, dir int64, stops string) bool {
	for _, s := range strings.Fields(stops) {
		var stop int64
		fmt.Sscan(s, &stop)
		all := false
		for _, c := range d.calls {
			if c.to != g || c.n != n || d.cut[c.from] {
				continue
			}
			all = c.isK && (dir > 0 && c.k <= stop || dir < 0 && c.k >= stop)
			if !all {
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// refuses: every recursive call that g makes is under a constant bound of its own parameter.
func (d *decoding) refuses(g *ssa.Function, k int, dir int64) bool {
	any := false
	for _, calls := range d.back {
		for _, c := range calls {
			if c.from != g {
				continue
			}
			any = true
			ok := false
			for key, s := range c.arg {
				if key/100 == k {
					ps := strings.Split(s, "/")
					var m int64
					fmt.Sscan(ps[0], &m)
					ok = ok || m == dir && d.meets(g, k, dir, ps[3])
					ok = ok || dir > 0 && ps[1] == "true" || dir < 0 && ps[2] == "true"
				}
			}
			if !ok {
				return false
			}
		}
	}
	return any
}
