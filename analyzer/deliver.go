package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: every complete request received on a connection is executed once and answered
// once, in order. The event loop's callback is interpreted on an arbitrary connection
// state and an arbitrary frame. Ghost cells hold what is still to be decoded, the
// requests decoded so far, the next request to be handled and the reply that is owed;
// every rule compares them with what the code has in its own variables.

type deliver struct {
	c     *ctx
	f     *flow
	x     *execRoles
	react *ssa.Function
	conn  *fv
	sessT *fv // the session an earlier callback left
	quiet bool
	frame *fv
	sess  *fv

	gRest, gList, gCount, gNext, gOwed, gBad, gSess, gFirst, gLost *fv

	pend    map[string]bool // fields that hold the bytes of an incomplete request
	ends    [][]*fst
	touched []bool
	decoded int
	handled int
	said    map[string]bool
	alt     bool // some other means of ordering is used
	early   []earlyOut
	outs    []fout
}

type earlyOut struct {
	st    *fst
	flags map[string]bool
}

func (c *ctx) reactMethods() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.Funcs {
		s := f.Signature
		if f.Name() == "React" && s.Recv() != nil && f.Blocks != nil && f.Synthetic == "" && s.Params().Len() == 2 && s.Results().Len() == 2 &&
			strings.HasSuffix(s.Params().At(1).Type().String(), "gnet.Conn") {
			r = append(r, f)
		}
	}
	return r
}

func delivery(c *ctx) {
	x := c.exec()
	rs := c.reactMethods()
	if len(rs) == 0 {
		c.undecided("no event loop callback in this configuration")
	}
	for _, r := range rs {
		d := newDeliver(c, x, r)
		c.guard(d.f, fnName(r), d.run)
	}
	oneEvent(c, x)
}

func newDeliver(c *ctx, x *execRoles, r *ssa.Function) *deliver {
	f := newFlow(c)
	f.stableCells()
	d := &deliver{c: c, f: f, x: x, react: r, pend: map[string]bool{}, said: map[string]bool{}}
	d.conn, d.frame, d.sess = f.sym("connection"), f.mk("sym", "frame", types.NewSlice(types.Typ[types.Byte])), f.sym("context")
	g := func(s string) *fv { return f.mk("ghost", s, nil) }
	d.gRest, d.gList, d.gCount, d.gNext, d.gOwed, d.gBad, d.gSess, d.gFirst, d.gLost = g("rest"), g("requests"), g("count"), g("next"), g("owed"), g("malformed"), g("session"), g("decoding"), g("lost")
	f.canon = d.canon
	return d
}

// parts is the content of a byte sequence.
func (d *deliver) parts(st *fst, v *fv) []*fv {
	switch v.op {
	case "nil":
		return nil
	case "append":
		return append(d.parts(st, v.a[0]), d.parts(st, v.a[1])...)
	case "cat", "bcat":
		var r []*fv
		for _, a := range v.a {
			r = append(r, d.parts(st, a)...)
		}
		return r
	case "conv":
		if v.s == "[]byte" || v.s == "string" {
			return d.parts(st, v.a[0])
		}
	case "const":
		if s, ok := v.text(); ok && s == "" {
			return nil
		}
	case "obj":
		if st != nil {
			if n, ok := d.f.length(st, v).int(); ok && n == 0 {
				return nil
			}
			if c := st.heap[d.f.mk("content", "", nil, v)]; c != nil {
				return d.parts(st, c)
			}
		}
	}
	if st != nil {
		if b, ok := d.f.truth(st, d.f.cmp(token.LSS, d.f.num(0), d.f.length(st, v))); ok && !b {
			return nil
		}
	}
	return []*fv{v}
}

func (d *deliver) canon(st *fst, v *fv) *fv {
	switch v.op {
	case "append", "conv", "cat", "bcat":
	default:
		if st == nil {
			return v
		}
	}
	ps := d.parts(st, v)
	switch len(ps) {
	case 0:
		return d.f.null()
	case 1:
		return ps[0]
	}
	return d.f.mk("bcat", "", nil, ps...)
}

// borrowed: the bytes lie in the frame, which is only valid until the callback returns.
func (d *deliver) borrowed(v *fv, seen map[*fv]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v == d.frame {
		return true
	}
	switch v.op {
	case "append":
		return d.borrowed(v.a[0], seen)
	case "slice", "after":
		return d.borrowed(v.a[0], seen)
	case "conv":
		// the bytes of a buffer, not of a text
		if a := v.a[0]; v.s == "[]byte" && (a == d.frame || a.op == "after" || a.op == "slice" || a.op == "append" || a.op == "phi") {
			return d.borrowed(a, seen)
		}
	}
	for s := range d.f.genSrc[v] {
		if d.borrowed(s, seen) {
			return true
		}
	}
	return false
}

func (d *deliver) list(st *fst) *fv {
	if v := st.heap[d.gList]; v != nil {
		return v
	}
	return d.f.null()
}

func (d *deliver) intCell(st *fst, k *fv) *fv {
	if v := st.heap[k]; v != nil {
		return v
	}
	return d.f.num(0)
}

func (d *deliver) bad(what string, st *fst, in ssa.Instruction, s string, a ...interface{}) {
	k := what + d.f.pos(in) + s
	if d.said[k] {
		return
	}
	d.said[k] = true
	d.c.bad(what, d.f.pos(in), "%s%s", fmt.Sprintf(s, a...), path(st))
}

// begin finds where a connection keeps the bytes of an incomplete request and sets up the ghosts.
func (d *deliver) begin(st *fst) bool {
	f, c := d.f, d.c
	found := map[string]*fv{}
	for _, g := range c.p.Funcs {
		if g.Pkg != d.react.Pkg {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				u := fstructOf(ta.AssertedType)
				for i := 0; u != nil && i < u.NumFields(); i++ {
					if isByteSlice(u.Field(i).Type()) {
						s := f.mk("ta", ta.AssertedType.String(), ta.AssertedType, d.sess)
						a := f.faddr(s, u, i)
						found[a.String()] = a
						d.sessT = s
					}
				}
			}
		}
	}
	if len(found) != 1 {
		c.undecided("where the bytes of an incomplete request are kept")
		return false
	}
	for _, a := range found {
		d.pend[a.s] = true
		st.heap[d.gRest] = f.mk("bcat", "", nil, f.mk("ld", "", a.t, a), d.frame)
	}
	errT := types.Universe.Lookup("error").Type()
	for _, n := range []string{"io.EOF", "io.ErrUnexpectedEOF"} {
		st.facts[f.cmp(token.EQL, f.load(st, nil, f.mk("global", n, nil), errT), f.null())] = false
	}
	st.heap[d.gList], st.heap[d.gCount], st.heap[d.gNext], st.heap[d.gOwed] = f.null(), f.num(0), f.num(0), f.null()
	return true
}

func (d *deliver) run() {
	f, c, x := d.f, d.c, d.x
	f.onCall = d.call
	f.onSlice = func(st *fst, b, lo, hi *fv) *fv {
		if hi != nil || lo.op != "sum" {
			return nil
		}
		for _, a := range lo.a {
			if a.op == "len" && a.a[0].op == "after" && d.canon(st, a.a[0].a[0]) == d.canon(st, b) {
				if f.sum(token.SUB, f.length(st, b), a, nil) == lo {
					return a.a[0]
				}
			}
		}
		return nil
	}
	f.onRecv = func(st *fst, in ssa.Instruction, ch, v, ok *fv) {
		if ch.op == "ld" || ch.op == "shared" {
			st.heap[f.mk("ghost", "waited", nil, ch)] = f.bool(true)
			return
		}
		d.alt = true
	}
	f.onClose = func(st *fst, in ssa.Instruction, ch *fv) {
		c.obl()
		st.heap[f.mk("ghost", "closed", nil, ch)] = f.bool(true)
		if len(d.touched) > 0 && d.touched[len(d.touched)-1] || st.heap[d.gNext] != nil {
			if b, known := f.truth(st, d.left(st)); (!known || b) && st.panic == "" && st.m["!panicking"] == "" {
				st.heap[f.mk("ghost", "tooearly", nil, ch)] = f.bool(true)
			}
		}
		w := f.bool(false)
		for k := range st.heap {
			if k.op == "ghost" && k.s == "waited" {
				w = f.bool(true)
			}
		}
		if w.String() == "false" {
			st.heap[f.mk("ghost", "unwaited", nil, ch)] = f.bool(true)
		}
	}
	f.onGo = func(st *fst, in ssa.Instruction, g *fv, args []*fv) bool {
		d.ends = append(d.ends, nil)
		d.touched = append(d.touched, false)
		return false
	}
	f.onGoEnd = func(st *fst) {
		d.ends[len(d.ends)-1] = append(d.ends[len(d.ends)-1], st)
	}
	f.onSpawn = func(st *fst, in ssa.Instruction, g *fv, _ []*ftrace) {
		n := len(d.ends) - 1
		ends, touched := d.ends[n], d.touched[n]
		d.ends, d.touched = d.ends[:n], d.touched[:n]
		if touched {
			st.m["tasks"] += "1"
			if len(st.m["tasks"]) > 2 {
				st.m["tasks"] = "11"
			}
			if n > 0 {
				d.touched[n-1] = true
			}
			if len(st.m["tasks"]) > 1 {
				c.obl()
				d.bad("twice", st, in, "the same requests are handled a second time")
			}
			for _, e := range ends {
				d.finished(e, in)
			}
		}
		// channels every way of the goroutine closes
		for k := range closedBy(f, ends, "closed") {
			st.heap[f.mk("ghost", "closed", nil, k)] = f.bool(true)
		}
		for _, e := range ends {
			for k := range e.heap {
				if k.op == "ghost" && (k.s == "tooearly" || k.s == "unwaited") {
					st.heap[k] = f.bool(true)
				}
			}
		}
	}
	f.onBack = func(st *fst, fn *ssa.Function, h *ssa.BasicBlock, env, old map[ssa.Value]*fv) {
		d.owed(st, h.Instrs[0])
	}
	st := newFst()
	if !d.begin(st) {
		return
	}
	d.outs = f.exec(st, d.react, []*fv{f.sym("server"), d.frame, d.conn}, nil)
	c.count("ways the callback can end", len(d.outs))
	c.count("decode calls interpreted", d.decoded)
	c.count("request handlings interpreted", d.handled)
	if d.decoded == 0 {
		c.undecided("no request is decoded on any analysed path of %s", fnName(d.react))
		return
	}
	if d.handled == 0 {
		c.obl()
		c.bad("never-executed", f.p.pos(d.react.Pos()), "no request that is decoded is handed to %s", fnName(x.handle))
		return
	}
	for _, o := range d.outs {
		d.end(o)
	}
	d.flags()
	d.opened()
}

func closedBy(f *flow, ends []*fst, kind string) map[*fv]bool {
	r := map[*fv]bool{}
	for i, e := range ends {
		cur := map[*fv]bool{}
		for k := range e.heap {
			if k.op == "ghost" && k.s == kind {
				cur[k.a[0]] = true
			}
		}
		if i == 0 {
			r = cur
			continue
		}
		for k := range r {
			if !cur[k] {
				delete(r, k)
			}
		}
	}
	return r
}

// left: there are requests that were not handled yet.
func (d *deliver) left(st *fst) *fv {
	n := d.intCell(st, d.gNext)
	l := d.list(st)
	if d.intCell(st, d.gCount) == n {
		return d.f.bool(false)
	}
	return d.f.cmp(token.LSS, n, d.f.length(st, l))
}

func (d *deliver) owed(st *fst, in ssa.Instruction) {
	o := st.heap[d.gOwed]
	if o == nil || o.isNil() {
		return
	}
	d.c.obl()
	if emptyBytes(d.f, st, o) {
		st.heap[d.gOwed] = d.f.null()
		return
	}
	if b, known := d.f.truth(st, d.f.cmp(token.LSS, d.f.num(0), d.f.length(st, o))); known && !b {
		st.heap[d.gOwed] = d.f.null()
		return
	}
	for _, t := range d.f.terms {
		if (t.op == "append" || t.op == "append1" || t.op == "cat" || t.op == "iface") && t != o && t.has(o) {
			d.c.undecided("replies are collected before they are written")
			st.heap[d.gOwed] = d.f.null()
			return
		}
	}
	d.bad("no-reply", st, in, "the reply of a request is not written to its connection")
	st.heap[d.gOwed] = d.f.null()
}

// finished checks the end of a task that handles requests.
func (d *deliver) finished(st *fst, in ssa.Instruction) {
	if st.panic != "" {
		return
	}
	d.owed(st, in)
	d.c.obl()
	if b, known := d.f.truth(st, d.left(st)); !known || b {
		d.bad("dropped", st, in, "a task may end before all decoded requests are handled")
	}
}

func (d *deliver) call(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
	f, c := d.f, d.c
	switch {
	case name == "invoke:Context" && args[0] == d.conn:
		if v := st.heap[d.gSess]; v != nil {
			return one(st, v), true
		}
		return one(st, d.sess), true
	case name == "invoke:SetContext" && args[0] == d.conn:
		st.heap[d.gSess] = args[1]
		if !d.quiet {
			f.share(st, args[1])
			if st.heap[d.gFirst] == nil {
				st.heap[d.gRest] = d.frame // a new session has nothing kept
			}
		}
		return one(st, f.tup()), true
	case name == "invoke:AsyncWrite":
		c.obl()
		if args[0] != d.conn {
			d.bad("connection", st, in, "a reply is written to another connection")
			return one(st, f.mk("call", f.ctxName(in), nil)), true
		}
		v := args[1]
		o := st.heap[d.gOwed]
		switch {
		case o != nil && !o.isNil() && (d.canon(st, v) == d.canon(st, o)):
			st.heap[d.gOwed] = f.null()
		case v.op == "hreply":
			d.bad("reply-twice", st, in, "a reply is written although it is not the one that is due: replies are sent twice or to the wrong request")
		default:
			if o != nil && !o.isNil() && v.has(o) {
				d.bad("reply-changed", st, in, "what is written is not the reply of the request: %s", v)
				st.heap[d.gOwed] = f.null()
			} else if _, ok := v.text(); ok || v.op == "conv" && v.a[0].op == "const" {
				d.bad("reply-extra", st, in, "something is written that is not the reply of a request: %s", v)
			} else {
				c.undecided("written to the connection: %s", v)
				st.heap[d.gOwed] = f.null()
			}
		}
		return one(st, f.fresh(st, in, "call", nil)), true
	case name == "invoke:Close" && args[0] == d.conn:
		c.obl()
		if b, known := f.truth(st, d.left(st)); !known || b {
			d.bad("closed-early", st, in, "the connection is closed before all decoded requests are handled")
		}
		d.owed(st, in)
		return one(st, f.fresh(st, in, "call", nil)), true
	case strings.HasPrefix(name, "invoke:") && args[0] == d.conn:
		c.undecided("%s of the connection is used", name)
	case name == d.x.handle.String():
		d.handle(st, in, args[0])
		r := f.mk("hreply", f.ctxName(in), types.NewSlice(types.Typ[types.Byte]), args[0])
		f.forget(st, r)
		st.heap[d.gOwed] = r
		return one(st, r), true
	case strings.HasSuffix(name, ").Wait") || strings.HasSuffix(name, ").Lock"):
		d.alt = true
	}
	if g := in.Common().StaticCallee(); g != nil && d.isDecode(g) {
		return d.decode(st, in, args), true
	}
	return nil, false
}

func (d *deliver) isDecode(g *ssa.Function) bool {
	s := g.Signature
	return g.Pkg == d.c.p.pkg("protocol") && s.Recv() == nil && s.Results().Len() == 2 && ptrTo(s.Results().At(0).Type(), d.x.rec) && g.Object() != nil && g.Object().Exported() && s.Params().Len() == 1
}

func (d *deliver) handle(st *fst, in ssa.CallInstruction, v *fv) {
	f, c := d.f, d.c
	c.obl()
	d.handled++
	if n := len(d.touched); n > 0 {
		d.touched[n-1] = true
	}
	d.owed(st, in)
	l, n := d.list(st), d.intCell(st, d.gNext)
	ok := false
	switch {
	case v.isNil() || v.op == "failed":
		d.bad("malformed-executed", st, in, "a request that could not be decoded is executed")
		return
	case v.op == "ld" && v.a[0].op == "iaddr" && d.sameList(v.a[0].a[0], l):
		ok = v.a[0].a[1] == n
		if !ok {
			d.bad("order", st, in, "requests are not handled each once and in order: element %s is handled where %s is next", v.a[0].a[1], n)
			return
		}
	case v.op == "request":
		// handled right after it was decoded
		if l.op == "append1" && l.a[1] == v && f.sum(token.ADD, n, f.num(1), nil) == d.intCell(st, d.gCount) {
			ok = true
		} else {
			e := l
			k := f.length(st, l)
			for e.op == "append1" {
				k = f.sum(token.SUB, k, f.num(1), nil)
				if e.a[1] == v && k == n {
					ok = true
				}
				e = e.a[0]
			}
		}
		if !ok {
			c.undecided("a request is handled at %s and it is not clear which", f.pos(in))
			ok = true
		}
	case v.op == "ld" && v.a[0].op == "iaddr":
		b := v.a[0].a[0]
		if b.op == "slice" && d.sameList(b.a[0], l) {
			d.bad("order", st, in, "only a part of the decoded requests is handled: %s", b)
			return
		}
		c.undecided("request handled at %s is taken from %s", f.pos(in), b)
		ok = true
	default:
		c.undecided("request handled at %s is %s", f.pos(in), v)
		ok = true
	}
	st.heap[d.gNext] = f.sum(token.ADD, n, f.num(1), nil)
	waited := false
	for k := range st.heap {
		if k.op == "ghost" && k.s == "waited" {
			waited = true
		}
	}
	if st.inGo && !waited {
		if d.alt {
			c.undecided("order of the requests of a connection")
		} else {
			d.bad("order", st, in, "requests of one connection may overtake each other: a task does not wait for the earlier ones")
		}
	}
}

func (d *deliver) sameList(a, b *fv) bool {
	return a == b || d.canon(nil, a) == d.canon(nil, b)
}

// decode models the decoding of one request: a request, a cut, or malformed data.
func (d *deliver) decode(st *fst, in ssa.CallInstruction, args []*fv) []fout {
	f, c := d.f, d.c
	d.decoded++
	r := args[0]
	if r.op == "iface" {
		r = r.a[0]
	}
	data := f.textOf(st, r)
	c.obl()
	if st.heap[d.gBad] != nil {
		d.bad("malformed-executed", st, in, "decoding goes on after malformed data, at an unknown position")
	}
	exp := st.heap[d.gRest]
	if d.canon(st, data) != d.canon(st, exp) {
		ps := d.parts(st, data)
		switch {
		case st.heap[d.gLost] != nil:
		case data.op == "obj" || data.op == "shared" || data.op == "call", d.computed(data, map[*fv]bool{}):
			c.undecided("position of the next request at %s: %s", f.pos(in), data)
			st.heap[d.gLost] = f.bool(true)
		case st.heap[d.gCount] != nil && st.heap[d.gCount] != f.num(0):
			d.bad("position", st, in, "the next request is decoded from a position that is not the end of the previous one: %s instead of %s", data, exp)
		case len(ps) == 1 && ps[0] == d.frame:
			d.bad("bytes-lost", st, in, "a new frame is decoded without the bytes kept of an incomplete request")
		case len(ps) == 1 && d.isPending(ps[0]):
			d.bad("bytes-lost", st, in, "the received frame is not decoded")
		case len(ps) == 2 && ps[0] == d.frame && d.isPending(ps[1]):
			d.bad("bytes-order", st, in, "the frame is put before the bytes received earlier")
		case len(ps) > 0 && ps[0].op == "ld" && ps[0].a[0].op == "faddr" && !ps[0].has(d.sess):
			d.bad("bytes-shared", st, in, "bytes of incomplete requests are not kept per connection: %s", ps[0])
		case len(ps) > 0 && (ps[0].op == "slice" || ps[0].op == "append1"):
			d.bad("bytes-lost", st, in, "not all received bytes are decoded: %s", data)
		default:
			c.undecided("decoded at %s: %s", f.pos(in), data)
		}
	}
	if st.inGo && d.borrowed(data, map[*fv]bool{}) {
		d.bad("frame-reused", st, in, "the frame is read after the callback returned; its buffer is reused then")
	}
	st.heap[d.gFirst] = f.bool(true)
	text := f.mk("text", "", nil, r)
	var outs []fout
	// malformed
	q := st.clone()
	q.heap[d.gBad] = f.bool(true)
	q.heap[text] = f.mk("after", "bad"+f.ctxName(in), data.t, data)
	q.note("%s: malformed data", f.pos(in))
	e := f.mk("err", "malformed", nil)
	errT := types.Universe.Lookup("error").Type()
	cuts := []*fv{f.load(st, in, f.mk("global", "io.ErrUnexpectedEOF", nil), errT), f.load(st, in, f.mk("global", "io.EOF", nil), errT)}
	for _, k := range cuts {
		q.facts[f.cmpEq(e, k)] = false
	}
	outs = append(outs, fout{q, f.tup(f.null(), e)})
	// cut short
	for i, n := range []string{"io.ErrUnexpectedEOF", "io.EOF"} {
		q := st.clone()
		q.note("%s: data ends within a request (%s)", f.pos(in), n)
		q.heap[text] = f.mk("after", "cut"+f.ctxName(in), data.t, data)
		q.facts[f.cmp(token.EQL, cuts[i], f.null())] = false
		q.facts[f.cmpEq(cuts[i], cuts[1-i])] = false
		outs = append(outs, fout{q, f.tup(f.null(), cuts[i])})
	}
	// a request
	rec := f.fresh(st, in, "request", types.NewPointer(d.x.rec), data)
	st.facts[f.cmp(token.EQL, rec, f.null())] = false
	aft := f.fresh(st, in, "after", types.NewSlice(types.Typ[types.Byte]), data)
	st.heap[text] = aft
	st.heap[d.gRest] = aft
	st.heap[d.gList] = f.mk("append1", "", nil, d.list(st), rec)
	st.heap[d.gCount] = f.sum(token.ADD, d.intCell(st, d.gCount), f.num(1), nil)
	st.note("%s: a request", f.pos(in))
	outs = append(outs, fout{st, f.tup(rec, f.null())})
	return outs
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (d *deliver) isPending(v *fv) bool {
	return (v.op == "ld" || v.op == "shared") && v.a[0].op == "faddr" && v.has(d.sess) && isByteSlice(v.a[0].t)
}

// computed: the bytes start at an offset that was computed in some other way.
func (d *deliver) computed(v *fv, seen map[*fv]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v.op == "append" {
		return d.computed(v.a[1], seen) || d.computed(v.a[0], seen)
	}
	if v.op == "slice" {
		var other func(x *fv) bool
		other = func(x *fv) bool {
			if x == nil {
				return false
			}
			if x.op == "request" || x.op == "call" || x.op == "shared" || x.op == "ld" && !d.isPending(x) {
				return true
			}
			for _, a := range x.a {
				if other(a) {
					return true
				}
			}
			return false
		}
		return other(v.a[1]) || other(v.a[2])
	}
	for s := range d.f.genSrc[v] {
		if d.computed(s, seen) {
			return true
		}
	}
	return false
}

// hasSession: the path knows that the connection has a session.
func (d *deliver) sessionOf(st *fst) (*fv, bool) {
	if s := st.heap[d.gSess]; s != nil {
		if s.op == "iface" {
			return s.a[0], true
		}
		return s, true
	}
	t := d.sessT
	if b, ok := st.facts[d.f.mk("taok", t.s, nil, d.sess)]; ok && !b {
		return t, false
	}
	if b, ok := st.facts[d.f.cmp(token.EQL, t, d.f.null())]; ok && b {
		return t, false
	}
	if b, ok := st.facts[d.f.cmp(token.EQL, d.sess, d.f.null())]; ok && b {
		return nil, false
	}
	return t, true
}

func (d *deliver) end(o fout) {
	f, c, st := d.f, d.c, o.st
	at := d.react.Blocks[0].Instrs[0]
	if st.panic != "" {
		c.obl()
		d.bad("panic", st, st.pos, "the callback panics: %s", st.panic)
		return
	}
	c.obl()
	if out := o.res.a[0]; !out.isNil() && !emptyBytes(f, st, out) {
		if b, known := f.truth(st, f.cmp(token.LSS, f.num(0), f.length(st, out))); !known || b {
			d.bad("reply-extra", st, at, "the callback itself returns data to write: %s", out)
		}
	}
	s, has := d.sessionOf(st)
	if !has {
		return
	}
	rest := st.heap[d.gRest]
	if st.heap[d.gFirst] == nil && !d.empty(st, rest) {
		// nothing was decoded
		fl := map[string]bool{}
		for k, b := range st.facts {
			if (k.op == "ld" || k.op == "shared") && k.a[0].op == "faddr" && k.has(d.sess) && isBasic(k.a[0].t, types.IsBoolean) {
				fl[k.a[0].s] = b
			}
		}
		d.early = append(d.early, earlyOut{st, fl})
		return
	}
	malformed := st.heap[d.gBad] != nil
	l := d.list(st)
	if !l.isNil() {
		c.obl()
		if st.m["tasks"] == "" {
			if b, known := f.truth(st, d.left(st)); !known || b {
				if b, known := f.truth(st, f.cmp(token.LSS, f.num(0), f.length(st, l))); !known || b {
					d.bad("dropped", st, at, "decoded requests are not handed to the executor")
				}
			}
			d.owed(st, at)
		}
	}
	if s == nil {
		return
	}
	// the bytes of an incomplete request are kept
	if !malformed && st.heap[d.gLost] == nil {
		for _, n := range keysOf(d.pend) {
			c.obl()
			a := d.fieldOf(st, s, n)
			if a == nil {
				continue
			}
			v := f.load(st, nil, a, a.t)
			if d.canon(st, v) != d.canon(st, rest) && !d.computed(v, map[*fv]bool{}) {
				d.bad("bytes-lost", st, at, "the bytes of an incomplete request are not kept: %s instead of %s", v, rest)
			}
			if d.borrowed(v, map[*fv]bool{}) {
				d.bad("frame-reused", st, at, "the bytes kept of an incomplete request lie in the frame, whose buffer is reused: %s", v)
			}
		}
	}
	// order across callbacks
	if st.m["tasks"] != "" && !malformed {
		chans := 0
		su := sessStruct(s)
		for i := 0; su != nil && i < su.NumFields(); i++ {
			if _, ok := su.Field(i).Type().Underlying().(*types.Chan); !ok {
				continue
			}
			a := f.faddr(s, su, i)
			v := f.load(st, nil, a, a.t)
			first := f.mk("ld", "", a.t, a)
			chans++
			c.obl()
			switch {
			case v == first || v.op != "obj":
				if !d.alt {
					d.bad("order", st, at, "a later task does not wait for this one: %s is not replaced", a)
				}
			case st.heap[f.mk("ghost", "closed", nil, v)] == nil:
				d.bad("stuck", st, at, "the task may end without closing the channel the next one waits for, so later requests are never executed")
			case st.heap[f.mk("ghost", "tooearly", nil, v)] != nil:
				d.bad("order", st, at, "the channel the next task waits for is closed before all requests are handled")
			case st.heap[f.mk("ghost", "unwaited", nil, v)] != nil:
				d.bad("order", st, at, "the channel the next task waits for is closed without waiting for the earlier tasks")
			}
		}
		if chans == 0 {
			c.undecided("how tasks of one connection are ordered")
		}
	}
}

// empty: the path knows that there are no bytes.
func (d *deliver) empty(st *fst, v *fv) bool {
	n := d.f.num(0)
	ps := d.parts(st, v)
	for _, p := range ps {
		n = d.f.sum(token.ADD, n, d.f.length(st, p), nil)
		if p == d.frame {
			if b, known := d.f.truth(st, d.f.cmp(token.LSS, d.f.num(0), d.f.length(st, p))); known && !b {
				return true // nothing received
			}
		}
	}
	b, known := d.f.truth(st, d.f.cmp(token.LSS, d.f.num(0), n))
	return known && !b
}

func sessStruct(v *fv) *types.Struct {
	if v == nil || v.t == nil {
		return nil
	}
	return fstructOf(v.t)
}

func (d *deliver) fieldOf(st *fst, s *fv, n string) *fv {
	u := sessStruct(s)
	if u == nil {
		return nil
	}
	i := fieldIndex(u, n)
	if i < 0 {
		return nil
	}
	return d.f.faddr(s, u, i)
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// flags: a frame is ignored only after malformed data, and always then.
func (d *deliver) flags() {
	f, c := d.f, d.c
	at := d.react.Blocks[0].Instrs[0]
	stop := map[string]bool{} // flag=value that makes the callback ignore frames
	for _, e := range d.early {
		c.obl()
		if len(e.flags) == 0 {
			d.bad("frame-dropped", e.st, at, "a frame is dropped without being decoded")
			continue
		}
		for n, b := range e.flags {
			stop[fmt.Sprintf("%s=%v", n, b)] = true
		}
	}
	for _, o := range d.outs {
		st := o.st
		if st.panic != "" || st.heap[d.gFirst] == nil {
			continue
		}
		s, has := d.sessionOf(st)
		if !has || s == nil {
			continue
		}
		stops, unknown := false, false
		for k := range stop {
			i := strings.IndexByte(k, '=')
			a := d.fieldOf(st, s, k[:i])
			if a == nil {
				unknown = true
				continue
			}
			v := f.load(st, nil, a, a.t)
			if b, ok := f.truth(st, v); ok && fmt.Sprint(b) == k[i+1:] {
				stops = true
			} else if !ok {
				unknown = true
			}
		}
		c.obl()
		if st.heap[d.gBad] != nil {
			if k, ok := o.res.a[1].int(); ok && k != 0 {
				continue // the connection is closed
			}
			if !stops && !unknown {
				d.bad("malformed-executed", st, at, "after malformed data later frames are decoded at an unknown position and executed")
			}
		} else if stops {
			d.bad("frame-dropped", st, at, "all later frames of the connection are ignored although nothing was malformed")
		}
	}
}

// opened: a new connection starts with nothing kept, nothing to wait for, and is not ignored.
func (d *deliver) opened() {
	c := d.c
	var open *ssa.Function
	for _, g := range c.p.Funcs {
		if g.Name() == "OnOpened" && g.Pkg == d.react.Pkg && g.Signature.Recv() != nil && g.Synthetic == "" && types.Identical(g.Signature.Recv().Type(), d.react.Signature.Recv().Type()) {
			open = g
		}
	}
	if open == nil {
		return
	}
	n := newDeliver(c, d.x, open)
	n.quiet = true
	f := n.f
	f.onCall = n.call
	f.onClose = func(st *fst, in ssa.Instruction, ch *fv) {
		st.heap[f.mk("ghost", "closed", nil, ch)] = f.bool(true)
	}
	c.guard(f, fnName(open), func() {
		at := open.Blocks[0].Instrs[0]
		for _, o := range f.exec(newFst(), open, []*fv{f.sym("server"), n.conn}, nil) {
			c.obl()
			st := o.st
			if st.panic != "" {
				continue
			}
			s := st.heap[n.gSess]
			if s == nil {
				// the callback may make the session
				for _, e := range d.outs {
					if e.st.heap[d.gSess] != nil {
						return
					}
				}
				n.bad("frame-dropped", st, at, "a new connection gets no session, so its requests are ignored")
				continue
			}
			if s.op == "iface" {
				s = s.a[0]
			}
			u := sessStruct(s)
			for i := 0; u != nil && i < u.NumFields(); i++ {
				a := f.faddr(s, u, i)
				v := f.load(st, nil, a, a.t)
				switch t := u.Field(i).Type().Underlying().(type) {
				case *types.Chan:
					if v.isNil() || v.op == "obj" && st.heap[f.mk("ghost", "closed", nil, v)] == nil {
						n.bad("stuck", st, at, "the first task of a new connection waits for a channel that is never closed")
					}
				case *types.Slice:
					if d.pend[a.s] && !v.isNil() && !emptyBytes(f, st, v) {
						n.bad("bytes-lost", st, at, "a new connection starts with bytes of an incomplete request: %s", v)
					}
				case *types.Basic:
					for _, e := range d.early {
						if w, ok := e.flags[a.s]; ok && t.Info()&types.IsBoolean != 0 && len(e.flags) == 1 {
							if b, ok := v.boolean(); ok && b == w {
								n.bad("frame-dropped", st, at, "the frames of a new connection are ignored")
							}
						}
					}
				}
			}
		}
	})
}

// oneEvent: a request is handed to the executor once, and its reply is that of its event.
func oneEvent(c *ctx, x *execRoles) {
	if x.handle == nil {
		c.undecided("function that turns a request into a reply not found")
		return
	}
	c.request(x, func(f *flow, st *fst, rec, o *fv) {
		c.obl()
		at := f.p.pos(x.handle.Pos())
		switch st.m["sent"] {
		case "":
			if o.op == "encoded" && f.errorOf(st, o.a[0]) == nil {
				c.bad("not-executed", at, "a request is answered without an error although it was not handed to the executor: %s%s", o.a[0], path(st))
			}
			return
		case "1":
		default:
			c.bad("twice", at, "one request is handed to the executor more than once%s", path(st))
			return
		}
		if o.isNil() || emptyBytes(f, st, o) {
			c.bad("no-reply", at, "a request that was executed gets no reply%s", path(st))
			return
		}
		if o.op != "encoded" {
			c.undecided("reply of %s is %s", fnName(x.handle), o)
			return
		}
		if st.m["evdone"] != "1" {
			return // deadline: C06
		}
		v := o.a[0]
		if v.op == "reply" {
			if fmt.Sprint(v.a[0].id) != st.m["~event"] {
				c.bad("other-reply", at, "the reply is that of another request%s", path(st))
			}
			return
		}
		if f.errorOf(st, v) != nil || v.op == "obj" {
			c.bad("other-reply", at, "the command completed and its reply is replaced: %s%s", v, path(st))
			return
		}
		c.undecided("reply of a completed command is %s", v)
	})
}
