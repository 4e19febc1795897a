package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: a reply is one well-formed value. The encoder is interpreted on an arbitrary
// response whose items are of the kinds the constructors build; the text it has written
// is a term, which is read back with the grammar of the protocol. A loop over the items
// is handled by induction: arr(items, n) stands for the array header and the first n
// items, and every round has to turn it into arr(items, n+1).

type encoding struct {
	c     *ctx
	f     *flow
	pt    protoTypes
	items *fv
	said  map[string]bool
	good  int
}

// payload is one kind of item a response may hold.
type payload struct {
	typ int64
	dyn string // dynamic type of the value: string, error, int64, nil
}

func (e *encoding) payloads() []payload {
	return []payload{{e.pt.simple, "string"}, {e.pt.errs, "error"}, {e.pt.ints, "int64"}, {e.pt.bulk, "nil"}, {e.pt.bulk, "string"}}
}

func (c *ctx) encoder() *ssa.Function {
	pt := c.p.proto()
	if !pt.ok {
		return nil
	}
	sel := c.p.SSA.MethodSets.MethodSet(types.NewPointer(pt.resp)).Lookup(pt.resp.Obj().Pkg(), "Encode")
	if sel == nil {
		return nil
	}
	return c.p.SSA.MethodValue(sel)
}

func encodeReplies(c *ctx) {
	enc := c.encoder()
	if enc == nil || len(enc.Params) != 1 {
		c.undecided("encoder of responses not found")
		return
	}
	f := newFlow(c)
	e := &encoding{c: c, f: f, pt: c.p.proto(), said: map[string]bool{}}
	f.asserts = true
	f.bytesText = true
	f.spread = map[string]bool{"arr": true}
	r := f.sym("response")
	st := newFst()
	st.facts[f.cmp(token.EQL, r, f.null())] = false
	rs := e.pt.resp.Underlying().(*types.Struct)
	e.items = f.load(st, nil, f.faddr(r, rs, fieldIndex(rs, e.pt.fItems)), fieldType(rs, e.pt.fItems))
	isArr := f.load(st, nil, f.faddr(r, rs, fieldIndex(rs, e.pt.fArray)), types.Typ[types.Bool])
	f.onHead = func(st *fst, env map[ssa.Value]*fv) bool {
		for k, v := range env {
			if v != nil {
				env[k] = e.fold(st, v)
			}
		}
		for a, v := range st.heap {
			if v != nil && (a.op == "text" || v.op == "cat" || v.op == "conv") {
				st.heap[a] = e.fold(st, v)
			}
		}
		return !e.impossible(st)
	}
	c.guard(f, fnName(enc), func() {
		outs := f.exec(st, enc, []*fv{r}, nil)
		c.count("ways an encoding can end", len(outs))
		for _, o := range outs {
			if e.impossible(o.st) {
				continue
			}
			c.obl()
			if o.st.panic != "" {
				e.bad("encoder-panic", f.pos(o.st.pos), "encoding a reply may panic: %s%s", o.st.panic, path(o.st))
				continue
			}
			if len(o.res.a) == 1 {
				if b := o.st.m[fmt.Sprintf("inside:%d", o.res.a[0].id)]; b != "" && strings.Contains(","+o.st.m["given back"], ","+b+",") {
					e.bad("reused", f.p.pos(enc.Pos()), "the bytes of a reply lie in a buffer that is already given back for another reply%s", path(o.st))
				}
				e.end(o.st, enc, isArr, o.res.a[0])
			}
		}
		if e.good == 0 {
			c.undecided("no encoding of a reply could be read")
		}
	})
}

func fieldType(s *types.Struct, n string) types.Type {
	return s.Field(fieldIndex(s, n)).Type()
}

func (e *encoding) bad(rule, pos, form string, a ...interface{}) {
	m := fmt.Sprintf(form, a...)
	if !e.said[rule+m] {
		e.said[rule+m] = true
		e.c.bad(rule, pos, "%s", m)
	}
}

// itemOf: the terms of the type and the value of the n-th item.
func (e *encoding) item(n *fv) (ptr, typ, val *fv) {
	f := e.f
	et := e.items.t
	if et == nil {
		et = fieldType(e.pt.resp.Underlying().(*types.Struct), e.pt.fItems)
	}
	el := et.Underlying().(*types.Slice).Elem()
	is := e.pt.item.Underlying().(*types.Struct)
	a := f.iaddr(e.items, n, el)
	if _, ok := el.Underlying().(*types.Pointer); ok {
		a = f.mk("ld", "", el, a)
	}
	ft := f.faddr(a, is, fieldIndex(is, e.pt.fType))
	fvv := f.faddr(a, is, fieldIndex(is, e.pt.fVal))
	return a, f.mk("ld", "", fieldType(is, e.pt.fType), ft), f.mk("ld", "", fieldType(is, e.pt.fVal), fvv)
}

// kinds of payload the path leaves open for an item.
func (e *encoding) kinds(st *fst, n *fv) []payload {
	f := e.f
	ptr, typ, val := e.item(n)
	if b, ok := f.truth(st, f.cmp(token.EQL, ptr, f.null())); ok && b {
		return nil
	}
	var r []payload
	for _, k := range e.payloads() {
		ok := true
		see := func(b, known, want bool) {
			if known && b != want {
				ok = false
			}
		}
		b, known := f.truth(st, f.cmp(token.EQL, typ, f.num(k.typ)))
		see(b, known, true)
		b, known = f.truth(st, f.cmp(token.EQL, val, f.null()))
		see(b, known, k.dyn == "nil")
		for c, b := range st.facts {
			switch {
			case c.op == "taok" && c.a[0] == val:
				if k.dyn == "error" && c.s != "error" && c.s != "string" && c.s != "int64" {
					continue
				}
				see(b, true, c.s == k.dyn || k.dyn != "nil" && (c.s == "any" || c.s == "interface{}"))
			case c.op == "lt":
				// a range test of the type
				x, okx := c.a[0].int()
				y, oky := c.a[1].int()
				if c.a[0] == typ && oky {
					see(b, true, k.typ < y)
				}
				if c.a[1] == typ && okx {
					see(b, true, x < k.typ)
				}
			}
		}
		if ok {
			r = append(r, k)
		}
	}
	return r
}

// impossible: the path needs an item that no constructor builds.
func (e *encoding) impossible(st *fst) bool {
	if st.m["~impossible"] != "" {
		return true
	}
	seen := map[*fv]bool{}
	var walk func(v *fv)
	bad := false
	walk = func(v *fv) {
		if v == nil || seen[v] || !v.has(e.items) {
			return
		}
		seen[v] = true
		if v.op == "iaddr" && v.a[0] == e.items && len(e.kinds(st, v.a[1])) == 0 {
			bad = true
		}
		for _, a := range v.a {
			walk(a)
		}
	}
	for c := range st.facts {
		walk(c)
	}
	return bad
}

// ---- reading back

type piece struct {
	s string
	v *fv
}

func (e *encoding) pieces(v *fv) []piece {
	as := []*fv{v}
	if v.op == "cat" {
		as = v.a
	}
	var r []piece
	for _, a := range as {
		if s, ok := a.text(); ok {
			if s != "" {
				r = append(r, piece{s: s})
			}
		} else {
			r = append(r, piece{v: a})
		}
	}
	return r
}

func (e *encoding) join(ps []piece) *fv {
	var as []*fv
	for _, p := range ps {
		if p.v != nil {
			as = append(as, p.v)
		} else {
			as = append(as, e.f.str(p.s))
		}
	}
	return e.f.cat(as...)
}

// eat takes constant text off the front.
func eat(ps []piece, s string) (rest []piece, ok, short bool) {
	if s == "" {
		return ps, true, false
	}
	if len(ps) == 0 {
		return nil, false, true
	}
	if ps[0].v != nil {
		return nil, false, false
	}
	if strings.HasPrefix(ps[0].s, s) {
		if len(ps[0].s) == len(s) {
			return ps[1:], true, false
		}
		return append([]piece{{s: ps[0].s[len(s):]}}, ps[1:]...), true, false
	}
	return nil, false, len(ps) == 1 && strings.HasPrefix(s, ps[0].s)
}

// line takes text up to CRLF off the front.
func (e *encoding) line(ps []piece) (l []piece, rest []piece, ok bool) {
	for i, p := range ps {
		if p.v == nil {
			if k := strings.Index(p.s, "\r\n"); k >= 0 {
				if k > 0 {
					l = append(l, piece{s: p.s[:k]})
				}
				if k+2 < len(p.s) {
					rest = append(rest, piece{s: p.s[k+2:]})
				}
				return l, append(rest, ps[i+1:]...), true
			}
		}
		l = append(l, p)
	}
	return nil, nil, false
}

// decimal: the number a piece of text writes out.
func (e *encoding) decimal(l []piece) *fv {
	if len(l) != 1 {
		return nil
	}
	if l[0].v == nil {
		if k, err := strconv.ParseInt(l[0].s, 10, 64); err == nil && fmt.Sprint(k) == l[0].s {
			return e.f.num(k)
		}
		return nil
	}
	if v := l[0].v; v.op == "app" && v.s == "decimal" {
		v = v.a[0]
		for v.op == "conv" && (v.s == "int64" || v.s == "int") {
			v = v.a[0]
		}
		return v
	}
	return nil
}

// known: the length of a text on this path.
func (e *encoding) known(st *fst, l *fv) *fv {
	f := e.f
	if l.op == "len" {
		for k := int64(0); k < 3; k++ {
			if b, ok := f.truth(st, f.cmp(token.EQL, l, f.num(k))); ok && b {
				return f.num(k)
			}
		}
		if b, ok := f.truth(st, f.cmp(token.LSS, f.num(0), l)); ok && !b {
			return f.num(0)
		}
		if x := l.a[0]; true {
			for c, b := range st.facts {
				if c.op == "eq" && b && (c.a[0] == x || c.a[1] == x) {
					y := c.a[0]
					if y == x {
						y = c.a[1]
					}
					if s, ok := y.text(); ok {
						return f.num(int64(len(s)))
					}
				}
			}
		}
	}
	return l
}

// element reads one item. why is empty when it is the n-th item, "short" when more is to come.
func (e *encoding) element(st *fst, ps []piece, n *fv) (rest []piece, why string) {
	f := e.f
	if len(ps) == 0 {
		return nil, "short"
	}
	_, _, val := e.item(n)
	kinds := e.kinds(st, n)
	if len(kinds) == 0 {
		return nil, "impossible"
	}
	for i, k := range kinds {
		var r []piece
		var w string
		switch k.typ {
		case e.pt.simple, e.pt.errs:
			c := "+"
			if k.typ == e.pt.errs {
				c = "-"
			}
			r, w = e.textLine(ps, c, val)
		case e.pt.ints:
			var ok, short bool
			r, ok, short = eat(ps, ":")
			if !ok {
				w = "an integer does not start with ':'"
				if short {
					w = "short"
				}
				break
			}
			l, r2, ok := e.line(r)
			if !ok {
				w = "short"
				break
			}
			d := e.decimal(l)
			if d == nil || !d.has(val) {
				w = "an integer line holds " + e.show(l) + " and not the decimal form of the value"
			}
			r = r2
		default:
			r, w = e.bulk(st, ps, k, val)
		}
		if w != "" {
			return nil, w
		}
		if i > 0 && e.join(r) != e.join(rest) {
			return nil, "items of different kinds are written alike"
		}
		rest = r
	}
	_ = f
	return rest, ""
}

func (e *encoding) textLine(ps []piece, c string, val *fv) ([]piece, string) {
	what := "a status"
	if c == "-" {
		what = "an error"
	}
	r, ok, short := eat(ps, c)
	if !ok {
		if short {
			return nil, "short"
		}
		return nil, what + " does not start with '" + c + "'"
	}
	l, rest, ok := e.line(r)
	if !ok {
		for _, p := range r {
			if p.v == nil && strings.ContainsAny(strings.TrimSuffix(p.s, "\r"), "\r\n") {
				return nil, what + " line does not end in CRLF"
			}
		}
		return nil, "short"
	}
	has := false
	for _, p := range l {
		if p.v == nil && strings.ContainsAny(p.s, "\r\n") {
			return nil, what + " line holds a line break"
		}
		has = has || p.v != nil && p.v.has(val)
	}
	if !has {
		return nil, what + " line does not hold the text of the item"
	}
	return rest, ""
}

func (e *encoding) bulk(st *fst, ps []piece, k payload, val *fv) ([]piece, string) {
	f := e.f
	r, ok, short := eat(ps, "$")
	if !ok {
		if short {
			return nil, "short"
		}
		return nil, "a bulk string does not start with '$'"
	}
	l, r, ok := e.line(r)
	if !ok {
		for _, p := range ps {
			if p.v == nil && strings.Contains(p.s, "\n") {
				return nil, "the length line of a bulk string does not end in CRLF"
			}
		}
		return nil, "short"
	}
	d := e.decimal(l)
	if d == nil {
		return nil, "the length line of a bulk string holds " + e.show(l)
	}
	if n, ok := d.int(); ok && n == -1 {
		if k.dyn != "nil" {
			return nil, "a text is written as the null bulk string"
		}
		return r, ""
	}
	if k.dyn == "nil" {
		return nil, "the null bulk string is not written as $-1"
	}
	if kd := e.known(st, d); kd != d {
		d = kd
	}
	// the payload
	for i := 0; i <= len(r); i++ {
		t := e.join(r[:i])
		if e.known(st, f.length(st, t)) != d && e.lenOf(st, t) != d {
			continue
		}
		rest, ok, short := eat(r[i:], "\r\n")
		if !ok {
			if short {
				return nil, "short"
			}
			continue
		}
		if n, isK := d.int(); !t.has(val) && !(isK && n == 0) {
			return nil, "a bulk string holds " + t.String() + " and not the text of the item"
		}
		return rest, ""
	}
	if len(r) == 0 {
		return nil, "short"
	}
	return nil, fmt.Sprintf("the length prefix %s of a bulk string is not the number of bytes of what follows, %s and the line end", clean(d), e.show(r))
}

func (e *encoding) lenOf(st *fst, t *fv) *fv { return e.f.length(st, t) }

func (e *encoding) show(l []piece) string {
	var ss []string
	for _, p := range l {
		if p.v != nil {
			ss = append(ss, clean(p.v))
		} else {
			ss = append(ss, strconv.Quote(p.s))
		}
	}
	return strings.Join(ss, " + ")
}

func clean(v *fv) string {
	s := v.String()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

// fold turns a finished header and finished items at the front of a text into arr(items, n).
func (e *encoding) fold(st *fst, v *fv) *fv {
	f := e.f
	if v.op == "conv" && v.s == "[]byte" {
		t := e.fold(st, v.a[0])
		if t == v.a[0] {
			return v
		}
		return f.mk("conv", "[]byte", v.t, t)
	}
	if v.op != "cat" && v.op != "arr" {
		return v
	}
	ps := e.pieces(v)
	n := (*fv)(nil)
	if len(ps) > 0 && ps[0].v != nil && ps[0].v.op == "arr" {
		n, ps = ps[0].v.a[1], ps[1:]
	} else if r, ok, _ := eat(ps, "*"); ok {
		l, r, ok := e.line(r)
		if !ok || e.decimal(l) != f.length(st, e.items) {
			return v
		}
		n, ps = f.num(0), r
	} else {
		return v
	}
	for len(ps) > 0 {
		if ps[0].v != nil && ps[0].v.op == "item" {
			break
		}
		r, why := e.element(st, ps, n)
		if why == "impossible" {
			st.m["~impossible"] = "1"
			return v
		}
		if why != "" {
			if why != "short" && e.readable(ps) {
				e.c.obl()
				e.bad("element", e.where(), "an element of an array reply is not encoded as one value: %s%s", why, path(st))
			}
			break
		}
		e.c.obl()
		n, ps = f.sum(token.ADD, n, f.num(1), nil), r
	}
	return f.cat(f.mk("arr", "", nil, e.items, n), e.join(ps))
}

func (e *encoding) where() string { return e.f.p.pos(e.c.encoder().Pos()) }

// readable: nothing in it is unknown to the analysis.
func (e *encoding) readable(ps []piece) bool {
	var ok func(v *fv) bool
	ok = func(v *fv) bool {
		switch v.op {
		case "const", "nil":
			return true
		case "ld":
			return v == e.items || v.has(e.items)
		case "cat", "app", "len", "ta", "sum", "conv", "arr", "bin", "slice":
			for _, a := range v.a {
				if a != nil && !ok(a) {
					return false
				}
			}
			return true
		}
		return v.op == "phi" || v.op == "cell" // positions
	}
	for _, p := range ps {
		if p.v != nil && (p.v.op == "phi" || p.v.op == "cell" || !ok(p.v)) {
			return false
		}
	}
	return true
}

// end judges a finished encoding.
func (e *encoding) end(st *fst, enc *ssa.Function, isArr, res *fv) {
	f := e.f
	t := res
	if t.op == "conv" && t.s == "[]byte" {
		t = t.a[0]
	}
	if t.isNil() {
		t = f.str("")
	}
	if t.op == "obj" {
		if n, ok := f.length(st, t).int(); ok && n == 0 {
			t = f.str("")
		}
	}
	at := e.where()
	n := f.length(st, e.items)
	some, known := f.truth(st, f.cmp(token.LSS, f.num(0), n))
	empty := known && !some
	arr, arrKnown := f.truth(st, isArr)
	ps := e.pieces(t)
	e.c.obl()
	if len(ps) == 0 {
		e.bad("no-reply", at, "a response is encoded as nothing%s", path(st))
		return
	}
	fd := e.pieces(e.fold(st, t))
	if e.impossible(st) {
		return
	}
	if len(fd) > 0 && fd[0].v != nil && fd[0].v.op == "arr" {
		cnt := fd[0].v.a[1]
		if len(fd) > 1 {
			if e.readable(fd[1:]) {
				e.bad("trailing", at, "an array reply is followed by %s%s", e.show(fd[1:]), path(st))
			} else {
				e.c.undecided("what follows an array reply: %s", e.show(fd[1:]))
			}
			return
		}
		less, k1 := f.truth(st, f.cmp(token.LSS, cnt, n))
		same, k2 := f.truth(st, f.cmp(token.EQL, cnt, n))
		if !(k1 && !less) && !(k2 && same) && !(empty && cnt == f.num(0)) {
			e.bad("count", at, "an array reply announces every item of the response but holds %s of them%s", clean(cnt), path(st))
			return
		}
		if arrKnown && !arr {
			e.bad("form", at, "a response that is not an array is encoded as an array%s", path(st))
			return
		}
		e.good++
		return
	}
	if s, ok := t.text(); ok {
		switch {
		case s == "*0\r\n" && empty && arrKnown && arr, s == "$-1\r\n" && empty && arrKnown && !arr:
			e.good++
			return
		case s == "*0\r\n" && empty || s == "$-1\r\n" && empty:
			e.bad("form", at, "an empty response is encoded as %q whether or not it is an array%s", s, path(st))
			return
		}
	}
	if r, ok, _ := eat(ps, "*"); ok {
		l, _, _ := e.line(r)
		if e.readable(ps) {
			e.bad("count", at, "the header of an array reply announces %s, not the number of items%s", e.show(l), path(st))
		} else {
			e.c.undecided("text of an array reply: %s", e.show(ps))
		}
		return
	}
	if empty {
		if e.readable(ps) {
			e.bad("form", at, "a response without items is encoded as %s%s", e.show(ps), path(st))
		} else {
			e.c.undecided("text of an empty reply: %s", e.show(ps))
		}
		return
	}
	rest, why := e.element(st, ps, f.num(0))
	switch {
	case why == "impossible":
		return
	case why == "" && len(rest) > 0:
		why = "it is followed by " + e.show(rest)
	case why == "" && arrKnown && arr:
		why = "an array is encoded as a single value"
	case why == "":
		e.good++
		return
	case why == "short":
		why = "it ends too early: " + e.show(ps)
	}
	if e.readable(ps) {
		e.bad("element", at, "a reply is not one well-formed value: %s%s", why, path(st))
	} else {
		e.c.undecided("text of a reply: %s", e.show(ps))
	}
}

// ---- lines

// fixedLines: status and error lines made outside the implementations hold fixed text.
func fixedLines(c *ctx) {
	x := c.exec()
	pt := c.p.proto()
	if !pt.ok {
		c.undecided("types of replies not found")
		return
	}
	see := func(f *flow, st *fst, at string, rsp *fv) {
		if rsp == nil || rsp.op != "obj" {
			return
		}
		rs := pt.resp.Underlying().(*types.Struct)
		is := pt.item.Underlying().(*types.Struct)
		items := f.load(st, nil, f.faddr(rsp, rs, fieldIndex(rs, pt.fItems)), fieldType(rs, pt.fItems))
		n, ok := f.length(st, items).int()
		if !ok {
			return
		}
		el := fieldType(rs, pt.fItems).Underlying().(*types.Slice).Elem()
		for i := int64(0); i < n && i < 8; i++ {
			a := f.iaddr(items, f.num(i), el)
			if _, ok := el.Underlying().(*types.Pointer); ok {
				a = f.load(st, nil, a, el)
			}
			t, ok := f.load(st, nil, f.faddr(a, is, fieldIndex(is, pt.fType)), fieldType(is, pt.fType)).int()
			v := f.load(st, nil, f.faddr(a, is, fieldIndex(is, pt.fVal)), fieldType(is, pt.fVal))
			if !ok {
				continue
			}
			c.obl()
			switch t {
			case pt.errs:
				if why := c.fixedError(f, st, v, 0); why != "" {
					c.bad("error-line", at, "an error line is sent whose text is not fixed: %s%s", why, path(st))
				}
			case pt.simple:
				s := v
				if s.op == "iface" {
					s = s.a[0]
				}
				if k, ok := s.text(); !ok {
					c.bad("status-line", at, "a status line is sent whose text is not fixed: %s%s", clean(s), path(st))
				} else if strings.ContainsAny(k, "\r\n") {
					c.bad("status-line", at, "a status line holds a line break: %q", k)
				}
			}
		}
	}
	r := c.worker(x)
	f := r.f
	c.guard(f, "executor", func() {
		r.onDone = func(st *fst, in ssa.Instruction, rsp *fv, known bool) {
			see(f, st, f.pos(in), rsp)
		}
		r.build(c)
	})
	if x.handle == nil {
		c.undecided("function that turns a request into a reply not found")
		return
	}
	c.request(x, func(f *flow, st *fst, rec *fv, o *fv) {
		if o != nil && o.op == "encoded" {
			see(f, st, f.p.pos(x.handle.Pos()), o.a[0])
		}
	})
}

// fixedError says why the text of an error is not fixed; empty when it is, or when it is an implementation's error.
func (c *ctx) fixedError(f *flow, st *fst, v *fv, d int) string {
	if d > 5 || v == nil {
		return ""
	}
	switch v.op {
	case "iface":
		if len(v.a) == 1 {
			if v.s == "panic" || v.a[0].op == "sym" && v.a[0].s == "panic" {
				return "the value of a panic"
			}
			if isBasic(v.t, types.IsNumeric) || isBasic(v.t, types.IsBoolean) {
				return ""
			}
			if s, ok := v.a[0].text(); ok {
				if strings.ContainsAny(s, "\r\n") {
					return "it holds a line break"
				}
				return ""
			}
			if isBasic(v.t, types.IsString) {
				return "it holds " + clean(v.a[0])
			}
			return c.fixedError(f, st, v.a[0], d+1)
		}
	case "err":
		if len(v.a) == 0 {
			if s := c.errText(v); strings.ContainsAny(s, "\r\n") {
				return fmt.Sprintf("%q holds a line break", s)
			}
			return ""
		}
		s, ok := v.a[0].text()
		if !ok {
			return "it is made from " + clean(v.a[0])
		}
		if strings.ContainsAny(s, "\r\n") {
			return fmt.Sprintf("%q holds a line break", s)
		}
		for _, a := range v.a[1:] {
			n, ok := f.length(st, a).int()
			if !ok {
				return "it is made from " + clean(a)
			}
			any := types.NewInterfaceType(nil, nil)
			for i := int64(0); i < n; i++ {
				if why := c.fixedError(f, st, f.load(st, nil, f.iaddr(a, f.num(i), any), any), d+1); why != "" {
					return why
				}
			}
		}
	case "ta":
		return c.fixedError(f, st, v.a[0], d+1)
	case "cat", "app", "conv":
		return "it holds " + clean(v)
	case "sym":
		if v.s == "panic" {
			return "the value of a panic"
		}
	}
	return ""
}
