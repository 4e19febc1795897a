package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sorted-set commands, followed on the lookup table and the scores; the ordered index is an abstract
// collection of members with their nodes (its own functions are the matter of C19 and C27).

const (
	aScore = "a member has exactly the score it is defined to have"
	aTwice = "the ordered index holds the members of the table with their scores"
)

func (a *answers) zin(x, e *fv) *fv   { return a.f.mk("zin", "", nil, x, e) }
func (a *answers) znode(x, e *fv) *fv { return a.f.mk("znode", "", nil, x, e) }

func (a *answers) zlength(x *fv) *fv { return a.field(x, a.r.zslT, a.r.zslLen) }

func (a *answers) putZset(st *fst, k, info *fv, c *acont) []*fv {
	f, r := a.f, a.r
	ptr := func(n *types.Named) types.Type { return types.NewPointer(n) }
	o := a.sym("value of "+k.s, ptr(r.zsetT))
	st.heap[a.field(info, r.keyInfo, r.kiValue)] = f.mk("iface", o.t.String(), o.t, o)
	m := f.mk("smap", "map of "+k.s, r.mapT)
	x := a.sym("index of "+k.s, ptr(r.zslT))
	st.heap[a.field(o, r.zsetT, r.zsMap)] = m
	st.heap[a.field(o, r.zsetT, r.zsIdx)] = x
	objs := []*fv{info, o, m, x}
	mg := a.gomap(m)
	a.newMap(st, mg)
	st.heap[a.cRest(mg)] = f.bool(c.rest)
	for _, e := range a.mems {
		if !c.in[e] {
			continue
		}
		n := a.sym("node of "+e.s+" in "+k.s, ptr(r.znodeT))
		d := a.sym("entry of "+e.s+" in "+k.s, ptr(r.dictT))
		objs = append(objs, n, d)
		score := a.field(n, r.znodeT, r.znScore)
		st.heap[a.field(n, r.znodeT, r.znVal)] = e
		st.heap[score] = c.val[e]
		st.heap[a.zin(x, e)] = f.bool(true)
		st.heap[a.znode(x, e)] = n
		st.heap[a.cIn(mg, e)] = f.bool(true)
		st.heap[a.cAt(mg, e)] = f.mk("iface", d.t.String(), d.t, d)
		t := types.NewPointer(types.Typ[types.Float64])
		st.heap[a.field(d, r.dictT, r.deVal)] = f.mk("iface", t.String(), t, score)
		f.assume(st, f.cmp(token.EQL, c.val[e], c.val[e]), true)
		f.assume(st, f.mk("isnan", "", types.Typ[types.Bool], c.val[e]), false)
	}
	n := f.num(c.size())
	if c.rest {
		n = a.sym("length of "+k.s, types.Typ[types.Int])
		f.assume(st, f.cmp(token.LSS, n, f.num(c.size()+1)), false)
	}
	st.heap[a.zlength(x)] = n
	for i, x := range objs {
		f.assume(st, f.cmp(token.EQL, x, f.null()), false)
		f.assume(st, f.cmp(token.EQL, x, x), true)
		for _, y := range objs[:i] {
			f.assume(st, f.cmp(token.EQL, x, y), false)
		}
	}
	return objs
}

// scoreAt is the score the table's entry leads to.
func (a *answers) scoreAt(st *fst, v *fv) *fv {
	if v = bareTerm(v); v == nil {
		return nil
	}
	if v = bareTerm(st.heap[a.field(v, a.r.dictT, a.r.deVal)]); v == nil {
		return nil
	}
	if v.op == "faddr" || v.op == "obj" {
		return st.heap[v]
	}
	return v
}

func (a *answers) readZset(st *fst, k, o *fv, c *acont) (*fv, bool) {
	r := a.r
	m, x := st.heap[a.field(o, r.zsetT, r.zsMap)], st.heap[a.field(o, r.zsetT, r.zsIdx)]
	if m == nil || m.op != "smap" || x == nil {
		return nil, false
	}
	mg := a.gomap(m)
	for _, e := range a.mems {
		b, ok := a.flag(st, a.cIn(mg, e))
		if !ok {
			return nil, false
		}
		c.in[e] = b
		in, _ := a.flag(st, a.zin(x, e))
		a.c.obl()
		at := a.c.p.pos(a.fn.Pos())
		if in != b {
			a.bad(aTwice, at, "%s: %s is in the %s only%s", a.what, e.s, map[bool]string{true: "table", false: "ordered index"}[b], path(st))
			return nil, false
		}
		if !b {
			continue
		}
		if c.val[e] = a.scoreAt(st, st.heap[a.cAt(mg, e)]); c.val[e] == nil {
			return nil, false
		}
		if s := st.heap[a.field(st.heap[a.znode(x, e)], r.znodeT, r.znScore)]; s == nil || !a.same(st, s, c.val[e]) {
			if s == nil || !plain(s) || !plain(c.val[e]) {
				return nil, false
			}
			a.bad(aTwice, at, "%s: the score of %s is %s in the table and %s in the ordered index%s", a.what, e.s, clean(c.val[e]), clean(s), path(st))
			return nil, false
		}
	}
	c.rest = a.rest(st, mg)
	n := st.heap[a.zlength(x)]
	if n == nil {
		n = a.f.num(0)
	}
	return n, true
}

// zcall stands for the functions of the ordered index.
func (a *answers) zcall(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
	f, r := a.f, a.r
	sig := in.Common().Signature()
	boolT, intT := types.Typ[types.Bool], types.Typ[types.Int]
	switch name {
	case "math.IsNaN":
		return one(st, f.mk("isnan", "", boolT, args[0])), true
	case "strconv.ParseFloat":
		v := bareTerm(args[0])
		if w, ok := args[1].int(); v.op != "numtext" || !ok || w != 64 {
			return nil, false
		}
		q := st.clone()
		q.m["a:badnum"] = "1"
		f.assume(st, f.cmp(token.EQL, v.a[0], v.a[0]), true)
		return []fout{{st, f.tup(v.a[0], f.null())}, {q, f.tup(f.zero(types.Typ[types.Float64]), f.mk("err", "float", nil, v))}}, true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if args[0].op == "numtext" {
			return one(st, args[0]), true
		}
		return nil, false
	case "strings.EqualFold":
		if args[0].op == "numtext" || args[1].op == "numtext" {
			return one(st, f.cmp(token.EQL, args[0], args[1])), true
		}
		return nil, false
	}
	g := in.Common().StaticCallee()
	if g == nil || !f.inModule(g) {
		return nil, false
	}
	if len(g.Params) == 0 && sig.Results().Len() == 1 && ptrTo(sig.Results().At(0).Type(), r.zslT) {
		o := f.newObj(st, in, "index", sig.Results().At(0).Type())
		for _, e := range a.mems {
			st.heap[a.zin(o, e)] = f.bool(false)
		}
		st.heap[a.zlength(o)] = f.num(0)
		return one(st, o), true
	}
	if !r.isZslMethod(g) {
		return nil, false
	}
	x := args[0]
	var scores, texts []*fv
	for i, p := range g.Params[1:] {
		switch {
		case isBasic(p.Type(), types.IsFloat):
			scores = append(scores, args[i+1])
		case isBasic(p.Type(), types.IsString):
			texts = append(texts, bareTerm(args[i+1]))
		}
	}
	lost := func() ([]fout, bool) {
		st.m["a:vague"] = "1"
		a.vague("at %s the ordered index is changed in a way that is not known", f.pos(in))
		return one(st, f.results(st, in, sig, args)), true
	}
	op := g.Name()
	if r.pureZsl(g) {
		if op == "rank" && len(scores) == 1 && len(texts) == 1 {
			return one(st, f.mk("zrank", "", sig.Results().At(0).Type(), x, scores[0], texts[0])), true
		}
		return one(st, f.results(st, in, sig, args)), true
	}
	if len(texts) != 1 || !a.named(texts[0]) || sig.Results().Len() > 1 || x == nil {
		return lost()
	}
	e := texts[0]
	there, _ := a.flag(st, a.zin(x, e))
	resized := func(st *fst, d int64) {
		n := st.heap[a.zlength(x)]
		if n == nil {
			n = f.num(0)
		}
		st.heap[a.zlength(x)] = f.sum(token.ADD, n, f.num(d), intT)
	}
	node := func(st *fst, s *fv) *fv {
		n := f.newObj(st, in, "node", types.NewPointer(r.znodeT))
		st.heap[a.field(n, r.znodeT, r.znVal)] = e
		st.heap[a.field(n, r.znodeT, r.znScore)] = s
		st.heap[a.zin(x, e)] = f.bool(true)
		st.heap[a.znode(x, e)] = n
		return n
	}
	// found: the states in which the node with this score is there, or not.
	found := func(then, not func(st *fst) *fv) []fout {
		if !there {
			return one(st, not(st))
		}
		n := st.heap[a.znode(x, e)]
		s := st.heap[a.field(n, r.znodeT, r.znScore)]
		if s == nil {
			st.m["a:vague"] = "1"
			return one(st, not(st))
		}
		if b, ok := a.equal(st, s, scores[0]); ok {
			if b {
				return one(st, then(st))
			}
			return one(st, not(st))
		}
		q := st.clone()
		eq := f.cmp(token.EQL, s, scores[0])
		f.assume(st, eq, true)
		f.assume(q, eq, false)
		return []fout{{st, then(st)}, {q, not(q)}}
	}
	isInt := sig.Results().Len() == 1 && isBasic(sig.Results().At(0).Type(), types.IsInteger)
	isBool := sig.Results().Len() == 1 && isBasic(sig.Results().At(0).Type(), types.IsBoolean)
	yes := func(b bool) *fv {
		switch {
		case isInt && b:
			return f.num(1)
		case isInt:
			return f.num(0)
		case isBool:
			return f.bool(b)
		}
		return nil
	}
	switch {
	case op == "insert" && len(scores) == 1 && sig.Results().Len() == 1 && ptrTo(sig.Results().At(0).Type(), r.znodeT):
		if there {
			a.bad(aTwice, f.pos(in), "%s: %s is put into the ordered index twice%s", a.what, e.s, path(st))
		}
		resized(st, 1)
		return one(st, node(st, scores[0])), true
	case op == "delete" && len(scores) == 1 && (sig.Results().Len() == 0 || isInt || isBool):
		return found(func(st *fst) *fv {
			n := st.heap[a.znode(x, e)]
			st.heap[a.zin(x, e)] = f.bool(false)
			resized(st, -1)
			for i, p := range g.Params[1:] {
				if q, ok := p.Type().(*types.Pointer); ok && ptrTo(q.Elem(), r.znodeT) && !args[i+1].isNil() {
					st.heap[args[i+1]] = n
				}
			}
			return yes(true)
		}, func(*fst) *fv { return yes(false) }), true
	case op == "updateScore" && len(scores) == 2 && sig.Results().Len() == 1 && ptrTo(sig.Results().At(0).Type(), r.znodeT):
		var more []fout
		outs := found(func(st *fst) *fv {
			q := st.clone()
			more = append(more, fout{q, node(q, scores[1])})
			n := st.heap[a.znode(x, e)]
			st.heap[a.field(n, r.znodeT, r.znScore)] = scores[1]
			return n
		}, func(*fst) *fv { return f.null() })
		return append(outs, more...), true
	}
	return lost()
}

// equal: whether two scores are known to be the same, or not.
func (a *answers) equal(st *fst, x, y *fv) (bool, bool) {
	f := a.f
	if x == y {
		return true, true
	}
	if b, ok := f.truth(st, f.cmp(token.EQL, x, y)); ok {
		return b, true
	}
	lt, ok1 := f.truth(st, f.cmp(token.LSS, x, y))
	gt, ok2 := f.truth(st, f.cmp(token.LSS, y, x))
	if ok1 && lt || ok2 && gt {
		return false, true
	}
	if ok1 && ok2 {
		return true, true
	}
	return false, false
}

// zadd puts one member in; how often a score may have changed is counted from lo to hi.
func (a *answers) zadd(st *fst, w *aworld, k, e, s *fv, nx, xx, incr bool) (n, changed int, odd bool) {
	f := a.f
	if !w.has(k, e) {
		if xx {
			return 0, 0, false
		}
		c := w.put(k, "zset")
		c.in[e], c.val[e] = true, s
		return 1, 1, false
	}
	if nx {
		return 0, 0, false
	}
	old := w.keys[k].val[e]
	if incr {
		s = f.sum(token.ADD, s, old, types.Typ[types.Float64])
	}
	if b, ok := f.truth(st, f.mk("isnan", "", types.Typ[types.Bool], s)); ok && b {
		return 0, 0, !incr
	}
	b, ok := a.equal(st, s, old)
	if ok && b {
		return 0, 0, false
	}
	w.keys[k].val[e] = s
	if !ok {
		return 0, 1, false
	}
	return 1, 1, false
}

// checkZset compares what a path of a sorted-set command ends with.
func (a *answers) checkZset(cmd acmd, w *aworld, st *fst, res *fv) {
	f := a.f
	at := a.c.p.pos(a.fn.Pos())
	if res == nil || res.op != "tup" || len(res.a) != 2 {
		a.vague("the result is %s", clean(res))
		return
	}
	if st.m["a:vague"] != "" {
		return
	}
	for _, x := range a.argv { // refused, or not a number
		if x.op == "numtext" {
			if b, ok := f.truth(st, f.mk("isnan", "", types.Typ[types.Bool], x.a[0])); ok && b {
				return
			}
		}
	}
	said := len(a.said)
	aw, lens, _, ok := a.final(st, false)
	if !ok {
		if len(a.said) == said {
			a.vague("the state after %s is not known", a.what)
		}
		return
	}
	if b, ok := f.truth(st, f.cmp(token.EQL, res.a[1], f.null())); !ok || !b {
		switch {
		case !ok && res.a[1].op != "err":
			a.vague("whether %s fails is not known", a.what)
		case st.m["a:badnum"] == "":
			a.bad(aAnswer, at, "%s answers an error%s", a.what, path(st))
		}
		return
	}
	if st.m["a:badnum"] != "" {
		a.bad(aAnswer, at, "%s: a score that is not a number is not refused%s", a.what, path(st))
		return
	}
	got, ok := a.decode(st, res.a[0])
	if !ok {
		a.vague("%s answers %s", a.what, clean(res.a[0]))
		return
	}
	x := w.clone()
	k := a.argv[0]
	integer := func(v *fv) {
		a.answer(areply{kind: "int", v: v}, got, st, at)
	}
	float := func(vs ...*fv) {
		if got.kind != "bulk" {
			a.bad(aAnswer, at, "%s is not answered with a score%s", a.what, path(st))
			return
		}
		v := bareTerm(got.v)
		if v.op != "ftext" || !strings.HasSuffix(v.s, "/-1/64") {
			if plain(v) {
				a.bad(aText, at, "%s answers %s%s", a.what, clean(v), path(st))
			} else {
				a.vague("%s answers %s", a.what, clean(v))
			}
			return
		}
		for _, s := range vs {
			if b, ok := a.equal(st, v.a[0], s); ok && b {
				return
			}
		}
		if !plain(v) {
			a.vague("%s answers %s", a.what, clean(v))
			return
		}
		a.bad(aText, at, "%s answers %s, but %s is due%s", a.what, clean(v), clean(vs[0]), path(st))
	}
	switch a.name {
	case "zadd":
		nx, xx, incr := false, false, false
		lo, hi := 0, 0
		for i := 1; i+1 < len(a.argv); {
			if t, ok := a.argv[i].text(); ok {
				nx, xx, incr = nx || strings.EqualFold(t, "nx"), xx || strings.EqualFold(t, "xx"), incr || strings.EqualFold(t, "incr")
				i++
				continue
			}
			l, h, odd := a.zadd(st, x, k, a.argv[i+1], a.argv[i].a[0], nx, xx, incr)
			if odd {
				return
			}
			lo, hi = lo+l, hi+h
			i += 2
		}
		if lo < hi { // it never found out whether the score is another one
			if n, ok := bareTerm(got.v).int(); ok && (n < int64(lo) || n > int64(hi)) {
				integer(f.num(int64(hi)))
			}
			break
		}
		integer(f.num(int64(hi)))
	case "zincr":
		e, s := a.argv[2], a.argv[1].a[0]
		var old *fv
		if w.has(k, e) {
			old = w.keys[k].val[e]
		}
		a.zadd(st, x, k, e, s, false, false, true)
		if v := x.keys[k].val[e]; old != nil && v == old {
			float(old, f.sum(token.ADD, s, old, types.Typ[types.Float64]))
		} else {
			float(v)
		}
	case "zrem":
		n := int64(0)
		for _, e := range a.argv[1:] {
			if x.has(k, e) {
				x.keys[k].in[e] = false
				n++
			}
		}
		x.tidy(k)
		integer(f.num(n))
	case "zscore", "zrank":
		e := a.argv[1]
		switch {
		case !w.has(k, e):
			a.answer(areply{kind: "nil"}, got, st, at)
		case a.name == "zscore":
			float(w.keys[k].val[e])
		case got.kind != "int":
			a.bad(aAnswer, at, "%s is not answered with a rank%s", a.what, path(st))
		}
	case "zcard":
		if c := w.keys[k]; c == nil {
			integer(f.num(0))
		} else if c.rest {
			integer(a.sym("length of "+k.s, types.Typ[types.Int]))
		} else {
			integer(f.num(c.size()))
		}
	}
	a.state(k, w.keys[k], x.keys[k], aw.keys[k], lens[k], false, st, at)
	if c, d := x.keys[k], aw.keys[k]; c != nil && d != nil {
		for _, e := range a.mems {
			if c.in[e] && d.in[e] && !a.same(st, d.val[e], c.val[e]) {
				if b, ok := a.equal(st, d.val[e], c.val[e]); ok && b {
					continue
				}
				if !plain(d.val[e]) {
					a.vague("%s: the score of %s is %s", a.what, e.s, clean(d.val[e]))
					continue
				}
				a.bad(aScore, at, "%s: the score of %s is %s afterwards, but %s is due%s", a.what, e.s, clean(d.val[e]), clean(c.val[e]), path(st))
			}
		}
	}
}
