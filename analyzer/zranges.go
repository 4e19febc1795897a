package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: index ranges and pops answer the elements at the positions asked for. What the commands call is
// interpreted on an arbitrary index in which a node is known by its position; the elements put into the
// answer are counted, and each must be the one at the position that is due, for every case of the
// offsets against the number of elements.

const (
	zDue   = "an index range is answered with the elements at its positions"
	zScore = "an element is answered with its own score, if scores are asked for"
)

type zranges struct {
	*zindex
	rev, pop bool
	rank     bool
	pkg      *ssa.Package // of the index
	vals     *fv          // the arguments
	argv     []*fv
	member   *fv
	from, to *fv // the offsets, or the number of elements
	scores   int64
	name     string
	len0     *fv
	skip     int
	cs       *zcase
	asked    bool // for the scores
}

func rankedIndex(c *ctx) {
	z := &zindex{c: c, id: "C27", said: map[string]bool{}, seen: map[string]int{}}
	z.only = map[string]bool{zSteps: true, zElem: true, zRank: true, zNodes: true}
	z.analyse()
	zpositions(c)
}

func zpositions(c *ctx) {
	z0 := &zindex{c: c, id: "C27", said: map[string]bool{}, seen: map[string]int{}}
	if !z0.schema() {
		c.undecided("ordered index not found")
		return
	}
	regs, _ := c.p.registrations()
	done := 0
	for _, r := range regs {
		z := &zranges{zindex: &zindex{c: c, id: "C27", said: map[string]bool{}, seen: map[string]int{}, pass: 3}, name: r.name}
		switch r.name {
		case "zrange":
		case "zrevrange":
			z.rev = true
		case "zpopmin":
			z.pop = true
		case "zpopmax":
			z.rev, z.pop = true, true
		case "zrank":
			z.rank = true
		default:
			continue
		}
		done++
		z.schema()
		z.run(r.fn)
		for _, x := range z.kept {
			c.bad(x.rule, x.pos, "%s", x.msg)
		}
		for k, n := range z.seen {
			c.count(k, n)
		}
	}
	c.count("commands that answer by position", done)
	if done == 0 {
		c.undecided("no command that answers by position found")
	}
}

func (z *zranges) cell(s string) *fv { return z.f.mk("ghost", s, types.Typ[types.Int]) }

// command is a way to call: the arguments after the key, and whether scores are asked for.
type zway struct {
	args  []*fv
	asked bool
}

func (z *zranges) run(fn *ssa.Function) {
	f := newFlow(z.c)
	z.f, z.root, z.cfg = f, fn, z.name
	f.linear, f.monotone = true, true
	f.stable = func(*fv) bool { return true }
	f.spread = map[string]bool{"at": true, "zval": true, "zscore": true, "ztext": true}
	f.onCall, f.onLoad, f.onAppend, f.onIf, f.onInv = z.onCall, z.onLoad, z.onAppend, z.onIf, z.onInv
	defer func() {
		z.seen["abstract steps"] += f.steps
		for _, s := range uniq(f.stuck) {
			z.vague("%s: %s", z.name, s)
		}
		if x := recover(); x != nil {
			s, ok := x.(flowStop)
			if !ok {
				panic(x)
			}
			z.vague("%s: %s", z.name, s.why)
		}
	}()
	for _, g := range z.c.p.Funcs {
		if g.Signature.Recv() != nil && z.isList(g.Signature.Recv().Type()) {
			z.pkg = g.Pkg
		}
	}
	if len(fn.Params) != 1 || fstructOf2(fn.Params[0].Type()) == nil {
		z.c.undecided("%s: the command's arguments were not found", z.name)
		return
	}
	str, intT := types.Typ[types.String], types.Typ[types.Int]
	num := func(n string) (*fv, *fv) {
		v := f.mk("sym", n, intT)
		return v, f.mk("numtext", "", str, v)
	}
	key := f.mk("sym", "key", str)
	z.len0 = f.mk("sym", "number of elements", intT)
	z.member = f.mk("sym", "member", str)
	x, xt := num("start")
	y, yt := num("stop")
	c, ct := num("count")
	word := func(s string) *fv { return f.con(constant.MakeString(s)) }
	var ways []zway
	switch {
	case z.rank:
		ways = []zway{{[]*fv{key, z.member}, false}}
	case z.pop:
		ways = []zway{{[]*fv{key}, true}, {[]*fv{key, ct}, true}}
	default:
		z.from, z.to = x, y
		ways = []zway{{[]*fv{key, xt, yt}, false}, {[]*fv{key, xt, yt, word("withscores")}, true}, {[]*fv{key, xt, yt, word("WITHSCORES")}, true}}
	}
	for _, w := range ways {
		if z.pop {
			z.to = f.num(1)
			if len(w.args) > 1 {
				z.to = c
			}
		}
		z.asked, z.argv = w.asked, w.args
		base := newFst()
		z.vals = f.mk("obj", "the arguments", fn.Params[0].Type())
		base.heap[f.mk("lenof", "", nil, z.vals)] = f.num(int64(len(w.args)))
		base.heap[z.cell("count")] = f.num(0)
		base.heap[z.cell("lo")] = f.num(0)
		base.heap[z.cell("gone")] = f.num(0)
		base.heap[z.lenAddr()] = z.len0
		base.heap[z.cell("list")] = f.null()
		base.heap[z.cell("last")] = f.num(0)
		z.le(base, f.num(1), z.len0) // what is stored is not empty (C16)
		for _, c := range z.cases(base) {
			c := c
			z.cs, z.zsl = &c, nil
			outs := f.exec(c.st, fn, []*fv{f.mk("sym", "command", fn.Params[0].Type())}, nil)
			for _, o := range outs {
				switch {
				case z.impossible(o.st):
				case o.st.panic != "":
					z.obl()
					z.bad(zDue, z.c.p.pos(fn.Pos()), "%s: with %s, no answer is given: %s%s", z.name, c.what, o.st.panic, path(o.st))
				default:
					z.finish(o.st, o.res)
				}
			}
			z.seen["ways to answer by position"] += len(outs)
			z.seen["cases of the offsets"]++
		}
	}
	if z.skip == 0 && !z.rank && z.seen["elements answered by position"] == 0 {
		z.vague("%s: no element is answered", z.name)
	}
}

func (z *zranges) at(p *fv) *fv { return z.f.mk("at", "", nil, z.strip(p)) }

func (z *zranges) impossible(st *fst) bool { return st.m["z:dead"] != "" || z.zindex.impossible(st) }

// size of the index now, and position of its last node.
func (z *zranges) size(st *fst) *fv {
	if v := st.heap[z.lenAddr()]; v != nil {
		return v
	}
	return z.len0
}

func (z *zranges) lenAddr() *fv { return z.cell("length") }

func (z *zranges) hi(st *fst) *fv {
	return z.f.sum(token.ADD, st.heap[z.cell("lo")], z.size(st), types.Typ[types.Int])
}

func (z *zranges) le(st *fst, x, y *fv) { // x <= y
	z.f.assume(st, z.f.cmp(token.LSS, y, x), false)
}

func (z *zranges) onCall(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
	f := z.f
	g := in.Common().StaticCallee()
	sig := in.Common().Signature()
	switch {
	case name == "strconv.Atoi" || name == "strconv.ParseInt":
		if args[0].op != "numtext" {
			return nil, false
		}
		v := args[0].a[0]
		if name == "strconv.ParseInt" {
			b, ok1 := args[1].int()
			w, ok2 := args[2].int()
			if !ok1 || !ok2 || b != 10 || w != 64 && w != 0 {
				return nil, false
			}
		}
		return one(st, f.tup(v, f.null())), true
	case name == "strings.ToLower" || name == "strings.ToUpper":
		if s, ok := args[0].text(); ok {
			if name == "strings.ToLower" {
				s = strings.ToLower(s)
			} else {
				s = strings.ToUpper(s)
			}
			return one(st, f.con(constant.MakeString(s))), true
		}
		if args[0].op == "numtext" {
			return one(st, args[0]), true
		}
		return nil, false
	case name == "strings.EqualFold":
		s, ok1 := args[0].text()
		t, ok2 := args[1].text()
		switch {
		case ok1 && ok2:
			return one(st, f.bool(strings.EqualFold(s, t))), true
		case args[0].op == "numtext" || args[1].op == "numtext":
			return one(st, f.cmp(token.EQL, args[0], args[1])), true
		}
		return nil, false
	case name == "strconv.FormatFloat":
		return one(st, f.tup(f.mk("ztext", "", types.Typ[types.String], args[0]))), true
	case g == nil || !f.inModule(g):
		return nil, false
	}
	// the value of the key
	if sig.Results().Len() == 2 {
		if p, ok := sig.Results().At(0).Type().(*types.Pointer); ok {
			if s, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if !z.isList(s.Field(i).Type()) {
						continue
					}
					q := st.clone()
					zs := f.mk("sym", "sorted set", sig.Results().At(0).Type())
					z.zsl = f.load(st, in, f.faddr(zs, s, i), s.Field(i).Type())
					f.assume(st, f.cmp(token.EQL, zs, f.null()), false)
					f.assume(st, f.cmp(token.EQL, z.zsl, f.null()), false)
					q.m["z:nokey"] = "1"
					return []fout{{st, f.tup(zs, f.null())}, {q, f.tup(f.null(), f.mk("err", "key", nil))}}, true
				}
			}
		}
	}
	if g.Signature.Recv() != nil && z.isList(g.Signature.Recv().Type()) {
		floats, texts := 0, 0
		for _, p := range g.Params[1:] {
			if isBasic(p.Type(), types.IsFloat) {
				floats++
			}
			if isBasic(p.Type(), types.IsString) {
				texts++
			}
		}
		switch {
		case floats >= 2:
			st.m["z:skip"] = "1"
			z.skip++
			return one(st, f.results(st, in, sig, args)), true
		case z.ranked(g):
			return z.find(st, in, z.strip(args[z.rankParam(g)])), true
		case floats == 1 && texts == 1 && z.rank && sig.Results().Len() == 1:
			return one(st, z.rankOf(st, in, args)), true
		case z.alters(g, map[*ssa.Function]bool{}):
			return z.remove(st, in, args), true
		}
	}
	// what the table says of a member that is in the index
	if g.Signature.Recv() != nil && g.Pkg != z.pkg && len(args) == 2 && sig.Results().Len() == 2 && isBasic(g.Params[1].Type(), types.IsString) && isBasic(sig.Results().At(1).Type(), types.IsBoolean) {
		k := args[1]
		for k.op == "iface" || k.op == "conv" {
			k = k.a[0]
		}
		res := f.results(st, in, sig, args)
		if k == z.member && k != nil && z.rank && res.op == "tup" {
			var rs []*fv
			q := st.clone()
			q.m["z:nokey"] = "1" // no such member
			for _, r := range res.a {
				if isBasic(r.t, types.IsBoolean) {
					f.assume(st, r, true)
					f.assume(q, r, false)
				} else {
					r = f.mk("entry", "", r.t, k)
					f.assume(st, f.cmp(token.EQL, r, f.null()), false)
				}
				rs = append(rs, r)
			}
			return []fout{{st, f.tup(rs...)}, {q, res}}, true
		}
		if k.op == "zval" && res.op == "tup" {
			var rs []*fv
			for _, r := range res.a {
				if isBasic(r.t, types.IsBoolean) {
					f.assume(st, r, true)
				} else {
					r = f.mk("entry", "", r.t, k)
					f.assume(st, f.cmp(token.EQL, r, f.null()), false)
				}
				rs = append(rs, r)
			}
			res = f.tup(rs...)
		}
		return one(st, res), true
	}
	for _, p := range g.Params {
		if z.isList(p.Type()) || z.isNode(p.Type()) {
			return nil, false
		}
	}
	if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), z.root.Signature.Results().At(0).Type()) && g.Pkg != z.pkg && g.Pkg != z.root.Pkg {
		return one(st, z.reply(st, in, g, args)), true
	}
	if g.Pkg != z.root.Pkg && g.Pkg != z.pkg {
		return one(st, f.results(st, in, sig, args)), true
	}
	return nil, false
}

// reply is a step of making the answer.
func (z *zranges) reply(st *fst, in ssa.CallInstruction, g *ssa.Function, args []*fv) *fv {
	f := z.f
	var parts []*fv
	for i, a := range args {
		switch {
		case a == nil || i < len(g.Params) && noContent(g.Params[i].Type()):
		case a.op == "reply":
			parts = append(parts, a.a...)
		default:
			parts = append(parts, z.strip(a))
		}
	}
	return f.mk("reply", g.Name(), in.Common().Signature().Results().At(0).Type(), parts...)
}

// noContent: options of a reply.
func noContent(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	return isBasic(t, types.IsBoolean)
}

// rankOf is the lookup of the rank of a member.
func (z *zranges) rankOf(st *fst, in ssa.CallInstruction, args []*fv) *fv {
	f := z.f
	z.obl()
	r := f.mk("sym", "rank of the member", in.Common().Signature().Results().At(0).Type())
	z.le(st, f.num(1), r)
	z.le(st, r, z.len0)
	for _, a := range args[1:] {
		switch {
		case isBasic(a.t, types.IsString) && a != z.member:
			if a.op == "sym" || a.op == "const" {
				z.bad(zDue, f.pos(in), "%s: the rank of another than the member is looked up: %s%s", z.name, clean(a), path(st))
			}
			st.m["z:skip"] = "1"
		case isBasic(a.t, types.IsFloat) && !uses(a, "entry"):
			if a.op == "const" {
				z.bad(zDue, f.pos(in), "%s: the rank is looked up with score %s, not with the member's own%s", z.name, clean(a), path(st))
			}
			z.vague("%s: at %s the rank is looked up with score %s", z.name, f.pos(in), clean(a))
			st.m["z:skip"] = "1"
		}
	}
	return r
}

// alters: an index or its nodes are written, directly or in what is called.
func (z *zranges) alters(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if g == nil || seen[g] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			switch a := st.Addr.(type) {
			case *ssa.FieldAddr:
				if o := fstructOf2(a.X.Type()); o != nil && (o == z.list || o == z.node || o == z.lev) {
					return true
				}
			case *ssa.IndexAddr:
				if z.lev != nil && fstructOf2(a.Type()) == z.lev {
					return true
				}
			}
		}
	}
	for _, c := range staticCallees(g) {
		if z.alters(c, seen) {
			return true
		}
	}
	return false
}

// find is the lookup of the node at a position of the index as it is now.
func (z *zranges) find(st *fst, in ssa.CallInstruction, r *fv) []fout {
	f := z.f
	var outs []fout
	n := z.size(st)
	p := f.sum(token.ADD, st.heap[z.cell("lo")], r, types.Typ[types.Int])
	if !f.entails(st, f.num(1), r, 0) {
		q := st.clone()
		z.le(q, r, f.num(0))
		if !z.impossible(q) {
			h := f.mk("start", "", in.Common().Signature().Results().At(0).Type())
			f.assume(q, f.cmp(token.EQL, h, f.null()), false)
			outs = append(outs, fout{q, f.tup(h)})
		}
		z.le(st, f.num(1), r)
	}
	if !f.entails(st, r, n, 0) {
		q := st.clone()
		f.assume(q, f.cmp(token.LSS, n, r), true)
		if !z.impossible(q) {
			outs = append(outs, fout{q, f.tup(f.null())})
		}
		z.le(st, r, n)
	}
	if !z.impossible(st) {
		v := z.at(p)
		f.assume(st, f.cmp(token.EQL, v, f.null()), false)
		outs = append(outs, fout{st, f.tup(v)})
	}
	return outs
}

// remove takes out the first or the last node.
func (z *zranges) remove(st *fst, in ssa.CallInstruction, args []*fv) []fout {
	f := z.f
	var n *fv
	for _, a := range args {
		x := a
		switch {
		case (a.op == "zval" || a.op == "zscore") && a.a[0].op == "at":
			x = a.a[0]
		case a.op != "at":
			continue
		}
		if n == nil {
			n = x
		} else if n != x {
			n = f.null()
		}
	}
	z.obl()
	res := one(st, f.results(st, in, in.Common().Signature(), args))
	if n == nil || n.isNil() {
		z.vague("%s: at %s the index is changed in a way that is not known", z.name, f.pos(in))
		st.m["z:skip"] = "1"
		z.skip++
		return res
	}
	b := z.bare(st)
	lo := st.heap[z.cell("lo")]
	one := f.num(1)
	intT := types.Typ[types.Int]
	switch {
	case !z.rev && z.equal(b, n.a[0], f.sum(token.ADD, lo, one, intT)):
		st.heap[z.cell("lo")] = f.sum(token.ADD, lo, one, intT)
	case z.rev && z.equal(b, n.a[0], z.hi(st)):
	default:
		end := "first"
		if z.rev {
			end = "last"
		}
		z.bad(zDue, f.pos(in), "%s: the element removed is not the %s one%s", z.name, end, path(st))
		st.m["z:skip"] = "1"
	}
	st.heap[z.lenAddr()] = f.sum(token.SUB, z.size(st), one, intT)
	st.heap[z.cell("gone")] = f.sum(token.ADD, z.ghost(st, "gone"), one, intT)
	return res
}

func (z *zranges) ghost(st *fst, s string) *fv {
	if v := st.heap[z.cell(s)]; v != nil {
		return v
	}
	return z.f.num(0)
}

func (z *zranges) onLoad(st *fst, in ssa.Instruction, addr *fv) *fv {
	f := z.f
	intT := types.Typ[types.Int]
	switch {
	case addr.op == "faddr" && addr.a[0].op == "sym" && addr.a[0].s == "command" && isStrings(addr.t):
		return z.vals
	case addr.op == "iaddr" && addr.a[0] == z.vals && z.vals != nil:
		if k, ok := addr.a[1].int(); ok && k >= 0 && k < int64(len(z.argv)) {
			return z.argv[k]
		}
		return nil
	case addr.op == "faddr" && addr.own == z.list:
		switch addr.s {
		case z.fHead:
			h := f.mk("start", "", addr.t)
			f.assume(st, f.cmp(token.EQL, h, f.null()), false)
			return h
		case z.fLength():
			return z.size(st)
		case z.fTail():
			return z.at(z.hi(st))
		}
	case addr.op == "faddr" && addr.own == z.node && addr.a[0].op == "start" && addr.s == z.fLevels:
		return f.mk("levels", "", addr.t, addr.a[0])
	case addr.op == "faddr" && addr.own == z.node && addr.a[0].op == "at":
		n := addr.a[0]
		switch addr.s {
		case z.fScore:
			return f.mk("zscore", "", addr.t, n)
		case z.fValue:
			return f.mk("zval", "", addr.t, n)
		case z.fLevels:
			return f.mk("levels", "", addr.t, n)
		case z.backField():
			return z.at(f.sum(token.SUB, n.a[0], f.num(1), intT))
		}
	case addr.op == "iaddr" && addr.a[0].op == "levels":
		return f.mk("lv", "", addr.t, addr.a[0].a[0], addr.a[1])
	case addr.op == "faddr" && addr.own == z.lev:
		n, i := z.record(addr.a[0])
		if n == nil || n.op != "at" && n.op != "start" {
			return nil
		}
		if k, ok := i.int(); n.op == "start" {
			if ok && k == 0 && addr.s == z.fFwd {
				return z.at(f.sum(token.ADD, st.heap[z.cell("lo")], f.num(1), intT))
			}
			return nil
		}
		if k, ok := i.int(); ok && k == 0 && addr.s == z.fFwd {
			return z.at(f.sum(token.ADD, n.a[0], f.num(1), intT))
		}
		return f.mk("far", addr.s, addr.t, n, i)
	}
	return nil
}

// onIf: a node is there if its position is one.
func (z *zranges) onIf(st *fst, in *ssa.If, cond *fv, to bool) {
	f := z.f
	if l := st.heap[z.cell("list")]; l != nil && !l.isNil() && st.m["z:wait"] != "1" {
		// each element was added with its score, or each without
		if x := f.length(st, l); usesTerm(cond, x) {
			n := z.ghost(st, "count")
			k := n
			if st.m["z:scored"] == "1" {
				k = f.sum(token.ADD, n, n, types.Typ[types.Int])
			}
			f.assume(st, f.cmp(token.EQL, x, k), true)
		}
	}
	if z.zindex.impossible(st) {
		st.m["z:dead"] = "1"
	}
	c, pos := f.norm(cond)
	if c.op != "eq" {
		return
	}
	var n *fv
	for i := 0; i < 2; i++ {
		if c.a[i].isNil() && c.a[1-i].op == "at" {
			n = c.a[1-i]
		}
		if c.a[i].isNil() && uses(c.a[1-i], "entry") && to == pos {
			st.m["z:dead"] = "1" // cannot be: the table has it
		}
	}
	if n == nil || z.zsl == nil {
		return
	}
	p, one := n.a[0], f.num(1)
	defer func() {
		if b, ok := f.cmp(token.LSS, p, one).boolean(); ok && !b && to == pos && f.entails(st, p, z.hi(st), 0) {
			st.m["z:dead"] = "1" // cannot be
		}
	}()
	switch {
	case to != pos: // there
		z.le(st, one, p)
		z.le(st, p, z.hi(st))
	case f.entails(st, p, z.hi(st), 0):
		f.assume(st, f.cmp(token.LSS, p, one), true)
	case f.entails(st, one, p, 0):
		f.assume(st, f.cmp(token.LSS, z.hi(st), p), true)
	}
}

func usesTerm(v, x *fv) bool {
	if v == x {
		return true
	}
	for _, a := range v.a {
		if a != nil && usesTerm(a, x) {
			return true
		}
	}
	return false
}

func isStrings(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isBasic(s.Elem(), types.IsString)
}

type zcase struct {
	st       *fst
	what     string
	start, n *fv // offset of the first element, number of elements
}

// cases are the ways the offsets can lie that are possible on the path.
func (z *zranges) cases(st *fst) []zcase {
	f := z.f
	intT := types.Typ[types.Int]
	plus := func(x, y *fv) *fv { return f.sum(token.ADD, x, y, intT) }
	minus := func(x, y *fv) *fv { return f.sum(token.SUB, x, y, intT) }
	zero, one, L := f.num(0), f.num(1), z.len0
	type cond struct {
		x, y *fv // x <= y
	}
	type alt struct {
		cs   []cond
		v    *fv
		what string
	}
	lt := func(x, y *fv) cond { return cond{plus(x, one), y} }
	var r []zcase
	try := func(what string, start, n *fv, cs ...cond) {
		q := st.clone()
		for _, c := range cs {
			z.le(q, c.x, c.y)
			if b, ok := f.cmp(token.LSS, c.y, c.x).boolean(); ok && b {
				return
			}
		}
		if !z.impossible(q) {
			r = append(r, zcase{q, what, start, n})
		}
	}
	if z.rank {
		return []zcase{{st.clone(), "a member", zero, zero}}
	}
	if z.pop {
		c := z.to
		try("none asked for", zero, zero, cond{c, zero})
		try("no more asked for than there are", zero, c, cond{one, c}, cond{c, L})
		try("more asked for than there are", zero, L, lt(L, c), cond{one, c})
		return r
	}
	s, t := z.from, z.to
	starts := []alt{
		{[]cond{{zero, s}}, s, "start >= 0"},
		{[]cond{lt(s, zero), {zero, plus(s, L)}}, plus(s, L), "start from the end"},
		{[]cond{lt(s, zero), lt(plus(s, L), zero)}, zero, "start before the first"},
	}
	stops := []alt{
		{[]cond{{zero, t}, lt(t, L)}, t, "stop >= 0"},
		{[]cond{{zero, t}, {L, t}}, minus(L, one), "stop past the last"},
		{[]cond{lt(t, zero)}, plus(t, L), "stop from the end"},
	}
	for _, a := range starts {
		for _, b := range stops {
			cs := append(append([]cond(nil), a.cs...), b.cs...)
			in := append(append([]cond(nil), cs...), cond{a.v, b.v}, lt(a.v, L))
			try(a.what+", "+b.what, a.v, plus(minus(b.v, a.v), one), in...)
			try(a.what+", "+b.what+", stop before start", a.v, zero, append(append([]cond(nil), cs...), lt(b.v, a.v))...)
			try(a.what+", "+b.what+", start past the last", a.v, zero, append(append([]cond(nil), cs...), cond{L, a.v})...)
		}
	}
	return r
}

func (z *zranges) onAppend(st *fst, in ssa.Instruction, a *fv, elems []*fv, b, res *fv) {
	f := z.f
	mine := false
	for _, e := range elems {
		mine = mine || uses(e, "at") || uses(e, "start")
	}
	if t := z.cell("list"); st.heap[t] != nil && (a == st.heap[t] && !a.isNil() || mine && (a.isNil() || a.op == "obj" || f.length(st, a) == f.num(0))) {
		if a != st.heap[t] && !st.heap[t].isNil() && z.known(st, "count") {
			if !a.isNil() && f.length(st, a) != f.num(0) {
				z.vague("%s: the elements are answered in several parts", z.name)
			}
			st.m["z:again"] = f.pos(in)
		}
		st.heap[t] = res
	} else if mine {
		z.vague("%s: at %s elements are collected in a way that is not followed", z.name, f.pos(in))
		st.m["z:skip"] = "1"
		return
	} else {
		return
	}
	if len(elems) == 0 {
		z.vague("%s: at %s elements are collected in a way that is not followed", z.name, f.pos(in))
		st.m["z:skip"] = "1"
		return
	}
	for _, e := range elems {
		z.element(st, in, e)
	}
}

func (z *zranges) known(st *fst, s string) bool {
	k, ok := z.ghost(st, s).int()
	return !ok || k != 0
}

// element judges what is put into the answer.
func (z *zranges) element(st *fst, in ssa.Instruction, e *fv) {
	f := z.f
	intT := types.Typ[types.Int]
	if z.impossible(st) || st.m["z:skip"] != "" {
		return
	}
	z.obl()
	pos := f.pos(in)
	switch {
	case e.op == "zval" && e.a[0].op == "at":
		z.seen["elements answered by position"]++
		p, n := e.a[0].a[0], z.ghost(st, "count")
		if st.m["z:wait"] == "1" {
			st.m["z:bare"] = "1"
		}
		st.m["z:wait"] = "1"
		c, b := z.cs, z.bare(st)
		{
			due := f.sum(token.ADD, f.sum(token.ADD, c.start, n, intT), f.num(1), intT)
			if z.rev {
				due = f.sum(token.SUB, f.sum(token.SUB, z.len0, c.start, intT), n, intT)
			}
			if !z.equal(b, p, due) {
				z.judge(pos, "%s: with %s, an element is answered from position %s, but %s is due%s", p, z.name, c.what, clean(p), clean(due), path(st))
			} else if !f.entails(b, f.sum(token.ADD, n, f.num(1), intT), c.n, 0) {
				z.judge(pos, "%s: with %s, more elements may be answered than the %s that are due%s", n, z.name, c.what, clean(c.n), path(st))
			}
		}
		st.heap[z.cell("count")] = f.sum(token.ADD, n, f.num(1), intT)
		st.heap[z.cell("last")] = p
	case e.op == "ztext" && e.a[0].op == "zscore" && e.a[0].a[0].op == "at":
		p := e.a[0].a[0].a[0]
		last := st.heap[z.cell("last")]
		if st.m["z:wait"] != "1" {
			z.bad(zScore, pos, "%s: a score is answered where a member is due%s", z.name, path(st))
		} else if last == nil || !z.equal(z.bare(st), last, p) {
			z.bad(zScore, pos, "%s: the score of another element is answered%s", z.name, path(st))
		}
		st.m["z:wait"] = "0"
		st.m["z:scored"] = "1"
	case uses(e, "start"):
		z.bad(zDue, pos, "%s: position 0 is looked up%s", z.name, path(st))
	case e.op == "const" || e.op == "sym":
		z.bad(zDue, pos, "%s: %s is answered where an element is due%s", z.name, clean(e), path(st))
		st.m["z:skip"] = "1"
	default:
		z.vague("%s: at %s %s is answered", z.name, pos, clean(e))
		st.m["z:skip"] = "1"
	}
}

// judge: wrong if all that is involved is understood.
func (z *zranges) judge(pos, form string, v *fv, a ...interface{}) {
	var ok func(v *fv) bool
	ok = func(v *fv) bool {
		switch v.op {
		case "const", "sym", "phi", "atoi", "cell":
			return true
		case "sum":
			for _, x := range v.a {
				if !ok(x) {
					return false
				}
			}
			return true
		}
		return false
	}
	if ok(z.strip(v)) {
		z.bad(zDue, pos, form, a...)
	} else {
		z.vague(form, a...)
	}
}

// onInv: as many elements at most as are due.
func (z *zranges) onInv(old, now *fst, keep func(x, y, xo, yo, xn, yn *fv)) {
	try := func(c *fv, sum *fv) {
		o, n := old.heap[c], now.heap[c]
		if o == nil || n == nil {
			return
		}
		keep(c, sum, o, sum, n, sum)
	}
	try(z.cell("count"), z.cs.n)
}

// dropped: a slice leaves out elements of the list.
func (z *zranges) dropped(st *fst, x *fv) bool {
	lo, ok := x.a[1].int()
	if !ok || lo != 0 {
		return ok
	}
	if x.a[2] == nil {
		return false
	}
	d, ok := z.f.sum(token.SUB, z.f.length(st, x.a[0]), x.a[2], types.Typ[types.Int]).int()
	return ok && d > 0
}

func (z *zranges) finish(st *fst, res *fv) {
	f := z.f
	if res == nil || res.op != "tup" || len(res.a) != 2 || st.m["z:skip"] != "" {
		return
	}
	r, e := res.a[0], res.a[1]
	if st.m["z:nokey"] != "" {
		return
	}
	z.obl()
	at := z.c.p.pos(z.root.Pos())
	if b, ok := f.truth(st, f.cmp(token.EQL, e, f.null())); ok && !b {
		z.bad(zDue, at, "%s: with %s, an error is answered%s", z.name, z.cs.what, path(st))
		return
	}
	if z.zsl == nil {
		z.vague("%s: answers without looking at the index", z.name)
		return
	}
	if r.op != "reply" {
		z.vague("%s: the answer is %s", z.name, clean(r))
		return
	}
	if z.rank {
		if len(r.a) != 1 {
			z.vague("%s: the answer is %s", z.name, clean(r))
		} else if !z.equal(z.bare(st), r.a[0], f.sum(token.SUB, f.mk("sym", "rank of the member", nil), f.num(1), types.Typ[types.Int])) {
			z.judge(at, "%s: the answer is %s, but the rank counted from 0 is due%s", r.a[0], z.name, clean(r.a[0]), path(st))
		}
		return
	}
	n := z.ghost(st, "count")
	list := st.heap[z.cell("list")]
	switch {
	case len(r.a) == 0:
		n = f.num(0)
	case len(r.a) > 1:
		z.vague("%s: the answer is %s", z.name, clean(r))
		return
	case r.a[0] != list:
		x := r.a[0]
		if b, ok := f.truth(st, f.cmp(token.EQL, x, f.null())); x.isNil() || ok && b || f.length(st, x) == f.num(0) {
			n = f.num(0)
		} else if x.op == "slice" && x.a[0] == list && !list.isNil() && z.dropped(st, x) {
			z.bad(zDue, at, "%s: with %s, a part of the elements is not answered%s", z.name, z.cs.what, path(st))
			return
		} else {
			z.vague("%s: the answer is %s", z.name, clean(r))
			return
		}
	default:
		if at := st.m["z:again"]; at != "" {
			z.bad(zDue, at, "%s: the elements collected before are dropped from the answer%s", z.name, path(st))
		}
	}
	if c := z.cs; !z.equal(z.bare(st), n, c.n) {
		z.judge(at, "%s: with %s, %s elements are answered, but %s are due%s", n, z.name, c.what, clean(n), clean(c.n), path(st))
	}
	if z.pop {
		z.obl()
		if g := z.ghost(st, "gone"); !z.equal(z.bare(st), g, n) {
			z.judge(at, "%s: %s elements are answered, but %s are removed%s", g, z.name, clean(n), clean(g), path(st))
		}
	}
	// the scores
	if k, ok := n.int(); ok && k == 0 {
		return
	}
	z.obl()
	bare, scored := st.m["z:bare"] == "1" || st.m["z:wait"] == "1", st.m["z:scored"] == "1"
	switch {
	case bare && z.asked:
		z.bad(zScore, at, "%s: scores are asked for, but an element is answered without%s", z.name, path(st))
	case scored && !z.asked:
		z.bad(zScore, at, "%s: a score is answered that is not asked for%s", z.name, path(st))
	}
}
