package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// known terms: what the analysis can name exactly, so that a mismatch is a fault of the code.
func (z *zindex) named(v *fv) bool {
	if v == nil {
		return false
	}
	switch v.op {
	case "const", "nil", "sym", "obj", "hole":
		return true
	case "phi":
		return v.t != nil && isBasic(v.t, types.IsInteger)
	case "ld":
		return v == z.head() || v.t != nil && isBasic(v.t, types.IsInteger)
	case "last", "fwd", "span", "pos", "key", "sum":
		for _, a := range v.a {
			if !z.named(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (z *zindex) sameLevel(a, b *fv) bool {
	return a == b || z.f.sum(token.SUB, a, b, nil) == z.f.num(0)
}

// precedes: u is the last node before the new node's score and member on level i. 1 yes, -1 no, 0 unknown.
func (z *zindex) precedes(st *fst, u, S, V, i *fv) int {
	if u.op == "last" {
		if u.s[0] != 'A' || u.a[0] != S || u.a[1] != V {
			if z.named(u) && z.named(S) && z.named(V) {
				return -1
			}
			return 0
		}
		if z.sameLevel(u.a[2], i) {
			return 1
		}
		if z.isHead(st, u) && z.f.entails(st, z.level(), i, 0) {
			return 1
		}
		return -1
	}
	if u == z.head() {
		if z.f.entails(st, z.level(), i, 0) {
			return 1
		}
		return -1
	}
	if u.op == "fwd" && z.named(u) {
		return -1
	}
	return 0
}

func (z *zindex) store(st *fst, in ssa.Instruction, addr, v *fv) {
	if addr.op != "faddr" || z.pass != 3 {
		return
	}
	pos := z.f.pos(in)
	if st.facts[z.after()] {
		if addr.own == z.lev && addr.s == z.fFwd || addr.own == z.node && (addr.s == z.fScore || addr.s == z.fValue) {
			z.vague("%s: changes links at %s after another operation did", z.cfg, pos)
		}
		return
	}
	switch {
	case addr.own == z.lev && addr.s == z.fFwd:
		n, i := z.record(addr.a[0])
		if n == nil {
			return
		}
		if z.impossible(st) {
			return
		}
		z.link(st, pos, n, i, v)
	case addr.own == z.lev && addr.s == z.spanField():
		if n, i := z.record(addr.a[0]); n != nil && !z.impossible(st) {
			z.step(st, pos, n, i, v)
		}
	case addr.own == z.node && addr.s == z.backField():
		if !z.impossible(st) {
			z.ledBack(st, pos, addr.a[0], v)
		}
	case addr.own == z.list && addr.a[0] == z.zsl:
		if !z.impossible(st) {
			z.own(st, pos, addr.s, v)
		}
	case addr.own == z.node && (addr.s == z.fScore || addr.s == z.fValue):
		n := addr.a[0]
		if n.op == "obj" || z.impossible(st) {
			return // not linked yet
		}
		z.rekey(st, pos, n, addr.s, v)
	}
}

// link: the next node of n on level i becomes y.
func (z *zindex) link(st *fst, pos string, n, i, y *fv) {
	const rule = "a node is linked between its neighbours in the order"
	z.obl()
	z.seen["links set"]++
	judge := func(r int, form string, a ...interface{}) {
		switch {
		case r < 0:
			z.bad(rule, pos, z.cfg+": "+form+path(st), a...)
		case r == 0:
			z.vague(z.cfg+": at "+pos+": "+form, a...)
		}
	}
	keys := func(x *fv) (S, V *fv) { return z.key(st, x, z.fScore), z.key(st, x, z.fValue) }
	switch {
	case n.op == "obj":
		S, V := keys(n)
		if y.isNil() {
			return
		}
		if y.op != "fwd" {
			r := 0
			if z.named(y) {
				r = -1
			}
			judge(r, "the new node's next on level %s becomes %s, not the next of the node before it", clean(i), clean(y))
			return
		}
		z.did("link of the new node")
		r := z.precedes(st, y.a[0], S, V, i)
		if r > 0 && !z.sameLevel(y.a[1], i) {
			r = -1
		}
		judge(r, "the new node's next on level %s becomes %s, which is not what follows the last node before its score and member", clean(i), clean(y))
	case y.op == "obj":
		z.did("link to the new node")
		S, V := keys(y)
		judge(z.precedes(st, n, S, V, i), "the new node is linked on level %s after %s, which is not the last node before its score and member there", clean(i), clean(n))
	case y.op == "fwd":
		// a node is taken out: its next becomes the next of the node before it
		z.did("link past the removed node")
		gone := y.a[0]
		old := z.fwd(n, i)
		eq := old == gone
		if !eq {
			b, ok := z.f.truth(st, z.f.cmp(token.EQL, old, gone))
			eq = ok && b
		}
		switch {
		case !z.named(n) || !z.named(y):
			judge(0, "next of %s becomes %s", clean(n), clean(y))
		case !z.sameLevel(y.a[1], i):
			judge(-1, "the next of %s on level %s becomes that of another level", clean(n), clean(i))
		case !eq:
			judge(-1, "the next of %s on level %s becomes what follows %s, which is not known to be its next", clean(n), clean(i), clean(gone))
		case n.op == "last" && n.s[0] != 'A':
			judge(-1, "%s is taken out after a search that does not look for its score and member", clean(gone))
		case n.op == "last" && z.named(gone) && z.isAt(st, gone, n.a[0], n.a[1]) <= 0:
			judge(-1, "%s is taken out, but is not known to be the node searched for", clean(gone))
		}
	case y.isNil() || y.op == "last":
		r := 0
		if y.op == "last" {
			r = -1
		}
		judge(r, "next of %s on level %s becomes %s", clean(n), clean(i), clean(y))
	default:
		judge(0, "next of %s becomes %s", clean(n), clean(y))
	}
}

// rekey: the score of a node that stays where it is changes.
func (z *zindex) rekey(st *fst, pos string, n *fv, field string, v *fv) {
	const rule = "a node that keeps its place keeps its place in the order"
	z.obl()
	f := z.f
	if field == z.fValue {
		if v != z.key(st, n, z.fValue) {
			z.vague("%s: the member of a linked node changes at %s", z.cfg, pos)
		}
		return
	}
	if !z.named(n) {
		z.vague("%s: the score of an unknown node changes at %s", z.cfg, pos)
		return
	}
	// same score
	old := z.key(st, n, z.fScore)
	if b, ok := f.truth(st, f.cmp(token.EQL, old, v)); ok && b || old == v {
		return
	}
	z.seen["scores changed in place"]++
	V := z.key(st, n, z.fValue)
	side := func(m *fv, absent func(*fv) bool, want int, what string) {
		if absent(m) {
			return
		}
		mask, unk := z.rel(st, m, v, V)
		if mask&^want == 0 {
			return
		}
		if unk != "" {
			z.vague("%s: whether %s stays %s at %s depends on %s", z.cfg, clean(m), what, pos, unk)
			return
		}
		z.bad(rule, pos, "%s: the node gets a new score where it is, but the node %s it may have %s%s", z.cfg, what, z.show(mask&^want, V), path(st))
	}
	isNil := func(m *fv) bool {
		b, ok := f.truth(st, f.cmp(token.EQL, m, f.null()))
		return ok && b
	}
	// the node before: by its back link, or where the search ended
	prev := f.mk("key", z.backField(), nil, n)
	for _, a := range z.prevs(st, n) {
		if m, _ := z.rel(st, a, v, V); m&^zA == 0 || isNil(a) || z.isStart(st, a) {
			prev = a
		}
	}
	side(prev, func(m *fv) bool { return isNil(m) || z.isStart(st, m) }, zA, "before")
	after := 1<<9 - 1 - zB
	side(z.fwd(n, f.num(0)), isNil, after, "after")
}

// isStart: the node is known to be the start of the index.
func (z *zindex) isStart(st *fst, m *fv) bool {
	if z.isHead(st, m) {
		return true
	}
	b, ok := z.f.truth(st, z.f.cmp(token.EQL, m, z.head()))
	return ok && b
}

// prevs are names of the node before n.
func (z *zindex) prevs(st *fst, n *fv) []*fv {
	var r []*fv
	if n.op == "fwd" {
		r = append(r, n.a[0])
	}
	return r
}

func (z *zindex) backField() string {
	for i := 0; i < z.node.NumFields(); i++ {
		if fstructOf2(z.node.Field(i).Type()) == z.node {
			return z.node.Field(i).Name()
		}
	}
	return "?"
}

// bounds of a score range: number of nodes before it and up to its end
func (z *zindex) rangeOf(args []*fv) (lo, hi *fv, ok bool) {
	// receiver, min, minOpen, max, maxOpen
	if len(args) < 5 {
		return nil, nil, false
	}
	mo, ok1 := args[2].boolean()
	xo, ok2 := args[4].boolean()
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	cls := map[bool]string{true: "D", false: "C"}
	f := z.f
	mk := func(S *fv, c string) *fv { return z.pos(f.mk("last", c, nil, S, f.null(), f.num(0))) }
	return mk(args[1], cls[mo]), mk(args[3], cls[!xo]), true
}

func (z *zindex) isMethod(fn *ssa.Function, name string) bool {
	return fn.Name() == name && fn.Signature.Recv() != nil && z.isList(fn.Signature.Recv().Type())
}

// strip takes conversions off.
func (z *zindex) strip(v *fv) *fv {
	if v == nil {
		return nil
	}
	if v.op == "conv" && len(v.a) == 1 && v.t != nil && isBasic(v.t, types.IsInteger) {
		return z.strip(v.a[0])
	}
	if v.op == "sum" {
		r := z.f.num(0)
		for i, a := range v.a {
			a = z.strip(a)
			switch strings.Fields(v.s)[i] {
			case "1":
				r = z.f.sum(token.ADD, r, a, types.Typ[types.Int])
			case "-1":
				r = z.f.sum(token.SUB, r, a, types.Typ[types.Int])
			default:
				if k, ok := a.int(); ok && k == 1 {
					var c int64
					if x := constant.MakeFromLiteral(strings.TrimPrefix(strings.Fields(v.s)[i], "-"), token.INT, 0); x.Kind() == constant.Int {
						c, _ = constant.Int64Val(x)
					}
					if strings.HasPrefix(strings.Fields(v.s)[i], "-") {
						c = -c
					}
					r = z.f.sum(token.ADD, r, z.f.num(c), types.Typ[types.Int])
					continue
				}
				return v
			}
		}
		return r
	}
	return v
}

// bare is the path with conversions taken off the numbers it compares.
func (z *zindex) bare(st *fst) *fst {
	n := &fst{heap: st.heap, facts: map[*fv]bool{}, m: st.m, local: st.local}
	for k, b := range st.facts {
		if k.op == "lt" || k.op == "eq" {
			x, y := z.strip(k.a[0]), z.strip(k.a[1])
			op := token.LSS
			if k.op == "eq" {
				op = token.EQL
			}
			c, pos := z.f.norm(z.f.cmp(op, x, y))
			if v, ok := c.boolean(); ok {
				if (v == pos) != b {
					n.facts[z.f.cmp(token.LSS, z.f.sym("no"), z.f.sym("no"))] = true
				}
				continue
			}
			n.facts[c] = b == pos
			continue
		}
		n.facts[k] = b
	}
	return n
}

func (z *zindex) equal(st *fst, x, y *fv) bool {
	return z.f.entails(st, x, y, 0) && z.f.entails(st, y, x, 0)
}

func (z *zindex) end(st *fst, res *fv, args []*fv) {
	r := res
	if r != nil && r.op == "tup" && len(r.a) == 1 {
		r = r.a[0]
	}
	if r == nil {
		return
	}
	f := z.f
	at := z.c.p.pos(z.root.Pos())
	r = z.low(st, r)
	if z.goal() != nil {
		z.rankEnd(st, r, at)
		return
	}
	z.contract(st, r, at, args)
	if z.isMethod(z.root, "updateScore") && len(args) == 4 && z.isNode(z.root.Signature.Results().At(0).Type()) && !r.isNil() && r.op != "made" && r.op != "obj" {
		z.obl()
		if got := z.key(st, r, z.fScore); got != args[2] {
			b, ok := f.truth(st, f.cmp(token.EQL, got, args[2]))
			if ok && !b || !ok && z.named(got) {
				z.bad("a re-scored node has its new score", at, "a node is answered as re-scored, but its score is %s%s", clean(got), path(st))
			}
		}
	}
	switch {
	case z.isMethod(z.root, "rank") && len(args) == 3 && isBasic(z.root.Params[1].Type(), types.IsFloat):
		z.obl()
		S, V := args[1], args[2]
		b := z.bare(st)
		v := z.strip(r)
		// up to the member, or before it plus one, or the member itself was met
		for _, c := range []string{"B", "AB"} {
			if z.equal(b, v, z.pos(f.mk("last", c, nil, S, V, f.num(0)))) {
				return
			}
		}
		for _, c := range []string{"A", "AB"} {
			if z.equal(b, v, f.sum(token.ADD, z.pos(f.mk("last", c, nil, S, V, f.num(0))), f.num(1), nil)) {
				return
			}
		}
		met := map[*fv]bool{}
		for k := range st.facts {
			z.nodes(k, func(n *fv) { met[n] = true })
		}
		for n := range met {
			if z.isAt(st, n, S, V) != 1 {
				continue
			}
			if z.equal(b, v, z.pos(n)) || n.op == "fwd" && z.equal(b, v, f.sum(token.ADD, z.pos(n.a[0]), z.span(n), nil)) {
				return
			}
		}
		if z.named(v) {
			z.bad(zRank, at, "the rank of a member is answered as %s, which is not known to be the position of that score and member%s", clean(v), path(st))
		} else {
			z.vague("the rank is answered as %s", clean(v))
		}
	case z.isMethod(z.root, "count") && len(args) == 5:
		lo, hi, ok := z.rangeOf(args)
		if !ok {
			return
		}
		z.obl()
		b := z.bare(st)
		v := z.strip(r)
		if z.equal(b, v, f.sum(token.SUB, hi, lo, nil)) && f.entails(b, lo, hi, 0) {
			return
		}
		if z.equal(b, v, f.num(0)) && f.entails(b, hi, lo, 0) {
			return
		}
		if z.named(v) {
			z.bad("a score range holds exactly the nodes inside its bounds", at, "%s: the number of nodes in a score range is answered as %s, not as %s%s", z.cfg, clean(v), clean(f.sum(token.SUB, hi, lo, nil)), path(st))
		} else {
			z.vague("%s: the size of a score range is answered as %s", z.cfg, clean(v))
		}
	case z.isMethod(z.root, "zRangeByScore") && len(args) >= 5:
		lo, hi, ok := z.rangeOf(args)
		if !ok {
			return
		}
		z.obl()
		b := z.bare(st)
		if r.isNil() && f.entails(b, hi, lo, 0) {
			return
		}
		if r.op == "zrange" {
			x, y := z.strip(r.a[0]), z.strip(r.a[1])
			if z.equal(b, x, lo) && z.equal(b, f.sum(token.ADD, y, f.num(1), nil), hi) && f.entails(b, x, y, 0) && (len(args) < 6 || r.a[2] == args[5]) {
				return
			}
			if z.named(x) && z.named(y) {
				z.bad("a score range holds exactly the nodes inside its bounds", at, "%s: a score range is answered as the positions %s to %s, not %s to %s-1%s", z.cfg, clean(x), clean(y), clean(lo), clean(hi), path(st))
				return
			}
		}
		if r.isNil() {
			z.bad("a score range holds exactly the nodes inside its bounds", at, "%s: a score range is answered as empty, although there may be nodes in it%s", z.cfg, path(st))
			return
		}
		z.vague("%s: a score range is answered as %s", z.cfg, clean(r))
	}
}

// nodes of which the score or member is used in a fact.
func (z *zindex) nodes(v *fv, see func(*fv)) {
	if v == nil {
		return
	}
	if v.op == "key" {
		see(v.a[0])
	}
	for _, a := range v.a {
		z.nodes(a, see)
	}
}

// span is the step to node n, which follows another.
func (z *zindex) span(n *fv) *fv {
	for i := 0; i < z.lev.NumFields(); i++ {
		if f := z.lev.Field(i); isBasic(f.Type(), types.IsInteger) {
			return z.f.mk("span", f.Name(), f.Type(), n.a[0], n.a[1])
		}
	}
	return z.f.sym("span")
}

// call: a score range is answered as a range of positions.
func (z *zindex) call(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
	if name == "strings.Compare" {
		return one(st, z.f.mk("app", "strings.Compare", types.Typ[types.Int], args...)), true
	}
	g := in.Common().StaticCallee()
	if g != nil && g != z.root && z.rootSet[g] && g.Signature.Results().Len() == 1 && z.isNode(g.Signature.Results().At(0).Type()) {
		// judged by itself, whatever it is given
		f := z.f
		if z.impossible(st) {
			st.facts[f.mk("lt", "", nil, f.num(1), f.num(0))] = true // stays so
		}
		for a := range st.heap {
			if a.op == "faddr" {
				delete(st.heap, a)
			}
		}
		for k := range st.facts {
			if uses(k, "fwd") || uses(k, "key") || uses(k, "levels") || uses(k, "span") || uses(k, "last") || uses(k, "ld") {
				delete(st.facts, k)
			}
		}
		st.facts[z.after()] = true
		return one(st, f.tup(f.mk("made", fmt.Sprint(f.ctxName(in)), g.Signature.Results().At(0).Type()))), true
	}
	if g == nil || !z.isMethod(z.root, "zRangeByScore") || !z.isMethod(g, "zRange") || len(args) != 4 {
		return nil, false
	}
	return one(st, z.f.tup(z.f.mk("zrange", "", nil, args[1:]...))), true
}

// low writes level zero where it can be no other.
func (z *zindex) low(st *fst, v *fv) *fv {
	f := z.f
	m := map[*fv]*fv{}
	z.lasts(v, func(t *fv) {
		if _, ok := t.a[2].int(); !ok && f.entails(st, t.a[2], f.num(0), 0) {
			m[t] = f.mk("last", t.s, nil, t.a[0], t.a[1], f.num(0))
		}
	})
	return f.subst(v, m)
}

// after marks a path on which another operation has changed the index.
func (z *zindex) after() *fv { return z.f.mk("sym", "after", nil) }
