package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What goes with the forward links of the ordered index: how many nodes each passes, the way back,
// the number of levels. All of it is compared as terms: pos(n) is the number of nodes up to n,
// span(n,i) the number n's link on level i passes.

const (
	zSteps = "links know how many nodes they pass"
	zBack  = "the way back is the way forth"
)

func (z *zindex) spanField() string {
	for i := 0; i < z.lev.NumFields(); i++ {
		if f := z.lev.Field(i); isBasic(f.Type(), types.IsInteger) {
			return f.Name()
		}
	}
	return ""
}

// field finds the index's field of some sort: its last node or its number of nodes.
func (z *zindex) listField(ok func(name string, t types.Type) bool) string {
	for i := 0; i < z.list.NumFields(); i++ {
		if f := z.list.Field(i); ok(f.Name(), f.Type()) {
			return f.Name()
		}
	}
	return ""
}

func (z *zindex) fTail() string {
	return z.listField(func(n string, t types.Type) bool { return n != z.fHead && z.isNode(t) })
}

func (z *zindex) fLength() string {
	lev := z.c.p.zLevelField(z)
	return z.listField(func(n string, t types.Type) bool { return n != lev && isBasic(t, types.IsInteger) })
}

func (z *zindex) did(what string) { z.done[what]++ }

// step: the number of nodes n's link on level i passes becomes v.
func (z *zindex) step(st *fst, pos string, n, i, v *fv) {
	f := z.f
	v = z.strip(v)
	z.obl()
	z.seen["step counts set"]++
	eq := func(w *fv) bool { return f.sum(token.SUB, v, z.strip(w), nil) == f.num(0) }
	plus := func(a, b *fv) *fv { return f.sum(token.ADD, a, b, types.Typ[types.Int]) }
	minus := func(a, b *fv) *fv { return f.sum(token.SUB, a, b, types.Typ[types.Int]) }
	span := func(n *fv) *fv { return f.mk("span", z.spanField(), z.spanType(), n, i) }
	length := f.sym("no length")
	if name := z.fLength(); name != "" {
		a := z.fieldOf(z.zsl, z.list, name)
		length = f.mk("ld", "", a.t, a)
	}
	fresh := f.entails(st, z.level(), i, 0) // a level that was not in use
	if n.op == "obj" {
		S, V := z.key(st, n, z.fScore), z.key(st, n, z.fValue)
		p0 := z.pos(f.mk("last", "A", nil, S, V, f.num(0)))
		for _, c := range []string{"A", "AB"} {
			q := f.mk("last", c, nil, S, V, i)
			p0 := z.pos(f.mk("last", c, nil, S, V, f.num(0)))
			if eq(minus(plus(span(q), z.pos(q)), p0)) {
				z.did("steps of the new node")
				return
			}
			if fresh && eq(minus(length, p0)) {
				z.did("steps of the new node")
				z.did("steps of a new level")
				return
			}
		}
		if k, ok := v.int(); ok && k == 0 && !z.named(z.pos(n)) {
			return
		}
		if z.named(v) && z.named(S) && z.named(V) && !z.blank(st, n) {
			z.bad(zSteps, pos, "%s: the new node's link on level %s passes %s, not %s%s", z.cfg, clean(i), clean(v), clean(minus(plus(span(f.mk("last", "A", nil, S, V, i)), z.pos(f.mk("last", "A", nil, S, V, i))), p0)), path(st))
			return
		}
		z.vague("%s: the new node's link on level %s passes %s", z.cfg, clean(i), clean(v))
		return
	}
	own := span(n)
	head := n == z.head() || z.isHead(st, n)
	if head && fresh && eq(length) {
		z.did("steps of a new level")
		return
	}
	one := f.num(1)
	switch {
	case eq(plus(own, one)):
		z.did("steps over the new node")
		return
	case eq(minus(own, one)):
		// one fewer: a node further on, or one that is passed, goes
		z.did("steps over the removed node")
		return
	}
	if n.op == "last" && n.s[0] == 'A' || head {
		if n.op == "last" {
			p0 := z.pos(f.mk("last", n.s, nil, n.a[0], n.a[1], f.num(0)))
			if eq(minus(plus(p0, one), z.pos(n))) {
				z.did("steps to the new node")
				return
			}
		} else if fresh {
			for _, t := range z.searched(v) {
				if eq(plus(z.pos(f.mk("last", t.s, nil, t.a[0], t.a[1], f.num(0))), one)) {
					z.did("steps to the new node")
					return
				}
			}
		}
		// the removed node was its next
		w := plus(minus(v, own), one)
		if w.op == "span" && z.sameLevel(w.a[1], i) {
			b, ok := f.truth(st, f.cmp(token.EQL, z.fwd(n, i), w.a[0]))
			if ok && b {
				z.did("steps of the removed node")
				return
			}
			if ok {
				z.bad(zSteps, pos, "%s: the link of %s on level %s takes over the steps of %s, which is not its next there%s", z.cfg, clean(n), clean(i), clean(w.a[0]), path(st))
				return
			}
			z.vague("%s: the link of %s on level %s takes over the steps of %s", z.cfg, clean(n), clean(i), clean(w.a[0]))
			return
		}
		if z.named(v) && z.named(n) {
			z.bad(zSteps, pos, "%s: the link of %s on level %s now passes %s, which is none of what it can pass when one node comes or goes%s", z.cfg, clean(n), clean(i), clean(v), path(st))
			return
		}
	}
	z.vague("%s: the link of %s on level %s passes %s", z.cfg, clean(n), clean(i), clean(v))
}

func (z *zindex) spanType() types.Type {
	for i := 0; i < z.lev.NumFields(); i++ {
		if f := z.lev.Field(i); isBasic(f.Type(), types.IsInteger) {
			return f.Type()
		}
	}
	return nil
}

// blank: the node has not got its score or member yet.
func (z *zindex) blank(st *fst, n *fv) bool {
	S := z.key(st, n, z.fScore)
	return S.op == "const"
}

// searched are the ends of searches used in a term.
func (z *zindex) searched(v *fv) []*fv {
	var r []*fv
	z.lasts(v, func(t *fv) { r = append(r, t) })
	return r
}

// nowhere: the node is not there.
func (z *zindex) nowhere(st *fst, m *fv) (bool, bool) {
	return z.f.truth(st, z.f.cmp(token.EQL, m, z.f.null()))
}

// back: the node before n is now v.
func (z *zindex) ledBack(st *fst, pos string, n, v *fv) {
	f := z.f
	z.obl()
	zero := f.num(0)
	bad := func(form string, a ...interface{}) {
		z.bad(zBack, pos, z.cfg+": "+form+path(st), a...)
	}
	switch {
	case n.op == "obj":
		if v.isNil() {
			return
		}
		S, V := z.key(st, n, z.fScore), z.key(st, n, z.fValue)
		v = z.low(st, v)
		if v.op == "last" && v.s[0] == 'A' && v.a[0] == S && v.a[1] == V && v.a[2] == zero {
			if b, ok := f.truth(st, f.cmp(token.EQL, v, z.head())); ok && b {
				bad("the start of the index is entered as the node before another")
			}
			return
		}
		if z.named(v) && z.named(S) && z.named(V) && !z.blank(st, n) {
			bad("the new node's way back leads to %s, not to the last node before its score and member", clean(v))
			return
		}
		z.vague("%s: the new node's way back leads to %s", z.cfg, clean(v))
	case v.op == "obj":
		S, V := z.key(st, v, z.fScore), z.key(st, v, z.fValue)
		if n == z.fwd(v, zero) {
			return // what the new node was linked to
		}
		if n.op == "fwd" && n.a[1] == zero && z.precedes(st, n.a[0], S, V, zero) > 0 {
			return
		}
		if z.named(n) && z.named(S) && z.named(V) {
			bad("%s is led back to the new node, but does not follow it", clean(n))
			return
		}
		z.vague("%s: %s is led back to the new node", z.cfg, clean(n))
	case v.op == "key" && v.s == z.backField():
		g := v.a[0]
		if n == z.fwd(g, zero) {
			return
		}
		if z.named(n) && z.named(g) {
			bad("%s is led back to the node before %s, which it does not follow", clean(n), clean(g))
			return
		}
		z.vague("%s: %s is led back to the node before %s", z.cfg, clean(n), clean(g))
	default:
		z.vague("%s: %s is led back to %s", z.cfg, clean(n), clean(v))
	}
}

// field: the index's own numbers and ends change.
func (z *zindex) own(st *fst, pos, name string, v *fv) {
	f := z.f
	zero := f.num(0)
	switch name {
	case z.fTail():
		z.obl()
		last := func(what string, ms ...*fv) {
			b, ok := false, false
			for _, m := range ms {
				if !ok {
					b, ok = z.nowhere(st, m)
				}
			}
			switch {
			case ok && !b:
				z.bad(zBack, pos, "%s: %s becomes the end of the index although a node follows it%s", z.cfg, what, path(st))
			case !ok:
				z.vague("%s: %s becomes the end of the index", z.cfg, what)
			}
		}
		switch {
		case v.op == "obj":
			S, V := z.key(st, v, z.fScore), z.key(st, v, z.fValue)
			last("the new node", z.fwd(f.mk("last", "A", nil, S, V, zero), zero), z.fwd(v, zero))
		case v.op == "key" && v.s == z.backField():
			last("the node before the removed one", z.fwd(v.a[0], zero))
		default:
			z.vague("%s: the end of the index becomes %s", z.cfg, clean(v))
		}
	case z.fLength():
		a := z.fieldOf(z.zsl, z.list, name)
		d, ok := f.sum(token.SUB, v, f.mk("ld", "", a.t, a), nil).int()
		switch {
		case ok && d == 1:
			st.facts[z.mark("longer")] = true
			z.did("longer")
		case ok && d == -1:
			st.facts[z.mark("shorter")] = true
			z.did("shorter")
		case ok && d != 0:
			z.obl()
			z.bad(zSteps, pos, "%s: the number of nodes changes by %d%s", z.cfg, d, path(st))
		}
	case z.c.p.zLevelField(z):
		z.obl()
		a := z.fieldOf(z.zsl, z.list, name)
		old := f.load(st, nil, a, a.t)
		if !f.entails(st, f.num(1), v, 0) && f.entails(st, f.num(1), old, 0) && z.named(v) {
			z.bad("levels in use stay in use", pos, "%s: the number of levels may drop below one%s", z.cfg, path(st))
		}
		if f.entails(st, old, v, -1) {
			z.did("more levels")
		}
		if d, ok := f.sum(token.SUB, v, old, nil).int(); ok && d < 0 {
			top := z.fwd(z.head(), f.sum(token.SUB, old, f.num(1), nil))
			b, ok := z.nowhere(st, top)
			if ok && !b {
				z.bad("levels in use stay in use", pos, "%s: a level is given up although nodes are linked on it%s", z.cfg, path(st))
			}
		}
	}
}

func (z *zindex) mark(s string) *fv { return z.f.mk("sym", "mark "+s, nil) }

// whole: what must have happened on a way through an operation, and in the operation.
func (z *zindex) whole(st *fst, res *fv) {
	f := z.f
	if st.facts[z.after()] {
		return
	}
	longer, shorter := st.facts[z.mark("longer")], st.facts[z.mark("shorter")]
	if longer == shorter {
		return
	}
	at := z.c.p.pos(z.root.Pos())
	bf, tf := z.backField(), z.fTail()
	end, led, own := false, false, false
	var fresh *fv
	for a, v := range st.heap {
		if a.op != "faddr" {
			continue
		}
		if a.own == z.list && a.s == tf {
			end = true
		}
		if a.own == z.node && a.s == bf {
			if a.a[0].op == "obj" {
				if v != nil && !v.isNil() {
					own = true
				}
			} else {
				led = true
			}
		}
		if a.own == z.node && a.a[0].op == "obj" {
			fresh = a.a[0]
		}
	}
	if bf != "?" && tf != "" {
		z.obl()
		if !end && !led {
			z.bad(zBack, at, "%s: a node comes or goes, but neither the node after it is led back nor the end of the index moved%s", z.cfg, path(st))
		}
		if longer && fresh != nil && !own {
			p := f.mk("last", "A", nil, z.key(st, fresh, z.fScore), z.key(st, fresh, z.fValue), f.num(0))
			b, ok := f.truth(st, f.cmp(token.EQL, p, z.head()))
			other := false
			for k := range st.facts {
				other = other || k.op == "eq" && (k.a[0] == z.head() && k.a[1].op == "last" || k.a[1] == z.head() && k.a[0].op == "last")
			}
			switch {
			case ok && b || f.entails(st, z.pos(p), f.num(0), 0):
			case ok || other:
				z.bad(zBack, at, "%s: the new node has no way back although a node precedes it%s", z.cfg, path(st))
			default:
				z.vague("%s: the new node has no way back", z.cfg)
			}
		}
	}
}

// zround is what the rounds of a loop over the levels have in common.
type zround struct {
	set, join   bool   // some round sets the steps of a link, or links the new node
	miss, apart string // a round that does not, although there is a link
	at          string
}

// round: the end of a round of a loop; the links set before it are not in the state any more.
func (z *zindex) round(st *fst, fn *ssa.Function, h *ssa.BasicBlock, old map[ssa.Value]*fv) {
	f := z.f
	if z.pass != 3 || st.facts[z.after()] || z.spanField() == "" || z.impossible(st) {
		return
	}
	li := f.loopsOf(fn)
	for b := range li.body[h] {
		if b != h && li.body[b] != nil {
			return // loops inside are looked at themselves
		}
	}
	r := z.rounds[h]
	if r == nil {
		if z.rounds == nil {
			z.rounds = map[*ssa.BasicBlock]*zround{}
		}
		r = &zround{at: f.pos(h.Instrs[0])}
		z.rounds[h] = r
	}
	if st.facts[z.mark("joined")] {
		r.join = true
	} else {
		r.apart = path(st) + " "
	}
	if st.facts[z.mark("stepped")] {
		r.set = true
		return
	}
	for k, b := range st.facts {
		if b && k.op == "eq" && (k.a[0].isNil() && k.a[1].op == "fwd" || k.a[1].isNil() && k.a[0].op == "fwd") {
			return // a link that leads nowhere passes nothing
		}
	}
	r.miss = path(st) + " "
}

// complete: an operation that adds or removes a node does all that goes with it.
func (z *zindex) complete() {
	at := z.c.p.pos(z.root.Pos())
	need := func(rule string, what ...string) {
		for _, w := range what {
			z.obl()
			if z.done[w] == 0 {
				z.bad(rule, at, "%s: a node comes or goes, but nothing sets the %s", z.cfg, w)
			}
		}
	}
	for _, r := range z.rounds {
		if r.join {
			z.obl()
			if r.apart != "" {
				z.bad("a node is linked between its neighbours in the order", r.at, "%s: the loop links the new node on some levels, but leaves it out on others%s", z.cfg, strings.TrimRight(r.apart, " "))
			}
		}
		if r.set {
			z.obl()
			if r.miss != "" {
				z.bad(zSteps, r.at, "%s: the loop sets the steps of the links on some levels, but leaves those on others%s", z.cfg, strings.TrimRight(r.miss, " "))
			}
		}
	}
	z.rounds = nil
	const link = "a node is linked between its neighbours in the order"
	if z.done["longer"] > 0 || z.done["link to the new node"] > 0 {
		need(link, "link to the new node", "link of the new node")
		if z.spanField() != "" {
			need(zSteps, "steps of the new node", "steps to the new node", "steps over the new node")
			if z.done["more levels"] > 0 {
				need(zSteps, "steps of a new level")
			}
		}
	}
	if z.done["shorter"] > 0 || z.done["link past the removed node"] > 0 {
		need(link, "link past the removed node")
		if z.spanField() != "" {
			need(zSteps, "steps of the removed node", "steps over the removed node")
		}
	}
}
