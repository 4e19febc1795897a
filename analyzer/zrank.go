package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C27: the element of a rank is looked up by its position in the order.

const (
	zElem  = "a rank names the element at that position"
	zRank  = "the rank is the position of the member"
	zNodes = "no node that is missing is used"
)

// rankParam is the position searched for by a function that answers a node.
func (z *zindex) rankParam(fn *ssa.Function) int {
	if fn.Signature.Results().Len() != 1 || !z.isNode(fn.Signature.Results().At(0).Type()) {
		return -1
	}
	at := -1
	for i, p := range fn.Params {
		if isBasic(p.Type(), types.IsInteger) {
			if at >= 0 {
				return -1
			}
			at = i
		} else if !z.isList(p.Type()) && !isBasic(p.Type(), types.IsBoolean) {
			return -1
		}
	}
	return at
}

// ranked: the function looks up the node of a position.
func (z *zindex) ranked(fn *ssa.Function) bool {
	return z.takesIndex(fn) && z.rankParam(fn) >= 0
}

// target position of the function, nil if it does not look one up.
func (z *zindex) goal() *fv {
	if i := z.rankParam(z.root); i >= 0 && z.ranked(z.root) && i < len(z.args) {
		return z.args[i]
	}
	return nil
}

// relPos: how a position can relate to the one looked up: 1 before, 2 at, 4 after.
func (z *zindex) relPos(st *fst, p, R *fv) int {
	b := z.bare(st)
	f := z.f
	m := 7
	if f.entails(b, R, p, 0) { // R <= p
		m &^= 1
	}
	if f.entails(b, p, R, 0) {
		m &^= 4
	}
	if v, ok := f.truth(b, f.cmp(token.EQL, p, R)); ok && !v {
		m &^= 2
	}
	if p.op == "pos" && p.a[0].op == "last" && p.a[0].a[0] == R && p.a[0].s == "R" {
		m &^= 4 // the last one up to there
	}
	if f.entails(b, R, p, -1) || f.entails(b, p, R, -1) {
		m &^= 2
	}
	return m
}

// next is the position of the node after x on level i.
func (z *zindex) next(x, i *fv) *fv {
	f := z.f
	sp := f.mk("span", z.spanField(), z.spanType(), x, i)
	return f.sum(token.ADD, z.pos(x), sp, types.Typ[types.Int])
}

// plain: all that the path compares with the position is understood.
func (z *zindex) plain(st *fst, R *fv) bool {
	var ok func(v *fv) bool
	ok = func(v *fv) bool {
		switch v.op {
		case "pos", "span", "fwd", "sum", "last":
			for _, a := range v.a {
				if !ok(a) {
					return false
				}
			}
			return true
		case "phi":
			return true
		}
		return z.named(v)
	}
	b := z.bare(st)
	for k := range b.facts {
		if (k.op == "lt" || k.op == "eq") && k.has(R) && (!ok(k.a[0]) || !ok(k.a[1])) {
			return false
		}
	}
	return true
}

func (z *zindex) rankAdvance(st *fst, w *zwalk, o, i *fv) {
	R := z.goal()
	if R == nil {
		return
	}
	w.radv |= z.relPos(st, z.next(o, i), R)
	if !z.plain(st, R) {
		w.runk = "position"
	}
}

func (z *zindex) rankLeave(p *fpath, w *zwalk, x, i *fv) {
	R := z.goal()
	if R == nil {
		return
	}
	f := z.f
	n := z.fwd(x, i)
	if v, known := f.truth(p.st, f.cmp(token.EQL, n, f.null())); !known || !v {
		m := z.relPos(p.st, z.next(x, i), R)
		if m&5 == 5 && !known && z.plain(p.st, R) {
			return // left for another reason
		}
		if w.class == "" || z.pass == 1 {
			w.rstop |= m
			if !z.plain(p.st, R) {
				w.runk = "position"
			}
		}
	}
	if w.class != "R" && w.class != "Q" || z.pass == 1 {
		return
	}
	z.rename(p, map[*fv]*fv{x: f.mk("last", w.class, nil, R, f.null(), i)})
	for k := range p.st.facts {
		if uses(k, "fwd") || uses(k, "key") || uses(k, "levels") || uses(k, "span") {
			if k.op == "eq" && (k.a[0].isNil() || k.a[1].isNil()) {
				continue
			}
			delete(p.st.facts, k)
		}
	}
}

// rankClass: the search goes on up to the position, or up to the one before it.
func (z *zindex) rankClass(w *zwalk) {
	if z.goal() == nil || len(w.S)+len(w.V) > 0 || w.runk != "" || !w.advSeen {
		return
	}
	switch {
	case w.radv&4 == 0 && w.rstop&^4 == 0:
		w.class = "R"
	case w.radv&^1 == 0 && w.rstop&1 == 0:
		w.class = "Q"
	}
}

func (z *zindex) rankWrong(w *zwalk) {
	if z.goal() == nil || len(w.S)+len(w.V) > 0 {
		return
	}
	z.obl()
	z.seen["searches"]++
	switch {
	case w.class == "R" || w.class == "Q":
	case w.runk != "":
		z.vague("%s: the search at %s compares the position with something unknown", z.cfg, w.at)
	case w.radv&4 != 0:
		z.bad(zElem, w.at, "%s: the search for a position goes past nodes that may come after it", z.cfg)
	default:
		z.bad(zElem, w.at, "%s: the search for a position stops although the next node may come before it", z.cfg)
	}
}

func (z *zindex) missed() *fv { return z.f.mk("ghost", "missed", types.Typ[types.Int]) }

// rankBack notes on which levels the position was not met.
func (z *zindex) rankBack(st *fst) {
	R := z.goal()
	if R == nil {
		return
	}
	b := z.bare(st)
	var at *fv
	for k := range b.facts {
		z.lasts(k, func(t *fv) {
			if t.s == "R" && t.a[0] == R && z.relPos(st, z.pos(t), R)&2 == 0 {
				if at == nil || t.id < at.id {
					at = t
				}
			}
		})
	}
	if at != nil {
		st.heap[z.missed()] = at.a[2]
	}
}

// rankEnd judges the node answered for a position.
func (z *zindex) rankEnd(st *fst, r *fv, at string) {
	f, R := z.f, z.goal()
	z.obl()
	b := z.bare(st)
	if r.isNil() {
		if g := st.heap[z.missed()]; g != nil && f.entails(b, g, f.num(0), 0) {
			return
		}
		if z.relPos(st, z.pos(f.mk("last", "R", nil, R, f.null(), f.num(0))), R)&2 == 0 {
			return
		}
		q := z.fwd(f.mk("last", "Q", nil, R, f.null(), f.num(0)), f.num(0))
		if v, ok := f.truth(st, f.cmp(token.EQL, q, f.null())); ok && v {
			return
		}
		if f.entails(b, R, f.num(0), 0) || f.entails(b, f.sum(token.ADD, z.length(), f.num(1), nil), R, 0) {
			return
		}
		z.bad(zElem, at, "%s: no node is answered for a position where there may be one%s", z.cfg, path(st))
		return
	}
	if m := z.relPos(st, z.pos(r), R); m == 2 {
		return
	}
	if r.op == "fwd" && r.a[0].op == "last" && r.a[0].s == "Q" && r.a[0].a[0] == R {
		if k, ok := r.a[0].a[2].int(); ok && k == 0 {
			return
		}
	}
	if z.named(r) {
		z.bad(zElem, at, "%s: %s is answered, which is not known to be the node at the position asked for%s", z.cfg, clean(r), path(st))
	} else {
		z.vague("%s: %s is answered for a position", z.cfg, clean(r))
	}
}

// length is the number of nodes as the index counts them.
func (z *zindex) length() *fv {
	a := z.fieldOf(z.zsl, z.list, z.fLength())
	if a == nil {
		return z.f.sym("length")
	}
	return z.f.mk("ld", "", a.t, a)
}

const zDone = "an operation on the index does what its answer says"

// contract: insert, delete and updateScore do what the commands rely on.
func (z *zindex) contract(st *fst, r *fv, at string, args []*fv) {
	f := z.f
	if st.facts[z.after()] {
		if z.isMethod(z.root, "updateScore") && r.op == "made" && !st.facts[z.mark("shorter")] {
			z.obl()
			z.bad(zDone, at, "%s: the member is inserted with its new score, but was not removed before%s", z.cfg, path(st))
		}
		return
	}
	longer, shorter := st.facts[z.mark("longer")], st.facts[z.mark("shorter")]
	var floats, texts []*fv
	for i, p := range z.root.Params {
		switch {
		case isBasic(p.Type(), types.IsFloat):
			floats = append(floats, args[i])
		case isBasic(p.Type(), types.IsString):
			texts = append(texts, args[i])
		}
	}
	// absent: no node has this score and member
	absent := func(S, V *fv) bool {
		for _, c := range []string{"A", "AB"} {
			n := z.fwd(f.mk("last", c, nil, S, V, f.num(0)), f.num(0))
			if b, ok := z.nowhere(st, n); ok && b || z.isAt(st, n, S, V) < 0 {
				return true
			}
		}
		return false
	}
	switch {
	case z.isMethod(z.root, "insert") && len(floats) == 1 && len(texts) == 1:
		z.obl()
		if r.op != "obj" || !longer {
			if r.isNil() || r.op == "obj" || z.named(r) {
				z.bad(zDone, at, "%s: a member may not be inserted%s", z.cfg, path(st))
			} else {
				z.vague("%s: %s is answered as the new node", z.cfg, clean(r))
			}
			return
		}
		S, V := z.key(st, r, z.fScore), z.key(st, r, z.fValue)
		if S != floats[0] || V != texts[0] {
			z.bad(zDone, at, "%s: the new node has the score %s and the member %s%s", z.cfg, clean(S), clean(V), path(st))
		}
		// its levels are in use
		if ls := st.heap[z.fieldOf(r, z.node, z.fLevels)]; ls != nil {
			a := z.fieldOf(z.zsl, z.list, z.c.p.zLevelField(z))
			if a != nil {
				n, now := f.length(st, ls), f.load(st, nil, a, a.t)
				if !f.entails(st, n, now, 0) {
					z.bad("levels in use stay in use", at, "%s: the new node has %s levels, which may be more than the index uses%s", z.cfg, clean(n), path(st))
				}
			}
		}
	case z.isMethod(z.root, "delete") && len(floats) == 1 && len(texts) == 1 && r.op == "const":
		z.obl()
		k, ok := r.int()
		switch {
		case !ok:
		case k == 0 && shorter:
			z.bad(zDone, at, "%s: a member is removed, but the answer is that it was not there%s", z.cfg, path(st))
		case k == 0 && !absent(floats[0], texts[0]):
			z.bad(zDone, at, "%s: the answer is that the member is not there, which is not known%s", z.cfg, path(st))
		case k != 0 && (k != 1 || !shorter):
			z.bad(zDone, at, "%s: the answer is that %d members are removed, but that is not what was done%s", z.cfg, k, path(st))
		case k == 1:
			for i, p := range z.root.Params {
				pp, ok := p.Type().(*types.Pointer)
				if !ok || !z.isNode(pp.Elem()) {
					continue
				}
				if b, ok := f.truth(st, f.cmp(token.EQL, args[i], f.null())); !ok && st.heap[args[i]] == nil || ok && !b && st.heap[args[i]] == nil {
					z.bad(zDone, at, "%s: the removed node is asked for, but not handed out%s", z.cfg, path(st))
				}
			}
		}
	case z.isMethod(z.root, "updateScore") && len(floats) == 2 && len(texts) == 1 && r.isNil():
		z.obl()
		if longer || shorter {
			z.bad(zDone, at, "%s: a node is re-scored, but the answer is that it is not there%s", z.cfg, path(st))
		} else if !absent(floats[0], texts[0]) {
			z.bad(zDone, at, "%s: the answer is that the member is not there, which is not known%s", z.cfg, path(st))
		}
	}
}
