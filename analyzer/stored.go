package main

import (
	"go/token"
	"math/big"
	"strings"
)

// Rules about what a successful command leaves behind: C14 (the effect is
// stored under the key), C24 (texts are stored as they came) and C21 (list
// positions).

func argT(k int64) *Term { return mk("arg", "", mkLin(linInt(k))) }

// textIs: t is the text want on this path.
func textIs(st *State, t, want *Term) bool {
	if t == nil {
		return false
	}
	t, want = st.normTerm(t), st.normTerm(want)
	if st.sameTerm(t, want) {
		return true
	}
	v, known := st.decide(eqTerm(t, want))
	return known && v
}

// argAt: t is argument number l.
func argAt(st *State, t *Term, l *Lin) bool {
	if t == nil {
		return false
	}
	if k, ok := argOf(st, t); ok && st.cons.entailsEq(k.sub(l)) {
		return true
	}
	return textIs(st, t, mk("arg", "", mkLin(st.cons.subst(l))))
}

// asText gives the text a stored hash value stands for, and whether the
// representation is one that reproduces the text it was made from.
func asText(st *State, v V) (t *Term, exact bool, known bool) {
	if i, ok := v.(VIface); ok {
		if i.t == nil {
			return nil, false, true
		}
		v = i.v
	}
	switch x := v.(type) {
	case VTerm:
		t := st.normTerm(x.t)
		switch t.op {
		case "fcparse":
			return t.args[0], true, true
		case "fparse":
			return t.args[0], false, true
		}
		return t, true, true
	case VNum:
		if a := st.cons.subst(x.l).single(); a != nil {
			switch a.op {
			case "cparse":
				return a.args[0], true, true
			case "iparse":
				return a.args[0], false, true
			}
		}
	}
	return nil, false, false
}

func hashWrite(name string) bool { return name == "hset" || name == "hmset" || name == "hsetnx" }

// fieldSet: a field gets the value that follows it among the arguments.
func (h *hc) fieldSet(ev Ev, o *Obj) {
	st := ev.st
	if o.class != "hash" && o.class != "" || !hashWrite(h.name) {
		return
	}
	k, ok := argOf(st, ev.key)
	if !ok {
		return
	}
	t, exact, known := asText(st, ev.v)
	if !known {
		h.prove("C14", "a field gets the value given for it", ev.pos, st, false, "%s stores %s under field %s", h.name, showV(ev.v), ev.key)
		return
	}
	h.prove("C14", "a field gets the value given for it", ev.pos, st, argAt(st, t, k.addInt(1)), "%s stores %s under field %s instead of the argument after it", h.name, showV(ev.v), ev.key)
	h.prove("C24", "a hash value keeps its text", ev.pos, st, exact, "%s stores %s as a number although its text may be spelt differently", h.name, t)
}

// keySet: a key gets the value given for it.
func (h *hc) keySet(ev Ev, c *container) {
	st := ev.st
	if c.kind != "string" || c.text == nil {
		return
	}
	h.stringText(st, c.text, ev.pos, ev.key)
	switch h.name {
	case "set", "mset":
		k, ok := argOf(st, ev.key)
		if !ok {
			return
		}
		h.prove("C14", "a key gets the value given for it", ev.pos, st, argAt(st, c.text, k.addInt(1)), "%s stores %s under key %s instead of the argument after it", h.name, c.text, ev.key)
	}
}

// stringText: a stored string is an argument, the stored text extended by one, or a number.
func (h *hc) stringText(st *State, t *Term, pos token.Pos, key *Term) {
	t = st.normTerm(t)
	ok := h.pureText(st, t)
	switch t.op {
	case "fmtint":
		ok = h.sp.counter
	case "concat":
		ok = h.name == "append"
		for _, a := range t.args {
			if !h.pureText(st, a) {
				ok = false
			}
		}
	}
	h.prove("C24", "client text is stored unmodified", pos, st, ok, "%s stores %s under %s, which is not the text as it was given", h.name, t, key)
}

// nodeValue: what a list node holds.
func (h *hc) nodeValue(ev Ev, o *Obj) {
	if o == nil {
		return
	}
	t := textOf(ev.v)
	if t == nil {
		return
	}
	st := ev.st
	if c, ok := st.constOf(st.normTerm(t)); ok && c != nil && o.home == nil {
		return // a sentinel, or a node about to get its value
	}
	h.text(ev.pos, st, t, "list element")
}

// stored: the effect of a successful write is in the keyspace.
func (h *hc) stored(st *State, ks *Obj, rp Reply) {
	if h.sp.kind == "list" {
		h.positions(st, ks, rp)
	}
	if h.sp.stores == "" {
		if h.name == "del" {
			if en := entOf(st, ks, 0); en != nil {
				h.prove("C14", "a deleted key is gone", h.fn.Pos(), st, !en.in, "DEL succeeds but its key still exists")
			}
		}
		return
	}
	pos := h.fn.Pos()
	if h.name == "mset" {
		return // every pair is checked where it is stored
	}
	en := entOf(st, ks, 0)
	if h.sp.create {
		if h.name == "zadd" {
			if en == nil || !en.in {
				return // with XX nothing needs to have been added
			}
		}
		if !h.prove("C14", "the key exists after a successful write", pos, st, en != nil && en.in, "%s succeeds but its key does not exist afterwards", h.name) {
			return
		}
		c := h.container(st, en.v)
		if c == nil {
			return
		}
		h.prove("C14", "the key holds the right kind of value after a successful write", pos, st, c.kind == h.sp.kind || c.kind == "", "%s succeeds but its key holds a %s", h.name, c.kind)
	}
	if en == nil {
		return
	}
	var c *container
	if en.in {
		c = h.container(st, en.v)
	}
	switch h.name {
	case "set":
		if c != nil {
			h.prove("C14", "a key gets the value given for it", pos, st, argAt(st, c.text, linInt(1)), "SET leaves %v under its key", c.text)
		}
	case "append":
		if c == nil || c.text == nil {
			return
		}
		want := argT(1)
		if en.in0 {
			want = concat(mk("strval", "", mk("ksval", "", st.normTerm(en.key))), argT(1))
		}
		h.prove("C14", "APPEND extends the stored text by its argument", pos, st, textIs(st, c.text, want), "APPEND leaves %s under its key", c.text)
		h.stringText(st, c.text, pos, en.key)
		if l := intOf(rp.v); l != nil && rp.kind == "integer" {
			h.prove("C14", "APPEND answers the new length", pos, st, st.cons.entailsEq(l.sub(strLen(st.normTerm(c.text)))), "APPEND answers %s but the text has %s bytes", show(st, l), show(st, strLen(st.normTerm(c.text))))
		}
	case "lpush", "rpush":
		if c == nil || c.card == nil {
			return
		}
		old := linInt(0)
		if en.in0 {
			old = cardOf(st.normTerm(en.key))
		}
		want := old.add(termLin(mk("isym", "nargs"))).addInt(-1)
		h.prove("C14", "every pushed element is in the list", pos, st, st.cons.entailsEq(c.card.sub(want)), "%s leaves %s elements instead of %s", h.name, show(st, c.card), show(st, want))
		h.pushed(st, c, en)
	case "linsert":
		if c != nil {
			h.inserted(st, c, en, rp)
		}
	case "smove":
		h.smoved(st, ks, rp)
	case "hsetnx":
		if c == nil || c.m == nil {
			return
		}
		me := entOf(st, c.m, 1)
		if !h.prove("C14", "the field exists afterwards", pos, st, me != nil && me.in, "HSETNX succeeds but its field is not in the hash") {
			return
		}
		if en.in0 && me.have && me.in0 {
			h.prove("C14", "HSETNX keeps an existing value", pos, st, !me.mod, "HSETNX overwrites an existing field")
		} else {
			t, _, known := asText(st, me.v)
			h.prove("C14", "a field gets the value given for it", pos, st, known && argAt(st, t, linInt(2)), "HSETNX leaves %s under its field", showV(me.v))
		}
	case "hincrbyfloat":
		if c == nil || c.m == nil {
			return
		}
		me := entOf(st, c.m, 1)
		if !h.prove("C14", "the field exists afterwards", pos, st, me != nil && me.in, "HINCRBYFLOAT succeeds but its field is not in the hash") {
			return
		}
		inc := mk("fparse", "", argT(2))
		for f := range st.facts {
			f.walk(func(x *Term) {
				if (x.op == "fparse" || x.op == "fcparse") && mentionsArg(st, x, 2) {
					inc = x
				}
			})
		}
		t := textOf(me.v)
		if t == nil {
			return
		}
		t = st.normTerm(t)
		ok := false
		if en.in0 && me.have && me.in0 {
			ok = t.op == "fadd" && (mentionsArg(st, t.args[0], 2) != mentionsArg(st, t.args[1], 2))
		} else {
			ok = t == inc || (t.op == "fparse" || t.op == "fcparse") && mentionsArg(st, t, 2)
		}
		h.prove("C14", "HINCRBYFLOAT stores the sum", pos, st, ok, "HINCRBYFLOAT leaves %s under its field", t)
		if rt := textOf(rp.v); rt != nil && rp.kind == "bulk" {
			rt = st.normTerm(rt)
			h.prove("C14", "HINCRBYFLOAT answers what it stored", pos, st, rt == fmtFlt(t), "HINCRBYFLOAT answers %s but stores %s", rt, t)
		}
	case "hincrby", "hset", "hmset":
		if c == nil || c.m == nil {
			return
		}
		if h.name == "hincrby" {
			me := entOf(st, c.m, 1)
			h.prove("C14", "the field exists afterwards", pos, st, me != nil && me.in, "HINCRBY succeeds but its field is not in the hash")
		}
	case "zincr":
		if c == nil || c.z == nil || rp.kind != "bulk" {
			return
		}
		ze := zentOf(st, c.z, argT(2))
		if !h.prove("C14", "the member exists afterwards", pos, st, ze != nil && ze.in, "ZINCR succeeds but its member is not in the sorted set") {
			return
		}
	case "sdiffstore", "sinterstore", "sunionstore":
		if !en.in || c == nil || !en.mod {
			return
		}
		h.prove("C14", "the destination holds a set", pos, st, c.kind == "set", "%s stores a %s", h.name, c.kind)
	}
	h.witnessed(st, ks)
}

func (h *hc) smoved(st *State, ks *Obj, rp Reply) {
	l := intOf(rp.v)
	if rp.kind != "integer" || l == nil || !st.cons.entailsEq(l.addInt(-1)) {
		return
	}
	pos := h.fn.Pos()
	src, dst := entOf(st, ks, 0), entOf(st, ks, 1)
	if !h.prove("C14", "the moved member is in the destination", pos, st, dst != nil && dst.in, "SMOVE answers 1 but the destination does not exist") {
		return
	}
	if c := h.container(st, dst.v); c != nil && c.m != nil {
		me := entOf(st, c.m, 2)
		h.prove("C14", "the moved member is in the destination", pos, st, me != nil && me.in, "SMOVE answers 1 but the member is not in the destination")
	}
	if src == nil || src == dst || src.key == dst.key {
		return
	}
	if src.in {
		if c := h.container(st, src.v); c != nil && c.m != nil {
			me := entOf(st, c.m, 2)
			h.prove("C14", "the moved member has left the source", pos, st, me != nil && !me.in, "SMOVE answers 1 but the member is still in the source")
		}
	}
}

// ---------- lists ----------

// split continues with each way b can turn out.
func split(st *State, bs []*B, f func(*State)) {
	if len(bs) == 0 {
		f(st)
		return
	}
	if _, known := st.decide(bs[0]); known {
		split(st, bs[1:], f)
		return
	}
	x, y := st.clone(), st.clone()
	for _, s := range x.assume(bs[0]) {
		split(s, bs[1:], f)
	}
	for _, s := range y.assume(bs[0].not()) {
		split(s, bs[1:], f)
	}
}

func (h *hc) positions(st *State, ks *Obj, rp Reply) {
	pos := h.fn.Pos()
	switch h.name {
	case "lindex", "lset":
		en := entOf(st, ks, 0)
		if en == nil || !en.have || !en.in0 {
			return
		}
		key := st.normTerm(en.key)
		n := cardOf(key)
		idx := termLin(iparse(argT(1), "10"))
		inRange := func(s *State) (at *Lin, in, known bool) {
			at = idx
			if v, k := s.decide(bLe(idx.addInt(1))); !k {
				return nil, false, false
			} else if v {
				at = idx.add(n)
			}
			a, k1 := s.decide(bLe(at.neg()))
			b, k2 := s.decide(bLe(at.sub(n).addInt(1)))
			if k1 && !a || k2 && !b {
				return at, false, true
			}
			return at, a && b, k1 && k2
		}
		neg := bLe(idx.addInt(1))
		low, lowN := bLe(idx.neg()), bLe(idx.add(n).neg())
		high, highN := bLe(idx.sub(n).addInt(1)), bLe(idx.addInt(1))
		split(st, []*B{neg, low, lowN, high, highN}, func(s *State) {
			at, in, known := inRange(s)
			if !known {
				return
			}
			if h.name == "lindex" {
				if rp.kind == "nil" {
					h.prove("C21", "an element inside the list is found", pos, s, !in, "LINDEX answers nil for an offset inside the list")
					return
				}
				t := textOf(rp.v)
				if rp.kind != "bulk" || t == nil {
					h.prove("C21", "LINDEX answers the element", pos, s, false, "LINDEX answers %s", h.describe(s, rp))
					return
				}
				if !h.prove("C21", "an offset outside the list has no element", pos, s, in, "LINDEX answers an element for an offset outside the list") {
					return
				}
				h.prove("C21", "LINDEX answers the element at the offset", pos, s, h.elemIs(s, t, key, at), "LINDEX answers %s where the offset means element %s", s.normTerm(t), show(s, at))
				return
			}
			if !h.prove("C21", "an offset outside the list has no element", pos, s, in, "LSET succeeds for an offset outside the list") {
				return
			}
			c := h.container(s, en.v)
			if c == nil || c.obj == nil {
				return
			}
			us, ok := h.units(s, c.obj)
			if !ok {
				return
			}
			found, changed := false, 0
			for _, u := range us {
				if u.kind == kSeg {
					continue
				}
				t := textOf(u.f[h.r.nodeVal])
				if t == nil || h.e.nodeIntact(s, u) {
					continue
				}
				changed++
				if argAt(s, t, linInt(2)) && u.at != nil && s.cons.entailsEq(u.at.sub(at)) {
					found = true
				}
			}
			h.prove("C21", "LSET replaces the element at the offset", pos, s, found && changed == 1, "LSET does not put its value at element %s and there only", show(s, at))
			h.prove("C14", "LSET stores its value", pos, s, changed >= 1, "LSET succeeds without storing its value")
		})
	case "lrange":
		h.lrange(st, ks, rp)
	case "lpop", "rpop":
		h.popped(st, ks, rp)
	}
}

// elemIs: t is the element of the stored list at position at.
func (h *hc) elemIs(st *State, t *Term, key *Term, at *Lin) bool {
	t = st.normTerm(t)
	if t.op != "elem" || len(t.args) != 2 {
		return false
	}
	if !st.sameTerm(t.args[0], tblTerm(key)) {
		return false
	}
	return st.cons.entailsEq(termLin(t.args[1]).sub(at))
}

// sliceElems describes a slice whose element $j is the stored element first+step*$j.
func (h *hc) sliceElems(st *State, rp Reply) (first *Lin, step int64, list *Term, ok, vague bool) {
	back := st.obj(rp.slice.o)
	if back == nil || rp.kind != "array" {
		return nil, 0, nil, false, vague
	}
	if !st.cons.entailsEq(rp.slice.off) {
		return nil, 0, nil, false, vague
	}
	get := func(v V) (*Term, *Lin) {
		it := h.itemOf(st, v)
		t := textOf(it.v)
		if t == nil {
			vague = true
			return nil, nil
		}
		t = st.normTerm(t)
		t.walk(func(x *Term) {
			if x.op != "lin" && len(x.args) == 0 && strings.HasPrefix(x.s, "$e") || strings.HasPrefix(x.s, "ex#") {
				vague = true
			}
		})
		if t.op != "elem" || len(t.args) != 2 {
			return nil, nil
		}
		return t.args[0], termLin(t.args[1])
	}
	j := termLin(jVar)
	have := false
	add := func(l *Term, a *Lin, at *Lin) bool {
		if l == nil {
			return false
		}
		if list != nil && list != l {
			return false
		}
		list = l
		for _, s := range []int64{1, -1} {
			if have && s != step {
				continue
			}
			f := a.sub(at.scale(big.NewRat(s, 1)))
			if at.key() == j.key() && mentions(f, jVar) {
				continue
			}
			if have && !st.cons.entailsEq(f.sub(first)) {
				continue
			}
			first, step, have = f, s, true
			return true
		}
		return false
	}
	for _, t := range back.tmpl {
		l, a := get(t.v)
		at := j
		if t.at != nil {
			at = linInt(*t.at)
		}
		if !add(l, a, at) {
			return nil, 0, nil, false, vague
		}
	}
	for _, k := range sortedExKeys(back.ex) {
		if back.n != nil && st.cons.entailsLe(back.n.addInt(-k)) {
			continue
		}
		l, a := get(back.ex[k])
		if !add(l, a, linInt(k)) {
			return nil, 0, nil, false, vague
		}
	}
	for _, x := range back.pend {
		l, a := get(x.v)
		if !add(l, a, x.idx) {
			return nil, 0, nil, false, vague
		}
	}
	return first, step, list, have, vague
}

func mentions(l *Lin, t *Term) bool {
	hit := false
	for _, m := range l.t {
		m.a.walk(func(x *Term) {
			if x == t {
				hit = true
			}
		})
	}
	return hit
}

func (h *hc) lrange(st *State, ks *Obj, rp Reply) {
	en := entOf(st, ks, 0)
	if en == nil || !en.have || !en.in0 {
		return
	}
	pos := h.fn.Pos()
	key := st.normTerm(en.key)
	n := cardOf(key)
	s0, e0 := termLin(iparse(argT(1), "10")), termLin(iparse(argT(2), "10"))
	conds := []*B{bLe(s0.addInt(1)), bLe(e0.addInt(1)), bLe(s0.add(n).addInt(1)), bLe(e0.sub(n).addInt(1)), bLe(e0.add(n).addInt(1))}
	split(st, conds, func(s *State) {
		lo, hi := s0, e0
		if v, _ := s.decide(bLe(s0.addInt(1))); v {
			lo = s0.add(n)
			if v, _ := s.decide(bLe(lo.addInt(1))); v {
				lo = linInt(0)
			}
		}
		if v, _ := s.decide(bLe(e0.addInt(1))); v {
			hi = e0.add(n)
		} else if v, _ := s.decide(bLe(e0.sub(n).addInt(1))); !v {
			hi = n.addInt(-1)
		}
		split(s, []*B{bLe(lo.sub(hi)), bLe(lo.sub(n).addInt(1)), bLe(hi.neg())}, func(s *State) {
			a, _ := s.decide(bLe(lo.sub(hi)))
			b, _ := s.decide(bLe(lo.sub(n).addInt(1)))
			c, _ := s.decide(bLe(hi.neg()))
			empty := !(a && b && c)
			if rp.kind == "empty" || rp.kind == "nil" {
				h.prove("C21", "LRANGE answers the whole interval", pos, s, empty, "LRANGE answers an empty list for offsets inside the list")
				return
			}
			if rp.kind != "array" {
				return
			}
			want := hi.sub(lo).addInt(1)
			if empty {
				want = linInt(0)
			}
			if !h.prove("C21", "LRANGE answers the whole interval", pos, s, s.cons.entailsEq(rp.n.sub(want)), "LRANGE answers %s elements where the interval has %s", show(s, rp.n), show(s, want)) || empty {
				return
			}
			first, step, list, ok, vague := h.sliceElems(s, rp)
			if s.cons.entailsEq(want.addInt(-1)) {
				step = 1
			}
			if vague {
				h.rep.Notes["order of the answered elements not followed"]++
				return
			}
			good := ok && step == 1 && s.sameTerm(list, tblTerm(key)) && s.cons.entailsEq(first.sub(lo))
			h.prove("C21", "LRANGE answers the elements in order", pos, s, good, "LRANGE does not answer elements %s to %s in order (first %s, step %d)", show(s, lo), show(s, hi), show(s, first), step)
		})
	})
}

// popped: the elements answered are the ones that left the list.
func (h *hc) popped(st *State, ks *Obj, rp Reply) {
	if rp.kind != "array" && rp.kind != "bulk" {
		return
	}
	en := entOf(st, ks, 0)
	if en == nil || !en.have || !en.in0 {
		return
	}
	pos := h.fn.Pos()
	key := st.normTerm(en.key)
	n := cardOf(key)
	cnt := linInt(1)
	if rp.kind == "array" {
		cnt = rp.n
	}
	// what is left
	left := linInt(0)
	if en.in {
		c := h.container(st, en.v)
		if c == nil || c.card == nil {
			return
		}
		left = c.card
		if us, ok := h.units(st, c.obj); ok {
			at := linInt(0)
			if h.name == "lpop" {
				at = n.sub(left)
			}
			good := true
			for _, u := range us {
				if !h.holdsFrom(st, u, tblTerm(key), at) {
					good = false
				}
				at = at.add(unitLen(u))
			}
			h.prove("C20", "popping leaves the other elements alone", pos, st, good, "after %s the remaining list is not the original one without its popped end", h.name)
		}
	}
	h.prove("C20", "every popped element is answered once", pos, st, st.cons.entailsEq(n.sub(left).sub(cnt)), "%s answers %s elements but %s left the list", h.name, show(st, cnt), show(st, n.sub(left)))
	if rp.kind != "array" {
		return
	}
	first, step, list, ok, vague := h.sliceElems(st, rp)
	if vague {
		h.rep.Notes["order of the answered elements not followed"]++
		return
	}
	want, ws := linInt(0), int64(1)
	if h.name == "rpop" {
		want, ws = n.addInt(-1), -1
	}
	if st.cons.entailsEq(cnt.addInt(-1)) {
		step = ws
	}
	h.prove("C20", "the popped elements are answered in order", pos, st, ok && step == ws && st.sameTerm(list, tblTerm(key)) && st.cons.entailsEq(first.sub(want)),
		"%s does not answer the elements it removed from its end (first %s, step %d)", h.name, show(st, first), step)
}

// holdsFrom: unit u holds consecutive elements of the list starting at position at.
func (h *hc) holdsFrom(st *State, u *Obj, list *Term, at *Lin) bool {
	l, a := h.e.unitPos(st, u)
	return l != nil && st.sameTerm(l, list) && st.cons.entailsEq(a.sub(at))
}

// pushed: the list is the old one with the arguments at one end.
func (h *hc) pushed(st *State, c *container, en *ent) {
}

// inserted: the list is the old one with the value next to the pivot.
func (h *hc) inserted(st *State, c *container, en *ent, rp Reply) {
}

// witnessed: placeholder for the rules about an arbitrary further argument.
func (h *hc) witnessed(st *State, ks *Obj) {}
