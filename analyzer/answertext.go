package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
)

// String commands, followed on keys that hold a text, a value of another kind, or nothing.

func (a *answers) putText(st *fst, k, info *fv, c *acont) {
	f := a.f
	if c.kind == "string" {
		st.heap[a.field(info, a.r.keyInfo, a.r.kiType)] = f.str(a.kinds["string"])
		st.heap[a.field(info, a.r.keyInfo, a.r.kiValue)] = f.mk("iface", "string", types.Typ[types.String], c.items[0])
		f.assume(st, f.cmp(token.EQL, c.items[0], c.items[0]), true)
		return
	}
	st.heap[a.field(info, a.r.keyInfo, a.r.kiType)] = f.str(a.kinds["set"])
	o := a.sym("value of "+k.s, types.NewPointer(a.r.setT))
	st.heap[a.field(info, a.r.keyInfo, a.r.kiValue)] = f.mk("iface", o.t.String(), o.t, o)
	f.assume(st, f.cmp(token.EQL, o, f.null()), false)
}

func (a *answers) textWorlds() []*acont {
	none := func(kind string, items ...*fv) *acont {
		return &acont{kind: kind, items: items, in: map[*fv]bool{}, val: map[*fv]*fv{}}
	}
	return []*acont{none("string"), none("other"), nil}
}

// readText is what a key holds.
func (a *answers) readText(st *fst, k *fv, old *acont) (*acont, bool) {
	f := a.f
	gm := a.gomap(a.ks)
	in, ok := a.flag(st, a.cIn(gm, k))
	if !ok {
		return nil, false
	}
	if !in {
		return nil, true
	}
	rec := bareTerm(st.heap[a.cAt(gm, k)])
	if rec == nil {
		return nil, false
	}
	t, v := st.heap[a.field(rec, a.r.keyInfo, a.r.kiType)], st.heap[a.field(rec, a.r.keyInfo, a.r.kiValue)]
	if t == nil || v == nil || v.op != "iface" {
		return nil, false
	}
	if s, ok := t.text(); ok && s == a.kinds["string"] && isBasic(v.t, types.IsString) {
		return &acont{kind: "string", items: []*fv{v.a[0]}}, true
	}
	if old != nil && old.kind == "other" && v.a[0] == a.sym("value of "+k.s, types.NewPointer(a.r.setT)) && t == f.str(a.kinds["set"]) {
		return &acont{kind: "other"}, true
	}
	return &acont{kind: "odd"}, true
}

// written is a number as text.
func (a *answers) written(n *fv) *fv { return a.f.mk("inttext", "10", types.Typ[types.String], n) }

func (a *answers) sameText(st *fst, x, y *fv) bool {
	x, y = bareTerm(x), bareTerm(y)
	num := func(v *fv) *fv {
		if v.op == "inttext" && v.s == "10" {
			return bareTerm(v.a[0])
		}
		if t, ok := v.text(); ok {
			if n, err := strconv.ParseInt(t, 10, 64); err == nil && strconv.FormatInt(n, 10) == t {
				return a.f.num(n)
			}
		}
		return nil
	}
	if n, m := num(x), num(y); n != nil && m != nil {
		return a.sameNum(st, n, m)
	}
	return a.same(st, x, y)
}

func (a *answers) sameNum(st *fst, x, y *fv) bool {
	x, y = bareTerm(x), bareTerm(y)
	return x == y || a.f.entails(st, x, y, 0) && a.f.entails(st, y, x, 0)
}

func (a *answers) checkText(cmd acmd, w *aworld, st *fst, res *fv) {
	f := a.f
	at := a.c.p.pos(a.fn.Pos())
	if st.m["a:vague"] != "" {
		return
	}
	if res == nil || res.op != "tup" || len(res.a) != 2 {
		a.vague("the result is %s", clean(res))
		return
	}
	failed := false
	if b, ok := f.truth(st, f.cmp(token.EQL, res.a[1], f.null())); !ok || !b {
		if !ok && res.a[1].op != "err" && !f.nonNil(st, res.a[1]) {
			a.vague("whether %s fails is not known", a.what)
			return
		}
		failed = true
	}
	x := w.clone()
	k := a.argv[0]
	want := areply{}
	intT := types.Typ[types.Int]
	text := func(k *fv) *fv {
		if c := w.keys[k]; c != nil && c.kind == "string" {
			return c.items[0]
		}
		return nil
	}
	put := func(k, v *fv) { x.keys[k] = &acont{kind: "string", items: []*fv{v}} }
	other := w.keys[k] != nil && w.keys[k].kind == "other"
	fails := false
	add := func(d *fv) {
		switch {
		case other:
			fails = true
		case w.keys[k] == nil:
			put(k, a.written(d))
			want = areply{kind: "int", v: d}
		default:
			if st.m["a:badnum"] != "" {
				fails = true
				return
			}
			n := f.mk("intof", "10", types.Typ[types.Int64], text(k))
			s := f.sum(token.ADD, n, d, types.Typ[types.Int64])
			put(k, a.written(s))
			want = areply{kind: "int", v: s}
		}
	}
	switch a.name {
	case "set":
		put(k, a.argv[1])
		want = areply{kind: "simple", v: f.str("OK")}
	case "mset":
		for i := 0; i+1 < len(a.argv); i += 2 {
			put(a.argv[i], a.argv[i+1])
		}
		want = areply{kind: "simple", v: f.str("OK")}
	case "get":
		fails = other
		if want = (areply{kind: "nil"}); text(k) != nil {
			want = areply{kind: "bulk", v: text(k)}
		}
	case "mget":
		want.kind = "array"
		for _, k := range a.argv {
			if t := text(k); t != nil {
				want.elems = append(want.elems, t)
			} else {
				want.elems = append(want.elems, f.null())
			}
		}
	case "append":
		v := a.argv[1]
		switch {
		case other:
			fails = true
		case w.keys[k] == nil:
			put(k, v)
			want = areply{kind: "int", v: f.length(st, v)}
		default:
			put(k, f.cat(text(k), v))
			want = areply{kind: "int", v: f.sum(token.ADD, f.length(st, text(k)), f.length(st, v), intT)}
		}
	case "incr":
		add(f.num(1))
	case "decr":
		add(f.num(-1))
	case "incrby":
		add(a.cnt)
	case "decrby":
		add(f.sum(token.SUB, f.num(0), a.cnt, types.Typ[types.Int64]))
	}
	if fails {
		x = w
	}
	for _, k := range a.keys {
		got, ok := a.readText(st, k, w.keys[k])
		if !ok {
			a.vague("the state after %s is not known", a.what)
			return
		}
		due := x.keys[k]
		a.c.obl()
		switch {
		case failed && !fails:
		case due == nil && got == nil:
		case due == nil:
			a.bad(aStored, at, "%s: %s holds something afterwards%s", a.what, k.s, path(st))
		case got == nil:
			a.bad(aStored, at, "%s: %s is gone afterwards%s", a.what, k.s, path(st))
		case due.kind != got.kind:
			a.bad(aStored, at, "%s: %s is of another kind afterwards%s", a.what, k.s, path(st))
		case due.kind == "string" && !a.sameText(st, got.items[0], due.items[0]):
			if !plain(got.items[0]) {
				a.vague("%s: %s holds %s", a.what, k.s, clean(got.items[0]))
				continue
			}
			a.bad(aText, at, "%s: %s holds %s afterwards, but %s is due%s", a.what, k.s, clean(got.items[0]), clean(due.items[0]), path(st))
		}
	}
	switch {
	case failed && !fails:
		if want.kind == "int" && (text(k) != nil || a.name == "decrby") && a.name != "append" && a.bounded(st, a.asInt(text(k))) {
			return // out of range: C23
		}
		a.bad(aAnswer, at, "%s answers an error%s", a.what, path(st))
		return
	case failed:
		return
	case fails:
		a.bad(aAnswer, at, "%s is not refused%s", a.what, path(st))
		return
	}
	got, ok := a.decode(st, res.a[0])
	if !ok {
		a.vague("%s answers %s", a.what, clean(res.a[0]))
		return
	}
	for _, e := range got.elems {
		if e.op == "unkseq" || e.op == "seqlost" {
			a.vague("%s answers %s", a.what, clean(e))
			return
		}
	}
	if want.kind == "array" {
		same := got.kind == "array" && len(got.elems) == len(want.elems)
		for i := range want.elems {
			same = same && (a.same(st, got.elems[i], want.elems[i]) || got.elems[i].isNil() && want.elems[i].isNil())
		}
		if !same {
			for _, e := range got.elems {
				if !plain(e) {
					a.vague("%s answers %s", a.what, clean(e))
					return
				}
			}
			a.bad(aAnswer, at, "%s answers %s%s", a.what, fmt.Sprint(cleanAll(got.elems)), path(st))
		}
		return
	}
	a.answer(want, got, st, at)
}

func cleanAll(vs []*fv) []string {
	var out []string
	for _, v := range vs {
		out = append(out, clean(v))
	}
	return out
}

// bounded tells whether a path depends on the size of the numbers added.
func (a *answers) bounded(st *fst, n *fv) bool {
	for c := range st.facts {
		if a.cnt != nil && c.has(a.cnt) || n != nil && c.has(n) {
			return true
		}
	}
	return false
}

func (a *answers) asInt(text *fv) *fv {
	if text == nil {
		return nil
	}
	return a.f.mk("intof", "10", types.Typ[types.Int64], text)
}
