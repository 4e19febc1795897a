package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// List commands, followed on every list of a few elements: each element is either equal to the element
// the command names or not, offsets and counts are arbitrary numbers of which a path knows what it compared.

// listWorlds are the lists a command may meet; nil when there is none.
func (a *answers) listWorlds(cmd acmd) []*acont {
	out := []*acont{nil}
	level := [][]*fv{nil}
	for n := 1; n <= cmd.most; n++ {
		var nx [][]*fv
		for _, l := range level {
			o := a.sym(fmt.Sprintf("element %d", n), types.Typ[types.String])
			nx = append(nx, append(append([]*fv(nil), l...), o))
			if cmd.mems > 0 {
				nx = append(nx, append(append([]*fv(nil), l...), a.mems[0]))
			}
		}
		level = nx
		for _, l := range level {
			out = append(out, &acont{kind: "list", items: l, in: map[*fv]bool{}, val: map[*fv]*fv{}})
		}
	}
	return out
}

// putList builds a list; what was made for it is returned.
func (a *answers) putList(st *fst, k, info *fv, c *acont) []*fv {
	f := a.f
	o := a.sym("value of "+k.s, types.NewPointer(a.r.listT))
	st.heap[a.field(info, a.r.keyInfo, a.r.kiValue)] = f.mk("iface", o.t.String(), o.t, o)
	objs := []*fv{o}
	var nodes []*fv
	for i, v := range c.items {
		n := a.sym(fmt.Sprintf("node %d of %s", i+1, k.s), types.NewPointer(a.r.nodeT))
		nodes = append(nodes, n)
		st.heap[a.field(n, a.r.nodeT, a.r.nodeVal)] = v
		if v.op == "sym" {
			f.assume(st, f.cmp(token.EQL, v, v), true)
			for _, e := range a.mems {
				if v != e {
					f.assume(st, f.cmp(token.EQL, v, e), false)
				}
			}
		}
	}
	at := func(i int) *fv {
		if i < 0 || i >= len(nodes) {
			return f.null()
		}
		return nodes[i]
	}
	for i, n := range nodes {
		st.heap[a.field(n, a.r.nodeT, a.r.nodeNext)] = at(i + 1)
		st.heap[a.field(n, a.r.nodeT, a.r.nodePrev)] = at(i - 1)
	}
	st.heap[a.field(o, a.r.listT, a.r.listHead)] = at(0)
	st.heap[a.field(o, a.r.listT, a.r.listTail)] = at(len(nodes) - 1)
	st.heap[a.field(o, a.r.listT, a.r.listLen)] = f.num(int64(len(nodes)))
	objs = append(objs, nodes...)
	objs = append(objs, info)
	for i, x := range objs {
		f.assume(st, f.cmp(token.EQL, x, f.null()), false)
		f.assume(st, f.cmp(token.EQL, x, x), true)
		for _, y := range objs[:i] {
			f.assume(st, f.cmp(token.EQL, x, y), false)
		}
	}
	return objs
}

// readList reads a list from its head.
func (a *answers) readList(st *fst, k, x *fv, c *acont) bool {
	f := a.f
	if !ptrTo(x.t, a.r.listT) {
		return false
	}
	load := func(o *fv, t *types.Named, name string) *fv {
		v := st.heap[a.field(o, t, name)]
		if v == nil && o.op == "obj" {
			v = f.null()
		}
		return v
	}
	var before *fv = f.null()
	wrong := ""
	link := func(v, want *fv, what string) {
		if v != nil && v != want && wrong == "" && (v.isNil() || v.op == "obj" || v.op == "sym") {
			wrong = what
		}
	}
	for n := load(x.a[0], a.r.listT, a.r.listHead); ; n = load(n, a.r.nodeT, a.r.nodeNext) {
		if n == nil || len(c.items) > 12 {
			return false
		}
		if n.isNil() {
			link(load(x.a[0], a.r.listT, a.r.listTail), before, "the tail is not the last element")
			if wrong != "" {
				a.bad(aLinks, a.c.p.pos(a.fn.Pos()), "%s: %s of %s afterwards%s", a.what, wrong, k.s, path(st))
			}
			return true
		}
		link(load(n, a.r.nodeT, a.r.nodePrev), before, fmt.Sprintf("element %d does not lead back to the one before", len(c.items)+1))
		before = n
		v := load(n, a.r.nodeT, a.r.nodeVal)
		if v == nil {
			return false
		}
		if v.isNil() {
			v = f.str("")
		}
		c.items = append(c.items, v)
	}
}

// fits: the path is taken with these numbers, as far as it compares nothing else.
func (a *answers) fits(st *fst, n, m int64) bool {
	var val func(v *fv) (int64, bool)
	val = func(v *fv) (int64, bool) {
		if k, ok := v.int(); ok {
			return k, true
		}
		switch {
		case v == a.cnt:
			return n, true
		case v == a.stop:
			return m, true
		case v.op == "conv" && len(v.a) == 1 && intLike(v.a[0]):
			return val(v.a[0])
		case v.op == "sum":
			r := int64(0)
			for i, c := range strings.Fields(v.s) {
				x, ok := val(v.a[i])
				if !ok {
					return 0, false
				}
				var k int64
				fmt.Sscan(c, &k)
				r += k * x
			}
			return r, true
		}
		return 0, false
	}
	for c, b := range st.facts {
		if c.op != "lt" && c.op != "eq" {
			continue
		}
		x, ok1 := val(c.a[0])
		y, ok2 := val(c.a[1])
		if ok1 && ok2 && (c.op == "lt" && (x < y) != b || c.op == "eq" && (x == y) != b) {
			return false
		}
	}
	return true
}

func (a *answers) checkList(cmd acmd, w *aworld, st *fst, res *fv) {
	f := a.f
	at := a.c.p.pos(a.fn.Pos())
	if res == nil || res.op != "tup" || len(res.a) != 2 {
		a.vague("the result is %s", clean(res))
		return
	}
	aw, lens, _, ok := a.final(st, false)
	if !ok {
		a.vague("the state after %s is not known", a.what)
		return
	}
	got, failed := areply{}, false
	if b, ok := f.truth(st, f.cmp(token.EQL, res.a[1], f.null())); ok && b {
		if got, ok = a.decode(st, res.a[0]); !ok {
			a.vague("%s answers %s", a.what, clean(res.a[0]))
			return
		}
		for _, e := range got.elems {
			if e.op == "unkseq" {
				a.vague("%s answers %s", a.what, clean(e))
				return
			}
		}
	} else if ok || res.a[1].op == "err" || f.nonNil(st, res.a[1]) {
		failed = true
	} else {
		a.vague("whether %s fails is not known", a.what)
		return
	}
	k := a.keys[0]
	var old, now []*fv
	if c := w.keys[k]; c != nil {
		old = c.items
	}
	if c := aw.keys[k]; c != nil {
		if c.kind != "list" {
			a.bad(aOrder, at, "%s: %s is of another kind afterwards%s", a.what, k.s, path(st))
			return
		}
		now = c.items
		if len(now) == 0 {
			a.bad(aEmpty, at, "%s leaves %s with nothing in it%s", a.what, k.s, path(st))
			return
		}
		if n, ok := lens[k].int(); ok && n != int64(len(now)) {
			a.bad(aSize, at, "%s: %s counts %d elements, but holds %d%s", a.what, k.s, n, len(now), path(st))
			return
		}
	}
	grid := func(s *fv) []int64 {
		used := false
		for _, x := range a.argv {
			used = used || x.op == "numtext" && x.a[0] == s
		}
		if !used {
			return []int64{0}
		}
		var out []int64
		for i := int64(-len(old)) - 2; i <= int64(len(old))+2; i++ {
			out = append(out, i)
		}
		return append(out, 1000, -1000)
	}
	text := func(l []*fv) string {
		var s []string
		for _, e := range l {
			s = append(s, clean(e))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	for _, n := range grid(a.cnt) {
		for _, m := range grid(a.stop) {
			if !a.fits(st, n, m) {
				continue
			}
			a.c.obl()
			a.reached[[2]int64{n, m}] = true
			items, want := cmd.list(a, append([]*fv(nil), old...), a.argv, n, m)
			what := a.what
			for _, x := range a.argv {
				if x.op == "numtext" && x.a[0] == a.cnt {
					what += fmt.Sprintf(", count %d", n)
				}
				if x.op == "numtext" && x.a[0] == a.stop {
					what += fmt.Sprintf(", stop %d", m)
				}
			}
			if failed != (want.kind == "error") {
				a.bad(aAnswer, at, "%s: %s%s", what, map[bool]string{true: "an error is answered", false: "no error is answered"}[failed], path(st))
				return
			}
			same := len(items) == len(now)
			for i := range now {
				if !plain(now[i]) {
					a.vague("%s: an element is %s", what, clean(now[i]))
					return
				}
				same = same && a.same(st, now[i], items[i])
			}
			if !same {
				a.bad(aOrder, at, "%s: the list holds %s afterwards, but %s is due%s", what, text(now), text(items), path(st))
				return
			}
			if failed {
				continue
			}
			save := a.what
			a.what = what
			a.answer(want, got, st, at)
			a.what = save
		}
	}
}

// crashed: a command must not panic on a list.
func (a *answers) crashed(st *fst) {
	at := a.c.p.pos(a.fn.Pos())
	if st.pos != nil {
		at = a.c.p.pos(st.pos.Pos())
	}
	for n := int64(-8); n <= 8; n++ {
		for m := int64(-8); m <= 8; m++ {
			if a.fits(st, n, m) {
				a.bad(aAnswer, at, "%s panics: %s%s", a.what, st.panic, path(st))
				return
			}
		}
	}
}

func aPush(front bool) func(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
	return func(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
		for _, e := range args[1:] {
			if front {
				l = append([]*fv{e}, l...)
			} else {
				l = append(l, e)
			}
		}
		return l, num2(int64(len(l)))
	}
}

func aPop(front bool) func(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
	return func(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
		if len(args) == 1 {
			n = 1
		}
		switch {
		case n <= 0:
			return l, areply{kind: "error"}
		case len(l) == 0:
			return l, areply{kind: "nil"}
		}
		r := areply{kind: "array"}
		for ; n > 0 && len(l) > 0; n-- {
			if front {
				r.elems, l = append(r.elems, l[0]), l[1:]
			} else {
				r.elems, l = append(r.elems, l[len(l)-1]), l[:len(l)-1]
			}
		}
		return l, r
	}
}

func aListLen(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
	return l, num2(int64(len(l)))
}

func aRange(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
	size := int64(len(l))
	r := areply{kind: "array"}
	if n < 0 {
		n += size
	}
	if m < 0 {
		m += size
	}
	for i := int64(0); i < size; i++ {
		if n <= i && i <= m {
			r.elems = append(r.elems, l[i])
		}
	}
	return l, r
}

func aOffset(l []*fv, n int64) (int64, bool) {
	if n < 0 {
		n += int64(len(l))
	}
	return n, n >= 0 && n < int64(len(l))
}

func aIndex(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
	i, ok := aOffset(l, n)
	if !ok {
		return l, areply{kind: "nil"}
	}
	return l, areply{kind: "bulk", v: l[i]}
}

func aSet(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
	i, ok := aOffset(l, n)
	if !ok {
		return l, areply{kind: "error"}
	}
	l[i] = args[2]
	return l, areply{kind: "simple", v: a.f.str("OK")}
}

func aRem(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
	gone := int64(0)
	most := n
	if n < 0 {
		most = -n
	}
	keep := make([]bool, len(l))
	for j := range l {
		i := j
		if n < 0 {
			i = len(l) - 1 - j
		}
		keep[i] = l[i] != args[2] || most != 0 && gone == most
		if !keep[i] {
			gone++
		}
	}
	var out []*fv
	for i, e := range l {
		if keep[i] {
			out = append(out, e)
		}
	}
	return out, num2(gone)
}

func aInsert(a *answers, l, args []*fv, n, m int64) ([]*fv, areply) {
	for i, e := range l {
		if e != args[2] {
			continue
		}
		if t, _ := args[1].text(); strings.EqualFold(t, "after") {
			i++
		}
		l = append(l[:i:i], append([]*fv{args[3]}, l[i:]...)...)
		return l, num2(int64(len(l)))
	}
	return l, areply{kind: "error"}
}
