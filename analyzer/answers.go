package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Set and hash commands, followed to the end on a keyspace of which everything is arbitrary but a few
// named entries: for each of them the analysis knows whether it is there, keeps that through every map
// operation, and treats everything else in a map as "others", which an iteration may visit any number of
// times. What holds for the named entries holds for every entry, as nothing else is assumed of them.

const (
	aMembers = "an answer names exactly the entries it is defined to"
	aStored  = "a command changes exactly the entries it is defined to"
	aAnswer  = "a query answers exactly what is stored"
	aCount   = "the integer is the number of entries it stands for"
	aText    = "a value is answered with the text that was stored"
	aShared  = "no two keys share a value"
	aEmpty   = "a collection emptied by removals no longer exists"
	aSize    = "the recorded size is the number of entries stored"
	aLinks   = "a list reads the same from both ends"
	aOrder   = "a list holds exactly the elements it is defined to, in order"
)

type acont struct {
	kind string
	in   map[*fv]bool
	val  map[*fv]*fv // of a named entry
	rest bool

	items []*fv // of a list
}

type aworld struct {
	keys  map[*fv]*acont // nil: no such key
	match map[*fv]bool   // whether the pattern matches it
}

func (w *aworld) clone() *aworld {
	n := &aworld{keys: map[*fv]*acont{}, match: map[*fv]bool{}}
	for k, b := range w.match {
		n.match[k] = b
	}
	for k, c := range w.keys {
		if c == nil {
			n.keys[k] = nil
			continue
		}
		x := &acont{kind: c.kind, rest: c.rest, items: append([]*fv(nil), c.items...), in: map[*fv]bool{}, val: map[*fv]*fv{}}
		for e, b := range c.in {
			x.in[e] = b
		}
		for e, v := range c.val {
			x.val[e] = v
		}
		n.keys[k] = x
	}
	return n
}

func (c *acont) size() int64 {
	n := int64(0)
	for _, b := range c.in {
		if b {
			n++
		}
	}
	return n
}

// areply is an answer.
type areply struct {
	kind  string // int, nil, bulk, array, simple, error
	v     *fv
	elems []*fv
	any   bool // the order is free
	group int  // elements that belong together when the order is free
}

type answers struct {
	c          *ctx
	f          *flow
	r          *Roles
	want       map[string]bool
	name       string
	fn         *ssa.Function
	keys, mems []*fv
	vals       *fv
	argv       []*fv
	ks         *fv
	what       string
	said       map[string]bool
	seen       map[string]int
	kinds      map[string]string // of a stored value -> its tag
	form       string            // of a recognised number
	pop        bool
	cnt        *fv
	pattern    *fv
	lists      bool
	zsets      bool
	texts      bool
	stop       *fv
	reached    map[[2]int64]bool
}

func (a *answers) bad(rule, pos, form string, x ...interface{}) {
	if a.want != nil && !a.want[rule] {
		return
	}
	m := fmt.Sprintf(form, x...)
	if !a.said[rule+a.name] {
		a.said[rule+a.name] = true
		a.c.bad(rule, pos, "%s", m)
	}
}

func (a *answers) vague(form string, x ...interface{}) {
	m := a.name + ": " + fmt.Sprintf(form, x...)
	if !a.said[m] {
		a.said[m] = true
		a.c.undecided("%s", m)
	}
}

func (a *answers) named(k *fv) bool {
	for _, x := range a.keys {
		if x == k {
			return true
		}
	}
	for _, x := range a.mems {
		if x == k {
			return true
		}
	}
	return false
}

func (a *answers) isKey(k *fv) bool {
	for _, x := range a.keys {
		if x == k {
			return true
		}
	}
	return false
}

func bareTerm(v *fv) *fv {
	for v != nil && (v.op == "iface" || v.op == "conv") && len(v.a) == 1 {
		v = v.a[0]
	}
	return v
}

// ---- maps

func (a *answers) cIn(m, k *fv) *fv { return a.f.mk("in", "", nil, m, k) }
func (a *answers) cAt(m, k *fv) *fv { return a.f.mk("at", "", nil, m, k) }
func (a *answers) cRest(m *fv) *fv  { return a.f.mk("rest", "", nil, m) }
func (a *answers) gomap(m *fv) *fv  { return a.f.mk("gomap", "", nil, m) }

// newMap starts an empty map.
func (a *answers) newMap(st *fst, gm *fv) {
	for _, k := range append(append([]*fv(nil), a.keys...), a.mems...) {
		st.heap[a.cIn(gm, k)] = a.f.bool(false)
	}
	st.heap[a.cRest(gm)] = a.f.bool(false)
}

func (a *answers) known(st *fst, gm *fv) bool { return gm != nil && st.heap[a.cRest(gm)] != nil }

func (a *answers) flag(st *fst, cell *fv) (bool, bool) {
	v := st.heap[cell]
	if v == nil {
		return false, false
	}
	return v.boolean()
}

func (a *answers) rest(st *fst, gm *fv) bool {
	b, ok := a.flag(st, a.cRest(gm))
	return b || !ok
}

// count of the named entries that are there, and the terms for them.
func (a *answers) count(st *fst, gm *fv) int64 {
	n := int64(0)
	for _, k := range append(append([]*fv(nil), a.keys...), a.mems...) {
		if b, ok := a.flag(st, a.cIn(gm, k)); ok && b {
			n++
		}
	}
	return n
}

// lookup of a key: whether it is there and its value.
func (a *answers) lookup(st *fst, gm, k *fv) []fout {
	f := a.f
	k = bareTerm(k)
	elem := types.NewInterfaceType(nil, nil)
	there := func(s *fst) *fv {
		if v := s.heap[a.cAt(gm, k)]; v != nil {
			return v
		}
		return f.mk("oval", "", elem, gm, k)
	}
	if b, ok := a.flag(st, a.cIn(gm, k)); ok {
		if b {
			return one(st, f.tup(there(st), f.bool(true)))
		}
		return one(st, f.tup(f.null(), f.bool(false)))
	}
	if a.mixed(k) {
		st.m["a:vague"] = "1"
		a.vague("a key made from %s", clean(k))
	}
	if !a.rest(st, gm) {
		return one(st, f.tup(f.null(), f.bool(false)))
	}
	q := st.clone()
	st.heap[a.cIn(gm, k)] = f.bool(true)
	q.heap[a.cIn(gm, k)] = f.bool(false)
	return []fout{{st, f.tup(there(st), f.bool(true))}, {q, f.tup(f.null(), f.bool(false))}}
}

// mixed: a key made from a named one in a way that may leave it as it was.
func (a *answers) mixed(k *fv) bool {
	if a.named(k) {
		return false
	}
	hit := false
	for _, n := range append(append([]*fv(nil), a.keys...), a.mems...) {
		hit = hit || k.has(n)
	}
	if !hit {
		return false
	}
	if k.op == "app" {
		for _, s := range []string{"strings.To", "strings.Trim", "strings.Replace", "strings.Title", "strings.Repeat"} {
			if strings.HasPrefix(k.s, s) {
				return false
			}
		}
	}
	return k.op != "cat"
}

func (a *answers) update(st *fst, gm, k, v *fv) {
	f := a.f
	k = bareTerm(k)
	if a.mixed(k) {
		st.m["a:vague"] = "1"
		a.vague("a key made from %s", clean(k))
	}
	st.heap[a.cIn(gm, k)] = f.bool(true)
	if a.named(k) {
		st.heap[a.cAt(gm, k)] = v
	} else {
		delete(st.heap, a.cAt(gm, k))
		st.heap[a.cRest(gm)] = f.bool(true)
	}
}

func (a *answers) remove(st *fst, gm, k *fv) {
	k = bareTerm(k)
	if a.mixed(k) {
		st.m["a:vague"] = "1"
		a.vague("a key made from %s", clean(k))
	}
	st.heap[a.cIn(gm, k)] = a.f.bool(false)
	delete(st.heap, a.cAt(gm, k))
}

// next entry of an iteration.
func (a *answers) next(p *fpath, x *ssa.Next) ([]fout, bool) {
	st, f := p.st, a.f
	it := p.env[x.Iter]
	if it == nil || it.op != "iter" || len(it.a) != 1 || !a.known(st, it.a[0]) {
		return nil, false
	}
	gm := it.a[0]
	pre := fmt.Sprintf("a:%d:", it.id)
	var outs []fout
	wait := false
	for _, k := range append(append([]*fv(nil), a.keys...), a.mems...) {
		in, ok := a.flag(st, a.cIn(gm, k))
		mark := pre + k.s
		if !ok || !in || st.m[mark] != "" {
			continue
		}
		wait = true
		q := st.clone()
		q.m[mark] = "1"
		v := q.heap[a.cAt(gm, k)]
		if v == nil {
			v = f.mk("oval", "", types.NewInterfaceType(nil, nil), gm, k)
		}
		outs = append(outs, fout{q, f.tup(f.bool(true), k, v)})
	}
	if a.rest(st, gm) {
		q := st.clone()
		k := f.fresh(q, x, "okey", types.Typ[types.String])
		for _, n := range append(append([]*fv(nil), a.keys...), a.mems...) {
			f.assume(q, f.cmp(token.EQL, k, n), false)
		}
		q.heap[a.cIn(gm, k)] = f.bool(true)
		v := f.mk("oval", "", types.NewInterfaceType(nil, nil), gm, k)
		outs = append(outs, fout{q, f.tup(f.bool(true), k, v)})
	}
	if !wait {
		for k := range st.m {
			if strings.HasPrefix(k, pre) {
				delete(st.m, k)
			}
		}
		outs = append(outs, fout{st, f.tup(f.bool(false), f.mk("nokey", "", nil), f.null())})
	}
	return outs, true
}

// ---- sequences

func (a *answers) others() *fv { return a.f.mk("others", "", nil) }

func isOther(v *fv) bool {
	if v == nil {
		return false
	}
	if v.op == "okey" || v.op == "oval" || v.op == "others" {
		return true
	}
	for _, x := range v.a {
		if isOther(x) {
			return true
		}
	}
	return false
}

func (a *answers) seq(t types.Type, es ...*fv) *fv {
	var out []*fv
	for _, e := range es {
		if e.op == "obj" {
			out = append(out, e)
			continue
		}
		if isOther(e) {
			e = a.others()
			if len(out) > 0 && out[len(out)-1] == e {
				continue
			}
		}
		out = append(out, e)
	}
	return a.f.mk("seq", "", t, out...)
}

// elems are the elements of a slice, if they are known.
func (a *answers) elems(st *fst, v *fv) ([]*fv, bool) {
	f := a.f
	if v == nil {
		return nil, false
	}
	switch v.op {
	case "nil":
		return nil, true
	case "seq":
		return v.a, true
	case "append1":
		es, ok := a.elems(st, v.a[0])
		return append(append([]*fv(nil), es...), v.a[1]), ok
	case "append":
		if len(v.a) == 2 {
			es, ok1 := a.elems(st, v.a[0])
			fs, ok2 := a.elems(st, v.a[1])
			return append(append([]*fv(nil), es...), fs...), ok1 && ok2
		}
	case "obj":
		if v == a.vals {
			return a.argv, true
		}
		if c := st.heap[f.mk("content", "", nil, v)]; c != nil && c.op == "seq" {
			return c.a, true
		}
		n, ok := f.length(st, v).int()
		if !ok || n > 12 {
			return nil, false
		}
		et := elemOf(v.t)
		if et == nil {
			return nil, false
		}
		var es []*fv
		for i := int64(0); i < n; i++ {
			e := st.heap[f.mk("iaddr", "", nil, v, f.num(i))]
			if e == nil {
				e = f.zero(et)
			}
			es = append(es, e)
		}
		return es, true
	case "slice":
		es, ok := a.elems(st, v.a[0])
		if !ok {
			return nil, false
		}
		lo, ok1 := v.a[1].int()
		hi, ok2 := int64(len(es)), true
		if v.a[2] != nil {
			hi, ok2 = v.a[2].int()
		}
		if ok1 && lo == 0 && v.a[2] == nil {
			return es, true
		}
		for _, e := range es {
			if isOther(e) && e.op != "obj" {
				return nil, false
			}
		}
		if !ok1 || !ok2 || lo < 0 || lo > hi || hi > int64(len(es)) {
			return nil, false
		}
		return es[lo:hi], true
	}
	return nil, false
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Pointer:
		if y, ok := x.Elem().Underlying().(*types.Array); ok {
			return y.Elem()
		}
	}
	return nil
}

// size of a sequence with others in it.
func (a *answers) size(st *fst, what *fv, n int64) *fv {
	f := a.f
	l := f.mk("size", fmt.Sprint(n), types.Typ[types.Int], what)
	f.assume(st, f.cmp(token.LSS, l, f.num(n)), false)
	return l
}

// advance: a loop over a sequence with others in it goes on to the next element, or ends.
func (a *answers) advance(p *fpath, x *ssa.BinOp) ([]fout, bool) {
	st, f := p.st, a.f
	n := f.val(p, x.Y)
	if n.op != "size" || len(n.a) != 1 || n.a[0].op != "seq" {
		return nil, false
	}
	s := n.a[0]
	pre := fmt.Sprintf("a:c%d:", s.id)
	i := f.val(p, x.X)
	k := -1
	if c, ok := i.int(); !ok || c != 0 {
		if st.m[pre+"i"] != x.X.Name() || st.m[pre+"at"] == "" {
			return nil, false
		}
		fmt.Sscan(st.m[pre+"at"], &k)
	}
	st.m[pre+"i"] = x.X.Name()
	var outs []fout
	to := func(k int) {
		q := st.clone()
		if k == len(s.a) {
			delete(q.m, pre+"i")
			delete(q.m, pre+"at")
			outs = append(outs, fout{q, f.bool(false)})
			return
		}
		q.m[pre+"at"] = fmt.Sprint(k)
		outs = append(outs, fout{q, f.bool(true)})
	}
	if k >= 0 && s.a[k].op == "others" {
		to(k)
	}
	to(k + 1)
	return outs, true
}

// current element of a loop over a sequence.
func (a *answers) current(st *fst, in ssa.Instruction, addr *fv) *fv {
	f := a.f
	s := addr.a[0]
	pre := fmt.Sprintf("a:c%d:", s.id)
	u, ok := in.(*ssa.UnOp)
	if !ok || st.m[pre+"at"] == "" {
		return nil
	}
	ix, ok := u.X.(*ssa.IndexAddr)
	if !ok || ix.Index.Name() != st.m[pre+"i"] {
		return nil
	}
	k := 0
	fmt.Sscan(st.m[pre+"at"], &k)
	if s.a[k].op != "others" {
		return s.a[k]
	}
	o := f.fresh(st, in, "okey", types.Typ[types.String])
	for _, n := range append(append([]*fv(nil), a.keys...), a.mems...) {
		f.assume(st, f.cmp(token.EQL, o, n), false)
	}
	return o
}

// ---- hooks

func (a *answers) onInstr(p *fpath, in ssa.Instruction) ([]fout, bool) {
	st, f := p.st, a.f
	switch x := in.(type) {
	case *ssa.Next:
		return a.next(p, x)
	case *ssa.Range:
		m := f.val(p, x.X)
		if !a.known(st, m) {
			return nil, false
		}
		it := f.fresh(st, in, "iter", nil, m)
		for k := range st.m {
			if strings.HasPrefix(k, fmt.Sprintf("a:%d:", it.id)) {
				delete(st.m, k)
			}
		}
		return one(st, it), true
	case *ssa.BinOp:
		if x.Op == token.LSS {
			return a.advance(p, x)
		}
		return nil, false
	case *ssa.MakeMap:
		if k, ok := x.Type().Underlying().(*types.Map); !ok || !isBasic(k.Key(), types.IsString) {
			return nil, false
		}
		o := f.newObj(st, in, "map", x.Type())
		a.newMap(st, o)
		return one(st, o), true
	case *ssa.Lookup:
		m := f.val(p, x.X)
		if !a.known(st, m) {
			keys, vals := f.constTable(x.X)
			if len(keys) == 0 {
				return nil, false
			}
			at := f.val(p, x.Index)
			var outs []fout
			add := func(s *fst, v *fv, ok bool) {
				if x.CommaOk {
					v = f.tup(v, f.bool(ok))
				}
				outs = append(outs, fout{s, v})
			}
			for i, k := range keys {
				c := f.cmp(token.EQL, at, k)
				b, ok := f.truth(st, c)
				if ok && b {
					add(st, vals[i], true)
					return outs, true
				}
				if !ok {
					q := st.clone()
					f.assume(q, c, true)
					add(q, vals[i], true)
					f.assume(st, c, false)
				}
			}
			add(st, f.zero(x.X.Type().Underlying().(*types.Map).Elem()), false)
			return outs, true
		}
		outs := a.lookup(st, m, f.val(p, x.Index))
		zero := f.zero(x.X.Type().Underlying().(*types.Map).Elem())
		for i := range outs {
			if b, _ := outs[i].res.a[1].boolean(); !b {
				outs[i].res = f.tup(zero, f.bool(false))
			}
			if !x.CommaOk {
				outs[i].res = outs[i].res.a[0]
			}
		}
		return outs, true
	case *ssa.MapUpdate:
		m := f.val(p, x.Map)
		if !a.known(st, m) {
			return nil, false
		}
		a.update(st, m, f.val(p, x.Key), f.val(p, x.Value))
		return one(st, nil), true
	case *ssa.MakeSlice:
		if _, ok := f.val(p, x.Len).int(); ok {
			return nil, false
		}
		o := f.newObj(st, in, "slice", x.Type())
		st.heap[f.mk("lenof", "", nil, o)] = f.val(p, x.Len)
		st.heap[f.mk("fill", "", nil, o)] = f.num(0)
		st.heap[f.mk("content", "", nil, o)] = a.seq(x.Type())
		return one(st, o), true
	case *ssa.Store:
		ad := f.val(p, x.Addr)
		if ad.op != "iaddr" || ad.a[0].op != "obj" {
			return nil, false
		}
		o := ad.a[0]
		fc, cc := f.mk("fill", "", nil, o), f.mk("content", "", nil, o)
		n, c := st.heap[fc], st.heap[cc]
		if n == nil || c == nil {
			return nil, false
		}
		i, v := ad.a[1], f.val(p, x.Val)
		switch {
		case i == n || f.entails(st, i, n, 0) && f.entails(st, n, i, 0):
			if c.op == "seq" {
				st.heap[cc] = a.seq(c.t, append(append([]*fv(nil), c.a...), v)...)
			}
			st.heap[fc] = f.sum(token.ADD, n, f.num(1), types.Typ[types.Int])
		case f.entails(st, i, f.sum(token.SUB, n, f.num(1), types.Typ[types.Int]), 0):
			if isOther(v) || !isOther(lastOf(c)) {
				st.heap[cc] = f.mk("seqlost", "", nil)
			}
		default:
			st.heap[cc] = f.mk("unkseq", "", nil)
		}
		return one(st, nil), true
	}
	return nil, false
}

func lastOf(c *fv) *fv {
	if len(c.a) == 0 {
		return nil
	}
	return c.a[len(c.a)-1]
}

func (a *answers) onBuiltin(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
	f := a.f
	switch name {
	case "len":
		v := args[0]
		switch {
		case v.op == "smap":
			return one(st, f.num(1)), true
		case a.known(st, v):
			n := a.count(st, v)
			if !a.rest(st, v) {
				return one(st, f.num(n)), true
			}
			return one(st, a.size(st, v, n+1)), true
		case v.op == "seq" || v.op == "slice" && v.a[0].op == "seq":
			es, ok := a.elems(st, v)
			if !ok {
				return nil, false
			}
			n, open := int64(0), false
			for _, e := range es {
				if e.op == "others" {
					open = true
				}
				n++
			}
			if open {
				return one(st, a.size(st, v, n)), true
			}
			return one(st, f.num(n)), true
		}
	case "append":
		x, ok1 := a.elems(st, args[0])
		y, ok2 := a.elems(st, args[1])
		if !ok1 || !ok2 || len(x)+len(y) > 14 {
			return nil, false
		}
		return one(st, a.seq(in.Common().Signature().Results().At(0).Type(), append(append([]*fv(nil), x...), y...)...)), true
	case "delete":
		if a.known(st, args[0]) {
			a.remove(st, args[0], args[1])
			return one(st, f.tup()), true
		}
	}
	return nil, false
}

func (a *answers) apart(old, now *fst, x, y *fv) bool {
	if a.lists || a.zsets {
		return true
	}
	if y == nil && x != nil {
		switch x.op {
		case "in", "at":
			return a.named(x.a[1])
		case "rest", "content", "iaddr":
			return true
		}
	}
	return x != nil && x.op == "seq" || y != nil && y.op == "seq"
}

func (a *answers) onLoad(st *fst, in ssa.Instruction, addr *fv) *fv {
	f := a.f
	switch {
	case addr.op == "faddr" && addr.a[0].op == "sym" && addr.a[0].s == "command" && isStrings(addr.t):
		return a.vals
	case addr.op == "iaddr" && addr.a[0] == a.vals && a.vals != nil:
		if k, ok := addr.a[1].int(); ok && k >= 0 && k < int64(len(a.argv)) {
			return a.argv[k]
		}
		return nil
	case addr.op == "iaddr" && addr.a[0].op == "seq":
		if v := a.current(st, in, addr); v != nil {
			return v
		}
		k, ok := addr.a[1].int()
		if !ok || k < 0 || k >= int64(len(addr.a[0].a)) {
			return nil
		}
		for _, e := range addr.a[0].a[:k+1] {
			if e.op == "others" {
				return nil
			}
		}
		return addr.a[0].a[k]
	case addr.op == "iaddr" && addr.a[0].op == "smap":
		return f.mk("shard", "", addr.t, addr.a[0])
	case addr.op == "faddr" && addr.a[0].op == "shard" && addr.s == a.r.itemsF:
		return a.gomap(addr.a[0].a[0])
	case addr.t != nil && a.r.isSmap(addr.t) && st.heap[addr] == nil && addr.op == "faddr" && addr.a[0].op != "sym" && addr.a[0].op != "obj":
		return a.ks
	}
	return nil
}

func (a *answers) ofKey(v *fv) bool {
	return v.op == "sym" && (strings.HasPrefix(v.s, "record of ") || strings.HasPrefix(v.s, "value of ") || strings.HasPrefix(v.s, "node "))
}

func (a *answers) onIf(st *fst, in *ssa.If, cond *fv, to bool) {
	// the pattern is a known text
	if cond.op == "eq" && to && a.pattern != nil && (cond.a[0] == a.pattern || cond.a[1] == a.pattern) {
		t, ok := cond.a[0].text()
		if !ok {
			t, ok = cond.a[1].text()
		}
		switch {
		case ok && t != "" && strings.Trim(t, "*") == "":
			for _, k := range a.keys {
				if b, ok := st.facts[a.matches(a.matcher(a.pattern, a.f.null()), k)]; ok && !b {
					st.m["a:dead"] = "1" // it matches every key
				}
			}
		case ok:
			st.m["a:vague"] = "1"
			a.vague("the pattern is compared with %q", t)
		}
	}
	// what the command made is not what a key held before
	if cond.op == "eq" && to && (cond.a[0].op == "obj" && a.ofKey(cond.a[1]) || cond.a[1].op == "obj" && a.ofKey(cond.a[0])) {
		st.m["a:dead"] = "1"
	}
	// a hash value of another entry is a text or a number
	if cond.op == "taok" && !to && cond.a[0].op == "oval" {
		v := cond.a[0]
		for _, t := range []types.Type{types.Typ[types.String], types.Typ[types.Int64], types.Typ[types.Float64]} {
			if b, ok := st.facts[a.f.mk("taok", t.String(), nil, v)]; !ok || b {
				return
			}
		}
		st.m["a:dead"] = "1"
	}
}

func (a *answers) onCall(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
	f := a.f
	g := in.Common().StaticCallee()
	sig := in.Common().Signature()
	str := types.Typ[types.String]
	if a.pattern != nil && (g == nil || !f.inModule(g)) {
		if outs, ok := a.glob(st, in, name, args); ok {
			return outs, true
		}
	}
	if a.zsets {
		if outs, ok := a.zcall(st, in, name, args); ok {
			return outs, true
		}
	}
	switch name {
	case "strconv.ParseInt", "strconv.Atoi":
		v := bareTerm(args[0])
		if v.op == "numtext" {
			if name == "strconv.ParseInt" {
				if b, ok := args[1].int(); ok && b != 10 {
					return one(st, f.tup(f.mk("intof", fmt.Sprint(b), sig.Results().At(0).Type(), v), f.null())), true
				}
			}
			return one(st, f.tup(v.a[0], f.null())), true
		}
		if _, ok := v.text(); ok {
			return nil, false
		}
		form := "10"
		if name == "strconv.ParseInt" {
			b, ok1 := args[1].int()
			w, ok2 := args[2].int()
			if !ok1 || !ok2 || w != 64 && w != 0 {
				return nil, false
			}
			form = fmt.Sprint(b)
		}
		q := st.clone()
		q.m["a:badnum"] = "1"
		n := f.mk("intof", form, sig.Results().At(0).Type(), v)
		return []fout{{st, f.tup(n, f.null())}, {q, f.tup(f.num(0), f.mk("err", "number", nil, v))}}, true
	case "strconv.ParseFloat":
		v := bareTerm(args[0])
		if _, ok := v.text(); ok {
			return nil, false
		}
		q := st.clone()
		q.m["a:badnum"] = "1"
		x := f.mk("floatof", "", types.Typ[types.Float64], v)
		if v.op == "numtext" {
			x = v.a[0]
		}
		return []fout{{st, f.tup(x, f.null())}, {q, f.tup(f.zero(types.Typ[types.Float64]), f.mk("err", "float", nil, v))}}, true
	case "strconv.FormatInt", "strconv.Itoa":
		v := args[0]
		form := "10"
		if name == "strconv.FormatInt" {
			b, ok := args[1].int()
			if !ok {
				return nil, false
			}
			form = fmt.Sprint(b)
		}
		for v.op == "conv" && len(v.a) == 1 && (v.s == "int64" || v.s == "int") {
			v = v.a[0]
		}
		return one(st, f.mk("inttext", form, str, v)), true
	case "strconv.FormatFloat":
		b, ok1 := args[1].int()
		p, ok2 := args[2].int()
		w, ok3 := args[3].int()
		if !ok1 || !ok2 || !ok3 {
			return nil, false
		}
		return one(st, f.mk("ftext", fmt.Sprintf("%c/%d/%d", rune(b), p, w), str, args[0])), true
	}
	if g == nil || !f.inModule(g) {
		return nil, false
	}
	if sig.Results().Len() == 1 {
		rt := sig.Results().At(0).Type()
		switch {
		case a.r.isSmap(rt) && len(g.Params) == 0:
			m := f.fresh(st, in, "smap", rt)
			a.newMap(st, a.gomap(m))
			f.assume(st, f.cmp(token.EQL, m, f.null()), false)
			return one(st, m), true
		case a.r.shardT != nil && ptrTo(rt, a.r.shardT) && len(args) > 0 && args[0].op == "smap":
			return one(st, f.mk("shard", "", rt, args[0])), true
		case types.Identical(rt, a.fn.Signature.Results().At(0).Type()) && g.Pkg != a.fn.Pkg:
			var parts []*fv
			base := ""
			for i, x := range args {
				switch {
				case x == nil:
				case i < len(g.Params) && noContent(g.Params[i].Type()):
					if es, ok := a.elems(st, x); x.isNil() || ok && len(es) == 0 {
						base = "single"
					} else if x.op == "const" || ok && len(es) == 1 {
						if ok {
							x = es[0]
						}
						if b, ok := x.boolean(); ok && !b {
							base = "single"
						}
					}
				case x.op == "reply":
					parts = append(parts, x.a...)
					base = x.s
				default:
					es, ok := a.elems(st, x)
					if _, isSlice := g.Params[i].Type().Underlying().(*types.Slice); isSlice {
						if !ok {
							parts = append(parts, f.mk("unkseq", clean(x), nil))
							if c := st.heap[f.mk("content", "", nil, x)]; c != nil {
								parts[len(parts)-1] = c
							}
							break
						}
						for _, e := range es {
							parts = append(parts, bareTerm(e))
						}
						break
					}
					x = bareTerm(x)
					parts = append(parts, x)
				}
			}
			kind := g.Name()
			if base == "single" {
				kind = base
			}
			return one(st, f.mk("reply", kind, rt, parts...)), true
		}
	}
	return nil, false
}

func (a *answers) matcher(pattern, sep *fv) *fv {
	return a.f.mk("globof", "", nil, bareTerm(pattern), sep)
}

func (a *answers) matches(g, k *fv) *fv {
	return a.f.mk("matches", "", types.Typ[types.Bool], g, bareTerm(k))
}

// glob: the matcher of a pattern, and what it says of a text, as the package defines them.
func (a *answers) glob(st *fst, in ssa.CallInstruction, name string, args []*fv) ([]fout, bool) {
	f := a.f
	sig := in.Common().Signature()
	cut := strings.LastIndex(name, ".")
	if in.Common().IsInvoke() && in.Common().Method.Name() == "Match" && len(args) > 0 {
		g := bareTerm(args[0])
		if g.op == "globof" && len(args) == 2 {
			return one(st, a.matches(g, args[1])), true
		}
		return nil, false
	}
	if cut < 0 || !strings.HasSuffix(name[:cut], "/glob") || len(args) < 1 || len(args) > 2 {
		return nil, false
	}
	sep := f.null()
	if len(args) == 2 {
		if n, ok := f.length(st, args[1]).int(); !args[1].isNil() && (!ok || n != 0) {
			sep = args[1]
		}
	}
	switch {
	case name[cut:] == ".Compile" && sig.Results().Len() == 2:
		q := st.clone()
		g := a.matcher(args[0], sep)
		f.assume(st, f.cmp(token.EQL, g, f.null()), false)
		return []fout{{st, f.tup(g, f.null())}, {q, f.tup(f.null(), f.mk("err", "pattern", nil, args[0]))}}, true
	case name[cut:] == ".MustCompile" && sig.Results().Len() == 1:
		g := a.matcher(args[0], sep)
		f.assume(st, f.cmp(token.EQL, g, f.null()), false)
		return one(st, g), true
	case name[cut:] == ".QuoteMeta":
		return one(st, f.mk("quoted", "", types.Typ[types.String], args[0])), true
	}
	return nil, false
}

// ---- worlds

type acase struct {
	args []*fv
	w    *aworld
}

func (a *answers) sym(s string, t types.Type) *fv { return a.f.mk("sym", s, t) }

// setup builds the state a command starts in.
func (a *answers) setup(w *aworld) *fst {
	f := a.f
	st := newFst()
	gm := a.gomap(a.ks)
	a.newMap(st, gm)
	st.heap[a.cRest(gm)] = f.bool(true)
	all := append(append([]*fv(nil), a.keys...), a.mems...)
	for i, x := range all {
		for _, y := range all[:i] {
			f.assume(st, f.cmp(token.EQL, x, y), false)
		}
	}
	if a.lists {
		for _, x := range all {
			f.assume(st, f.cmp(token.EQL, x, x), true)
		}
	}
	var objs []*fv
	for _, k := range a.keys {
		if a.pattern != nil {
			f.assume(st, a.matches(a.matcher(a.pattern, f.null()), k), w.match[k])
		}
		c := w.keys[k]
		if c == nil {
			continue
		}
		info := a.sym("record of "+k.s, types.NewPointer(a.r.keyInfo))
		st.heap[a.cIn(gm, k)] = f.bool(true)
		st.heap[a.cAt(gm, k)] = f.mk("iface", info.t.String(), info.t, info)
		f.assume(st, f.cmp(token.EQL, info, f.null()), false)
		if c.kind == "any" {
			st.heap[a.field(info, a.r.keyInfo, a.r.kiType)] = a.sym("type of "+k.s, types.Typ[types.String])
			continue
		}
		st.heap[a.field(info, a.r.keyInfo, a.r.kiType)] = f.str(a.kinds[c.kind])
		if c.kind == "list" {
			objs = append(objs, a.putList(st, k, info, c)...)
			continue
		}
		if a.texts {
			a.putText(st, k, info, c)
			continue
		}
		if c.kind == "zset" {
			objs = append(objs, a.putZset(st, k, info, c)...)
			continue
		}
		nt, mf, lf := a.r.setT, a.r.setMap, a.r.setLen
		if c.kind == "hash" {
			nt, mf, lf = a.r.hashT, a.r.hashMap, a.r.hashLen
		}
		o := a.sym("value of "+k.s, types.NewPointer(nt))
		st.heap[a.field(info, a.r.keyInfo, a.r.kiValue)] = f.mk("iface", o.t.String(), o.t, o)
		f.assume(st, f.cmp(token.EQL, o, f.null()), false)
		m := f.mk("smap", "map of "+k.s, a.r.mapT)
		f.assume(st, f.cmp(token.EQL, m, f.null()), false)
		// keys do not share values
		for _, x := range []*fv{info, o, m} {
			f.assume(st, f.cmp(token.EQL, x, x), true)
			for _, y := range objs {
				f.assume(st, f.cmp(token.EQL, x, y), false)
			}
		}
		objs = append(objs, info, o, m)
		st.heap[a.field(o, nt, mf)] = m
		mg := a.gomap(m)
		a.newMap(st, mg)
		for _, e := range a.mems {
			if c.in[e] {
				st.heap[a.cIn(mg, e)] = f.bool(true)
				if v := c.val[e]; v != nil {
					st.heap[a.cAt(mg, e)] = v
				}
			}
		}
		st.heap[a.cRest(mg)] = f.bool(c.rest)
		if c.rest {
			l := a.sym("length of "+k.s, types.Typ[types.Int])
			st.heap[a.field(o, nt, lf)] = l
			f.assume(st, f.cmp(token.LSS, l, f.num(c.size()+1)), false)
		} else {
			st.heap[a.field(o, nt, lf)] = f.num(c.size())
		}
	}
	a.vals = f.mk("obj", "the arguments", a.fn.Params[0].Type())
	st.heap[f.mk("lenof", "", nil, a.vals)] = f.num(int64(len(a.argv)))
	return st
}

func (a *answers) field(o *fv, n *types.Named, name string) *fv {
	s := structOf(n)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return a.f.faddr(o, s, i)
		}
	}
	return a.f.mk("nofield", name, nil, o)
}

// final reads the keyspace a path ends with.
func (a *answers) final(st *fst, any bool) (*aworld, map[*fv]*fv, map[*fv]*fv, bool) {
	f := a.f
	w := &aworld{keys: map[*fv]*acont{}}
	lens, objs := map[*fv]*fv{}, map[*fv]*fv{}
	gm := a.gomap(a.ks)
	for _, k := range a.keys {
		in, ok := a.flag(st, a.cIn(gm, k))
		if !ok {
			return nil, nil, nil, false
		}
		if !in {
			w.keys[k] = nil
			continue
		}
		v := st.heap[a.cAt(gm, k)]
		if v == nil || v.op != "iface" {
			return nil, nil, nil, false
		}
		if any {
			w.keys[k] = &acont{kind: "other"}
			if i := v.a[0]; i == a.sym("record of "+k.s, types.NewPointer(a.r.keyInfo)) && st.heap[a.field(i, a.r.keyInfo, a.r.kiType)] == a.sym("type of "+k.s, types.Typ[types.String]) && st.heap[a.field(i, a.r.keyInfo, a.r.kiValue)] == nil {
				w.keys[k].kind = "any"
			}
			continue
		}
		x := st.heap[a.field(v.a[0], a.r.keyInfo, a.r.kiValue)]
		t := st.heap[a.field(v.a[0], a.r.keyInfo, a.r.kiType)]
		if x == nil || x.op != "iface" || t == nil {
			return nil, nil, nil, false
		}
		c := &acont{in: map[*fv]bool{}, val: map[*fv]*fv{}}
		for n, s := range a.kinds {
			if y, ok := t.text(); ok && y == s {
				c.kind = n
			}
		}
		if c.kind == "list" {
			if !a.readList(st, k, x, c) {
				return nil, nil, nil, false
			}
			w.keys[k] = c
			lens[k] = st.heap[a.field(x.a[0], a.r.listT, a.r.listLen)]
			continue
		}
		if c.kind == "zset" {
			n, ok := a.readZset(st, k, x.a[0], c)
			if !ok {
				return nil, nil, nil, false
			}
			w.keys[k], lens[k] = c, n
			continue
		}
		nt, mf, lf := a.r.setT, a.r.setMap, a.r.setLen
		if c.kind == "hash" {
			nt, mf, lf = a.r.hashT, a.r.hashMap, a.r.hashLen
		} else if c.kind != "set" {
			return nil, nil, nil, false
		}
		if !ptrTo(x.t, nt) {
			return nil, nil, nil, false
		}
		m := st.heap[a.field(x.a[0], nt, mf)]
		if m == nil || m.op != "smap" {
			return nil, nil, nil, false
		}
		objs[k] = x.a[0]
		lens[k] = st.heap[a.field(x.a[0], nt, lf)]
		if lens[k] == nil {
			lens[k] = f.num(0)
		}
		mg := a.gomap(m)
		for _, e := range a.mems {
			b, ok := a.flag(st, a.cIn(mg, e))
			if !ok {
				return nil, nil, nil, false
			}
			c.in[e] = b
			if b {
				c.val[e] = st.heap[a.cAt(mg, e)]
			}
		}
		c.rest = a.rest(st, mg)
		w.keys[k] = c
	}
	return w, lens, objs, true
}

// text is what a stored value reads as.
func (a *answers) text(v *fv) *fv {
	if v == nil {
		return nil
	}
	if v.op == "iface" {
		switch {
		case isBasic(v.t, types.IsString):
			return v.a[0]
		case isBasic(v.t, types.IsInteger):
			return a.f.mk("inttext", "10", types.Typ[types.String], v.a[0])
		case isBasic(v.t, types.IsFloat):
			return a.f.mk("ftext", a.form, types.Typ[types.String], v.a[0])
		}
	}
	return v
}

// reads: the stored value reads as the text.
func (a *answers) reads(st *fst, v, t *fv) bool {
	x := a.text(v)
	if x == nil {
		return false
	}
	if x == t || bareTerm(x) == t {
		return true
	}
	b, ok := a.f.truth(st, a.f.cmp(token.EQL, x, t))
	return ok && b || a.sameText(st, x, t)
}

// decode is the meaning of an answer.
func (a *answers) decode(st *fst, r *fv) (areply, bool) {
	if r != nil && r.isNil() {
		return areply{kind: "nil"}, true
	}
	if r == nil || r.op != "reply" {
		return areply{}, false
	}
	kind := r.s
	for c, v := range st.heap {
		if c.op != "faddr" || c.a[0] != r {
			continue
		}
		if b, ok := v.boolean(); ok && b && (kind == "single" || kind == "NewResponse" || strings.HasPrefix(kind, "Append")) {
			kind = "NewResponse"
			continue
		}
		return areply{}, false // changed after it was made
	}
	o := areply{elems: r.a}
	single := func(k string) (areply, bool) {
		o.kind = k
		if len(r.a) != 1 {
			return o, false
		}
		o.v = r.a[0]
		return o, true
	}
	switch kind {
	case "NewResponseWithInteger":
		return single("int")
	case "NewResponseWithBulkString":
		return single("bulk")
	case "NewResponseWithSimpleString":
		return single("simple")
	case "NewResponseWithError":
		return single("error")
	case "NewResponseWithNilBulk":
		o.kind = "nil"
		return o, len(r.a) == 0
	case "single":
		o.kind = "array"
		if len(r.a) == 1 {
			if o.kind, o.v = "bulk", r.a[0]; o.v.isNil() {
				o.kind = "nil"
			}
		}
		return o, true
	case "NewResponse", "NewResponseWithEmptyArray", "AppendBulkStrings", "AppendBulkInterfaces":
		o.kind = "array"
		return o, true
	}
	return o, false
}

var _ = constant.MakeInt64
