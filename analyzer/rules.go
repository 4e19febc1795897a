package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Find is one violated obligation.
type Find struct {
	Prop  string   `json:"property"`
	Rule  string   `json:"rule"`
	Cmd   string   `json:"command,omitempty"`
	Pos   string   `json:"pos"`
	Msg   string   `json:"message"`
	Trail []string `json:"path,omitempty"`
}

func (f Find) key() string { return f.Prop + "|" + f.Rule + "|" + f.Cmd + "|" + f.Pos + "|" + f.Msg }

// Report collects findings and counts the obligations looked at.
type Report struct {
	Finds []Find         `json:"finds"`
	Obl   map[string]int `json:"obl"`
	Notes map[string]int `json:"notes"`
	seen  map[string]bool
}

func newReport() *Report {
	return &Report{Obl: map[string]int{}, Notes: map[string]int{}, seen: map[string]bool{}}
}

func (r *Report) add(f Find) {
	if k := f.key(); !r.seen[k] {
		r.seen[k] = true
		r.Finds = append(r.Finds, f)
	}
}

func (r *Report) merge(o *Report) {
	for _, f := range o.Finds {
		r.add(f)
	}
	for k, v := range o.Obl {
		r.Obl[k] += v
	}
	for k, v := range o.Notes {
		r.Notes[k] += v
	}
}

// hc checks one command.
type hc struct {
	e    *Engine
	p    *Prog
	r    *Roles
	name string
	fn   *ssa.Function
	sp   *Spec
	rep  *Report
	pt   protoTypes
}

type protoTypes struct {
	resp, item                  *types.Named
	fItems, fArray, fVal, fType string
	simple, errs, ints, bulk    int64
	ok                          bool
}

func (p *Prog) proto() protoTypes {
	t := protoTypes{resp: p.namedType("protocol", "Response"), item: p.namedType("protocol", "ResponseItem")}
	if t.resp == nil || t.item == nil {
		return t
	}
	t.fItems = fieldBy(t.resp, "Items", func(x types.Type) bool { _, ok := x.Underlying().(*types.Slice); return ok })
	t.fArray = fieldBy(t.resp, "IsArray", func(x types.Type) bool { return isBasic(x, types.IsBoolean) })
	t.fVal = fieldBy(t.item, "Value", func(x types.Type) bool { return types.IsInterface(x) })
	t.fType = fieldBy(t.item, "Type", func(x types.Type) bool { return isBasic(x, types.IsInteger) })
	get := func(n string) int64 {
		if c, ok := p.pkg("protocol").Members[n].(*ssa.NamedConst); ok {
			if v, ok := constant.Int64Val(c.Value.Value); ok {
				return v
			}
		}
		return -1
	}
	t.simple, t.errs, t.ints, t.bulk = get("TypeSimpleStrings"), get("TypeErrors"), get("TypeIntegers"), get("TypeBulkStrings")
	t.ok = t.fItems != "" && t.fArray != "" && t.fVal != "" && t.fType != "" && t.simple >= 0 && t.errs >= 0 && t.ints >= 0 && t.bulk >= 0
	return t
}

func (h *hc) obl(prop string) { h.rep.Obl[prop]++ }

func (h *hc) vague(st *State) bool { return st.vague || h.e.vagueAll || h.e.aborted }

func (h *hc) bad(prop, rule string, pos token.Pos, st *State, f string, a ...interface{}) {
	where := h.p.pos(pos)
	if where == "-" {
		where = h.p.pos(h.fn.Pos())
	}
	var tr []string
	if st != nil {
		tr = append([]string(nil), st.choices...)
	}
	h.rep.add(Find{Prop: prop, Rule: rule, Cmd: h.name, Pos: where, Msg: fmt.Sprintf(f, a...), Trail: tr})
}

// prove reports a violation unless ok, except where the analysis lost track.
func (h *hc) prove(prop, rule string, pos token.Pos, st *State, ok bool, f string, a ...interface{}) bool {
	h.obl(prop)
	if ok {
		return true
	}
	if h.vague(st) {
		h.rep.Notes["undecided "+prop+" "+rule]++
		return false
	}
	h.bad(prop, rule, pos, st, f, a...)
	return false
}

// ---------- replies ----------

type item1 struct {
	typ  int64 // -1 unknown
	v    V
	cond string
}

type Reply struct {
	kind  string // error, nil, empty, array, simple, errline, integer, bulk, unknown
	err   *Term
	v     V // payload of a single-item reply
	n     *Lin
	items []item1
	slice VSlice
}

func (h *hc) itemOf(st *State, v V) item1 {
	it := item1{typ: -1}
	var f map[string]V
	switch p := v.(type) {
	case VPtr:
		o := st.obj(p.o)
		if o == nil || o.kind != kStruct {
			return it
		}
		f = o.f
	case VSum:
		f = p.f
	case VStruct:
		f = p.f
	default:
		return it
	}
	if n, ok := f[h.pt.fType].(VNum); ok {
		if k, ok := st.cons.subst(n.l).int64(); ok {
			it.typ = k
		}
	}
	it.v = f[h.pt.fVal]
	return it
}

func (h *hc) reply(st *State) Reply {
	if len(st.ret) != 2 {
		return Reply{kind: "unknown"}
	}
	switch x := st.ret[1].(type) {
	case VErr:
		if v, known := st.decide(errNil(x.t)); !known {
			return Reply{kind: "unknown"}
		} else if !v {
			return Reply{kind: "error", err: x.t}
		}
	case VIface:
		if x.t != nil {
			return Reply{kind: "error", err: mk("errnew", "value")}
		}
	default:
		return Reply{kind: "unknown"}
	}
	return h.response(st, st.ret[0])
}

func (h *hc) response(st *State, v V) Reply {
	p, ok := v.(VPtr)
	if !ok {
		return Reply{kind: "unknown"}
	}
	if p.o == 0 {
		return Reply{kind: "nil"}
	}
	o := st.obj(p.o)
	if o == nil || o.kind != kStruct || !sameNamed(o.typ, h.pt.resp) {
		return Reply{kind: "unknown"}
	}
	isArr, known := false, false
	if b, ok := o.f[h.pt.fArray].(VBool); ok {
		isArr, known = st.decide(b.b)
	}
	sl, ok := o.f[h.pt.fItems].(VSlice)
	if !ok || !known {
		return Reply{kind: "unknown"}
	}
	r := Reply{n: sl.len, slice: sl}
	if sl.o == 0 || st.cons.entailsEq(sl.len) {
		r.n = linInt(0)
		if isArr {
			r.kind = "empty"
		} else {
			r.kind = "nil"
		}
		return r
	}
	back := st.obj(sl.o)
	if back == nil {
		return Reply{kind: "unknown"}
	}
	if !isArr {
		if !st.cons.entailsLe(linInt(1).sub(sl.len)) {
			return Reply{kind: "unknown"}
		}
		// the first item
		var it item1
		if k, ok := st.cons.subst(sl.off).int64(); ok {
			if x, ok := back.ex[k]; ok {
				it = h.itemOf(st, x)
			} else if len(back.tmpl) == 1 && len(back.pend) == 0 {
				it = h.itemOf(st, back.tmpl[0].v)
			} else {
				it.typ = -1
			}
		}
		r.v = it.v
		r.items = []item1{it}
		switch it.typ {
		case h.pt.simple:
			r.kind = "simple"
		case h.pt.errs:
			r.kind = "errline"
		case h.pt.ints:
			r.kind = "integer"
		case h.pt.bulk:
			r.kind = "bulk"
			if x, ok := it.v.(VIface); ok && x.t == nil {
				r.kind = "nil"
			}
		default:
			r.kind = "unknown"
		}
		return r
	}
	r.kind = "array"
	for _, k := range sortedExKeys(back.ex) {
		if back.n != nil && st.cons.entailsLe(back.n.addInt(-k)) {
			continue
		}
		r.items = append(r.items, h.itemOf(st, back.ex[k]))
	}
	for _, x := range back.pend {
		r.items = append(r.items, h.itemOf(st, x.v))
	}
	for _, x := range back.tmpl {
		r.items = append(r.items, h.itemOf(st, x.v))
	}
	if back.zero != nil && len(r.items) == 0 {
		r.items = append(r.items, item1{typ: -1, v: back.zero})
	}
	return r
}

// ---------- keys ----------

// argOf returns the position of the argument t is, unmodified.
func argOf(st *State, t *Term) (*Lin, bool) {
	t = st.normTerm(t)
	if t.op == "arg" {
		return termLin(t.args[0]), true
	}
	return nil, false
}

func evenLin(st *State, l *Lin) bool {
	l = st.cons.subst(l)
	two := big.NewRat(2, 1)
	div := func(r *big.Rat) bool { return new(big.Rat).Quo(r, two).IsInt() }
	if !div(l.c) {
		return false
	}
	for _, m := range l.t {
		if !div(m.k) {
			return false
		}
	}
	return true
}

func (h *hc) keyAllowed(st *State, t *Term) bool {
	if h.sp.keys == "scan" {
		if _, ok := st.ikeys[st.normTerm(t)]; ok {
			return true
		}
		return false
	}
	l, ok := argOf(st, t)
	if !ok {
		// a key known to equal one of the arguments
		for f, v := range st.facts {
			if v && f.op == "eq" {
				var o *Term
				if f.args[0] == t {
					o = f.args[1]
				} else if f.args[1] == t {
					o = f.args[0]
				}
				if o != nil && o.op == "arg" {
					l, ok = argOf(st, o)
				}
			}
		}
		if !ok {
			return false
		}
	}
	switch h.sp.keys {
	case "all":
		return true
	case "0":
		return st.cons.entailsEq(l)
	case "01":
		return st.cons.entailsEq(l) || st.cons.entailsEq(l.addInt(-1)) || (st.cons.entailsLe(l.neg()) && st.cons.entailsLe(l.addInt(-1)))
	case "even":
		return evenLin(st, l)
	}
	return false
}

func isArg(st *State, t *Term, k int64) bool {
	l, ok := argOf(st, t)
	return ok && st.cons.entailsEq(l.addInt(-k))
}

func (h *hc) ksObj(st *State) *Obj {
	var ids []int
	for id, o := range st.heap {
		if o.isKS {
			ids = append(ids, int(id))
		}
	}
	if len(ids) == 0 {
		return nil
	}
	sort.Ints(ids)
	return st.heap[ObjID(ids[0])]
}

// entOf finds what is known about argument k as a key (or member) of a map.
func entOf(st *State, o *Obj, k int64) *ent {
	if o == nil {
		return nil
	}
	for i := range o.ents {
		if isArg(st, o.ents[i].key, k) {
			return &o.ents[i]
		}
	}
	// or a key found to be the same
	want := mk("arg", "", mkLin(linInt(k)))
	for i := range o.ents {
		if v, known := st.decide(eqTerm(st.normTerm(o.ents[i].key), want)); known && v {
			return &o.ents[i]
		}
	}
	return nil
}

// keyInfoOf opens the value of a keyspace entry.
func (h *hc) keyInfoOf(st *State, v V) *Obj {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	p, ok := v.(VPtr)
	if !ok || p.o == 0 {
		return nil
	}
	o := st.obj(p.o)
	if o == nil || !sameNamed(o.typ, h.r.keyInfo) {
		return nil
	}
	return o
}

// container describes the value stored under a key.
type container struct {
	ki     *Obj
	kind   string // by dynamic type; "" unknown
	obj    *Obj   // the set, hash, list or sorted set
	m      *Obj   // its map
	z      *Obj   // its ordered index
	text   *Term  // a string
	card   *Lin
	length *Lin
}

func (h *hc) container(st *State, v V) *container {
	ki := h.keyInfoOf(st, v)
	if ki == nil {
		return nil
	}
	c := &container{ki: ki}
	iv, ok := ki.f[h.r.kiValue].(VIface)
	if !ok || iv.t == nil {
		return c
	}
	c.kind = h.r.kindOfType(iv.t)
	switch x := iv.v.(type) {
	case VTerm:
		c.text = x.t
		return c
	case VPtr:
		c.obj = st.obj(x.o)
	}
	if c.obj == nil {
		return c
	}
	r := h.r
	mapAt := func(f string) *Obj {
		if m, ok := c.obj.f[f].(VMap); ok {
			return st.obj(m.o)
		}
		return nil
	}
	num := func(f string) *Lin {
		if n, ok := c.obj.f[f].(VNum); ok {
			return n.l
		}
		return nil
	}
	switch c.kind {
	case "set":
		c.m, c.length = mapAt(r.setMap), num(r.setLen)
	case "hash":
		c.m, c.length = mapAt(r.hashMap), num(r.hashLen)
	case "zset":
		c.m = mapAt(r.zsMap)
		if p, ok := c.obj.f[r.zsIdx].(VPtr); ok {
			c.z = st.obj(p.o)
		}
		if c.z != nil {
			c.card = c.z.card
		}
	case "list":
		c.length = num(r.listLen)
		if us, ok := h.units(st, c.obj); ok {
			s := linInt(0)
			for _, u := range us {
				s = s.add(unitLen(u))
			}
			c.card = s
		}
	}
	if c.card == nil && c.m != nil {
		c.card = c.m.card
	}
	return c
}

// units walks a list from its head.
func (h *hc) units(st *State, l *Obj) ([]*Obj, bool) {
	hd, ok := l.f[h.r.listHead].(VPtr)
	if !ok {
		return nil, false
	}
	var us []*Obj
	seen := map[ObjID]bool{}
	for p := hd; p.o != 0; {
		o := st.obj(p.o)
		if !h.e.unit(o) || seen[p.o] {
			return nil, false
		}
		seen[p.o] = true
		us = append(us, o)
		n, ok := h.e.unitNext(o)
		if !ok {
			return nil, false
		}
		p = n
	}
	return us, true
}

func cardOf(key *Term) *Lin { return termLin(mk("card", "", tblTerm(key))) }

// sizeStart is the number of elements stored under the key of en before the command.
func (h *hc) sizeStart(st *State, en *ent) *Lin {
	if en == nil || !en.have {
		return nil
	}
	if !en.in0 {
		return linInt(0)
	}
	return cardOf(st.normTerm(en.key))
}

func (h *hc) sizeEnd(st *State, en *ent) *Lin {
	if en == nil {
		return nil
	}
	if !en.in {
		return linInt(0)
	}
	c := h.container(st, en.v)
	if c == nil {
		return nil
	}
	return c.card
}

func showLin(l *Lin) string {
	if l == nil {
		return "?"
	}
	return l.String()
}

// ---------- events ----------

func (h *hc) event(ev Ev) {
	st := ev.st
	var o *Obj
	if ev.obj != 0 {
		o = st.obj(ev.obj)
	}
	switch ev.kind {
	case "nodeval":
		h.nodeValue(ev, o)
	case "mapget", "mapset", "mapdel":
		if o != nil && o.isKS {
			h.prove("C11", "every keyspace access uses a key argument", ev.pos, st, h.keyAllowed(st, ev.key),
				"the keyspace is accessed (%s) under %s, which is not a key argument of %s", ev.kind[3:], ev.key, h.name)
			if ev.kind == "mapset" {
				h.ksSet(ev)
			}
		}
		if o != nil && !o.isKS && ev.kind == "mapset" {
			h.tableSet(ev, o)
		}
	case "visit":
		if o != nil && o.isKS && h.sp.keys != "scan" {
			h.prove("C11", "only KEYS walks the keyspace", ev.pos, st, false, "%s walks over the whole keyspace", h.name)
		}
	case "effect":
		if !h.sp.write {
			h.obl("C12")
			h.bad("C12", "a query has no effect on stored data", ev.pos, st, "%s is a query but changes stored data: %s (key %v)", h.name, ev.s, ev.key)
		} else if h.sp.dest && ev.key != nil {
			h.prove("C12", "*STORE changes only its destination", ev.pos, st, isArg(st, ev.key, 0), "%s changes a source key: %s (key %v)", h.name, ev.s, ev.key)
		}
	case "zinsert":
		if t, ok := ev.v.(VTerm); ok {
			h.prove("C19", "scores given to the index are never NaN", ev.pos, st, h.notNaN(st, t.t), "score %s may be NaN when member %s enters the ordered index", t.t, ev.key)
		}
		h.text(ev.pos, st, ev.key, "sorted set member")
	case "zbound":
		h.zbound(ev)
	case "zdup":
		h.prove("C18", "a member is inserted only when it is not in the index", ev.pos, st, false, "member %s is inserted although it is already in the ordered index", ev.key)
	case "rank-miss":
		if ev.s == "low" {
			h.prove("C22", "rank lookups stay within the index", ev.pos, st, false, "element of rank %s is looked up, but ranks start at 1: the index's header would be returned as a member", showLin(ev.l))
			h.prove("C18", "rank lookups stay within the index", ev.pos, st, false, "element of rank %s is looked up, but ranks start at 1: the index's header would be handled as a member", showLin(ev.l))
		}
	case "shard-mismatch":
		h.prove("C25", "a key is only used with its own shard", ev.pos, st, false, "entry of key %s is accessed in shard %s", ev.key, ev.s)
	case "zprefold":
		if m := st.obj(o.peer); m != nil {
			key := strTerm("?")
			if o.home != nil && o.home.key != nil {
				key = o.home.key
			}
			h.zsetMembers(st, m, o, key, ev.pos, nil)
		}
	case "fold":
		if o != nil && o.isKS {
			h.checkEnt(st, ent{key: ev.key, v: ev.v, in: ev.s == "in", in0: true}, ev.pos, true)
		}
	}
	if h.sp.write {
		h.rep.Obl["C12"] += 0
	}
}

// zbound: a bound of a score range is the number the client gave, exclusive exactly if it was
// written with a leading parenthesis.
func (h *hc) zbound(ev Ev) {
	const rule = "a score bound is read as given"
	st := ev.st
	i, _ := ev.l.int64()
	if int(i) >= len(h.sp.bounds) {
		return
	}
	a := st.normTerm(argT(int64(h.sp.bounds[i])))
	open, known := false, false
	if b, ok := ev.v.(VBool); ok {
		open, known = st.decide(b.b)
	}
	t := st.normTerm(ev.key)
	// says: whether the text is known to be, or not to be, written like this
	forms := []*Term{a, st.normTerm(caseTerm("lower", a)), st.normTerm(caseTerm("upper", a))}
	says := func(mkb func(*Term) *B) (v, ok bool) {
		for _, f := range forms {
			if b, k := st.decide(mkb(f)); k {
				return b, true
			}
		}
		return false, false
	}
	is := func(s string) bool {
		v, ok := says(func(f *Term) *B { return eqTerm(f, strTerm(s)) })
		return ok && v
	}
	switch t.op {
	case "fconst":
		neg, pos := is("-inf") || is("-INF"), is("+inf") || is("inf") || is("+INF") || is("INF")
		if !neg && !pos {
			h.rep.Notes["score bound not recognised"]++
			return
		}
		h.prove("C19", rule, ev.pos, st, neg == (t.s == "-Inf") && !(known && open), "%s reads the bound %s as %s (exclusive: %v)", h.name, a, t.s, open)
	case "fparse":
		x := st.normTerm(t.args[0])
		for _, f := range forms {
			cut := st.normTerm(subTerm(f, linInt(1), strLen(f).addInt(-1)))
			paren, pk := says(func(f *Term) *B { return bAtom(mk("haspre", "Prefix", f, strTerm("("))) })
			switch x {
			case f:
				h.prove("C19", rule, ev.pos, st, t.s == "64" && known && !open && !(pk && paren), "%s reads the bound %s as a whole, but as exclusive, or with less precision", h.name, a)
				return
			case cut:
				h.prove("C19", rule, ev.pos, st, t.s == "64" && known && open && !(pk && !paren), "%s reads the bound %s without its first character, but as inclusive, or with less precision", h.name, a)
				return
			}
		}
		if k, ok := argOf(st, x); ok {
			h.prove("C19", rule, ev.pos, st, st.cons.entailsEq(k.sub(linInt(int64(h.sp.bounds[i])))), "%s reads argument %s as bound number %d", h.name, show(st, k), i+1)
			return
		}
		for j := range h.sp.bounds {
			if int64(j) != i && mentionsArg(st, x, int64(h.sp.bounds[j])) && !mentionsArg(st, x, int64(h.sp.bounds[i])) {
				h.prove("C19", rule, ev.pos, st, false, "%s reads %s as bound number %d", h.name, x, i+1)
				return
			}
		}
		h.rep.Notes["score bound not recognised"]++
	default:
		h.rep.Notes["score bound not recognised"]++
	}
}

func (h *hc) notNaN(st *State, t *Term) bool {
	t = st.normTerm(t)
	if v, ok := st.fact(mk("isnan", "", t)); ok {
		return !v
	}
	if t.op == "fconst" || t.op == "flit" {
		return true
	}
	for f, v := range st.facts {
		// a == b or a < b known true excludes NaN
		if v && (f.op == "flt" || f.op == "feq") && (f.args[0] == t || f.args[1] == t) {
			return true
		}
	}
	return false
}

// text: client data is stored as it came.
func (h *hc) text(pos token.Pos, st *State, t *Term, what string) {
	if t == nil {
		return
	}
	h.prove("C24", "client text is stored unmodified", pos, st, h.pureText(st, t), "%s %s is not an argument as received nor stored text", what, t)
}

func (h *hc) pureText(st *State, t *Term) bool {
	t = st.normTerm(t)
	switch t.op {
	case "arg", "elem", "strval", "str":
		return true
	case "ssym":
		return true // a stored key or member met while iterating
	}
	return false
}

// tableSet checks what enters the table of a set, hash or sorted set.
func (h *hc) tableSet(ev Ev, o *Obj) {
	if !o.smap {
		return
	}
	h.text(ev.pos, ev.st, ev.key, "member or field")
	h.fieldSet(ev, o)
}

// ksSet checks what is stored under a key.
func (h *hc) ksSet(ev Ev) {
	st := ev.st
	c := h.container(st, ev.v)
	if c == nil {
		h.prove("C10", "the keyspace holds key records", ev.pos, st, false, "a value that is not a key record is stored under %s", ev.key)
		return
	}
	h.kindMatches(st, c, ev.pos, ev.key)
	h.keySet(ev, c)
	// no storage of another key
	for id := range st.reach([]V{ev.v}) {
		x := st.obj(id)
		if x == nil || x.home == nil || x.home.key == nil || x.site == "global" {
			continue
		}
		same := st.sameTerm(x.home.key, ev.key)
		if v, known := st.decide(eqTerm(st.normTerm(x.home.key), st.normTerm(ev.key))); known && v {
			same = true
		}
		h.prove("C15", "a value stored under a key does not belong to another key", ev.pos, st, same,
			"the value stored under %s contains the %s of key %s", ev.key, x.site, x.home.key)
	}
}

// kindMatches: the recorded kind is the kind of the value.
func (h *hc) kindMatches(st *State, c *container, pos token.Pos, key *Term) {
	kt, ok := c.ki.f[h.r.kiType].(VTerm)
	if !ok {
		return
	}
	if c.kind == "" {
		iv, isI := c.ki.f[h.r.kiValue].(VIface)
		if isI {
			ty := "nil"
			if iv.t != nil {
				ty = iv.t.String()
			}
			h.prove("C10", "the recorded kind matches the stored value", pos, st, false, "a value of type %s is recorded under %s", ty, key)
		}
		return
	}
	ct, known := st.constOf(st.normTerm(kt.t))
	if !known {
		b := eqTerm(strTerm(c.kind), st.normTerm(kt.t))
		if v, dec := st.decide(b); dec && v {
			return
		}
		h.prove("C10", "the recorded kind matches the stored value", pos, st, false, "a %s is stored under %s, whose recorded kind may be another one", c.kind, key)
		return
	}
	h.prove("C10", "the recorded kind matches the stored value", pos, st, ct.s == c.kind, "a %s is recorded as %q under %s", c.kind, ct.s, key)
}

// ---------- stored data at the end of a command ----------

func (h *hc) checkEnt(st *State, en ent, pos token.Pos, folded bool) {
	if !en.in || en.v == nil {
		return
	}
	c := h.container(st, en.v)
	if c == nil {
		return
	}
	if !folded || en.mod {
		h.kindMatches(st, c, pos, en.key)
	}
	dirty := false
	for id := range st.reach([]V{en.v}) {
		if x := st.obj(id); x != nil && (x.dirty || x.home == nil) {
			dirty = true
		}
	}
	for _, ef := range st.effects {
		if ef.key != nil && st.sameTerm(ef.key, en.key) {
			dirty = true
		}
	}
	if !dirty && !en.mod {
		return
	}
	if c.obj == nil {
		return
	}
	at := pos
	if !at.IsValid() {
		at = c.obj.pos
	}
	switch c.kind {
	case "set", "hash":
		if c.m == nil || c.length == nil {
			h.prove("C17", "size equals number of members", at, st, false, "the %s under %s has no table or no size", c.kind, en.key)
			return
		}
		h.prove("C17", "size equals number of members", at, st, st.cons.entailsEq(c.length.sub(c.m.card)),
			"after %s the size recorded for the %s under %s is %s but it has %s members", h.name, c.kind, en.key, show(st, c.length), show(st, c.m.card))
	case "zset":
		h.zsetOK(st, c, en.key, at)
	case "list":
		h.listOK(st, c, en.key, at)
	}
	if c.card != nil {
		h.prove("C16", "no empty collection stays stored", at, st, st.cons.entailsLe(linInt(1).sub(c.card)),
			"after %s the %s under %s may be empty (%s elements) but the key still exists", h.name, c.kind, en.key, show(st, c.card))
	}
}

func show(st *State, l *Lin) string {
	if l == nil {
		return "?"
	}
	return st.cons.subst(l).String()
}

// zsetOK: lookup table and ordered index agree.
func (h *hc) zsetOK(st *State, c *container, key *Term, pos token.Pos) {
	if c.m == nil || c.z == nil {
		h.prove("C18", "a sorted set has both halves", pos, st, false, "the sorted set under %s lacks its table or its index", key)
		return
	}
	h.prove("C18", "table and index have the same size", pos, st, st.cons.entailsEq(c.m.card.sub(c.z.card)),
		"after %s the table of %s has %s members but the index %s", h.name, key, show(st, c.m.card), show(st, c.z.card))
	h.zsetMembers(st, c.m, c.z, key, pos, nil)
}

func zentOf(st *State, z *Obj, mem *Term) *zent {
	for i := range z.zents {
		if st.sameTerm(z.zents[i].mem, mem) {
			return &z.zents[i]
		}
	}
	for i := range z.zents {
		if v, known := st.decide(eqTerm(st.normTerm(z.zents[i].mem), st.normTerm(mem))); known && v {
			return &z.zents[i]
		}
	}
	return nil
}

func dentOf(st *State, m *Obj, mem *Term) *ent {
	for i := range m.ents {
		if st.sameTerm(m.ents[i].key, mem) {
			return &m.ents[i]
		}
	}
	for i := range m.ents {
		if v, known := st.decide(eqTerm(st.normTerm(m.ents[i].key), st.normTerm(mem))); known && v {
			return &m.ents[i]
		}
	}
	return nil
}

func (h *hc) zsetMembers(st *State, m, z *Obj, key *Term, pos token.Pos, only func(*Term) bool) {
	for i := range m.ents {
		d := &m.ents[i]
		if only != nil && !only(d.key) {
			continue
		}
		ze := zentOf(st, z, d.key)
		switch {
		case ze == nil:
			h.prove("C18", "table and index hold the same members", pos, st, d.in == d.in0,
				"member %s of %s was %s in the table only", d.key, key, map[bool]string{true: "added", false: "removed"}[d.in])
		default:
			h.prove("C18", "table and index hold the same members", pos, st, d.in == ze.in,
				"member %s of %s is %s the table but %s the index", d.key, key, inOut(d.in), inOut(ze.in))
			if d.in && ze.in {
				h.prove("C18", "the table refers to the member's own score", pos, st, h.scorePtr(st, d.v, ze.node),
					"the table entry of member %s of %s does not refer to the score of its node in the index", d.key, key)
			}
		}
	}
	for i := range z.zents {
		x := &z.zents[i]
		if only != nil && !only(x.mem) {
			continue
		}
		if dentOf(st, m, x.mem) == nil {
			h.prove("C18", "table and index hold the same members", pos, st, x.in == x.in0,
				"member %s of %s was %s in the index only", x.mem, key, map[bool]string{true: "added", false: "removed"}[x.in])
		}
	}
}

func inOut(b bool) string {
	if b {
		return "in"
	}
	return "not in"
}

// scorePtr: the table entry leads to the score field of the node.
func (h *hc) scorePtr(st *State, v V, node ObjID) bool {
	if v == nil {
		return true // untouched
	}
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	p, ok := v.(VPtr)
	if !ok {
		return false
	}
	de := st.obj(p.o)
	if de == nil {
		return false
	}
	f := de.f[h.r.deVal]
	if i, ok := f.(VIface); ok {
		f = i.v
	}
	q, ok := f.(VPtr)
	if !ok {
		return false
	}
	if q.o == node && q.path == h.r.znScore {
		return true
	}
	return false
}

// listOK: the list is well formed in both directions.
func (h *hc) listOK(st *State, c *container, key *Term, pos token.Pos) {
	l := c.obj
	hd, ok1 := l.f[h.r.listHead].(VPtr)
	tl, ok2 := l.f[h.r.listTail].(VPtr)
	if !ok1 || !ok2 {
		h.prove("C20", "list ends are known", pos, st, st.vague, "the ends of the list under %s are lost", key)
		return
	}
	us, ok := h.units(st, l)
	if !h.prove("C20", "the list can be walked from its head", pos, st, ok, "the list under %s cannot be walked from its head (cycle or dangling node)", key) {
		return
	}
	if len(us) == 0 {
		h.prove("C20", "an empty list has no ends and no length", pos, st, tl.o == 0 && hd.o == 0 && c.length != nil && st.cons.entailsEq(c.length),
			"the list under %s has no head but tail %s and length %s", key, showV(tl), showLin(c.length))
		return
	}
	first, last := us[0], us[len(us)-1]
	h.prove("C20", "the head is the first node", pos, st, hd.o == first.id && (hd.idx == nil || st.cons.entailsEq(hd.idx)), "head of the list under %s is not its first node", key)
	if p, ok := h.e.unitPrev(first); true {
		h.prove("C20", "nothing precedes the head", pos, st, ok && p.o == 0, "the first node of the list under %s has a predecessor", key)
	}
	for i := 0; i+1 < len(us); i++ {
		h.prove("C20", "neighbours point at each other", pos, st, h.e.follows(st, us[i], us[i+1]), "two neighbouring nodes of the list under %s do not point at each other", key)
	}
	li := linInt(0)
	if tl.idx != nil {
		li = tl.idx
	}
	h.prove("C20", "the tail is the last node", pos, st, tl.o == last.id && st.cons.entailsEq(li.sub(unitLen(last)).addInt(1)), "tail of the list under %s is not its last node", key)
	if c.length != nil && c.card != nil {
		h.prove("C20", "the length is the number of elements", pos, st, st.cons.entailsEq(c.length.sub(c.card)),
			"after %s the length recorded for the list under %s is %s but it has %s elements", h.name, key, show(st, c.length), show(st, c.card))
	}
}

// ---------- end of a command ----------

func (h *hc) exit(st *State) {

	ks := h.ksObj(st)
	if st.panic != nil {
		h.panicked(st, ks)
		return
	}
	rp := h.reply(st)
	pos := h.fn.Pos()
	isErr := rp.kind == "error" || rp.kind == "errline"
	if rp.kind == "unknown" {
		h.rep.Notes["reply of unknown form"]++
	}
	// effects under an error reply
	if isErr {
		h.obl("C13")
		for _, ef := range st.effects {
			h.bad("C13", "an error reply means nothing changed", ef.pos, st, "%s replies with an error (%s) after %s (key %v)", h.name, errText(rp.err), ef.what, ef.key)
		}
		if why := h.argProblem(st); why != "" {
			h.obl("C09")
			for _, ef := range st.effects {
				h.bad("C09", "rejected arguments have no effect", ef.pos, st, "%s: %s, but %s (key %v)", h.name, why, ef.what, ef.key)
			}
		}
	}
	if ks != nil {
		for _, en := range ks.ents {
			h.checkEnt(st, en, lastEffect(st), false)
		}
		h.shared(st, ks)
		h.wrongKind(st, ks, rp, isErr)
	}
	if rp.kind == "unknown" {
		return
	}
	h.args(st, isErr)
	if ks != nil {
		h.missingKey(st, ks, rp, isErr)
	}
	if !isErr {
		if ks != nil {
			h.integer(st, ks, rp)
			h.stored(st, ks, rp)
		}
		h.wraps(st, ks, rp)
	}
	h.wellFormed(st, rp, pos)
}

func lastEffect(st *State) token.Pos {
	if n := len(st.effects); n > 0 {
		return st.effects[n-1].pos
	}
	return token.NoPos
}

func errText(t *Term) string {
	if t == nil {
		return "error"
	}
	s := t.s
	if t.op == "errglobal" && len(t.args) > 0 {
		s = t.args[0].s
	}
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (h *hc) panicked(st *State, ks *Obj) {
	pn := st.panic
	h.obl("C13")
	for _, ef := range st.effects {
		h.prove("C13", "a command that fails half way has changed nothing", pn.pos, st, false, "%s may panic (%s: %s) and reply with an error after %s (key %v)", h.name, pn.kind, pn.msg, ef.what, ef.key)
	}
	if pn.kind == "index" || pn.kind == "slice" {
		if strings.Contains(pn.msg, "nargs") || h.argsPanic(pn) {
			h.prove("C09", "only supplied arguments are read", pn.pos, st, false, "%s reads an argument the client may not have sent: %s", h.name, pn.msg)
			return
		}
	}
	if pn.kind == "assert" {
		h.prove("C10", "no type assertion on stored values fails", pn.pos, st, false, "%s may panic: %s", h.name, pn.msg)
		return
	}
	// a panic on a missing key is not its documented answer
	missing := false
	if ks != nil {
		for _, en := range ks.ents {
			if en.have && !en.in0 {
				missing = true
			}
		}
	}
	if missing && h.sp.query {
		h.prove("C26", "a missing key has its empty answer", pn.pos, st, false, "%s on a missing key may panic (%s: %s)", h.name, pn.kind, pn.msg)
	}
	if pn.kind == "make" || pn.kind == "slice" || pn.kind == "index" {
		h.prove("C09", "arguments of any value are handled", pn.pos, st, false, "%s may panic: %s", h.name, pn.msg)
	}
	if h.sp.kind == "list" {
		h.prove("C20", "list operations do not fail", pn.pos, st, false, "%s may panic (%s: %s)", h.name, pn.kind, pn.msg)
		if strings.Contains("lindex lset lrange", h.name) {
			h.prove("C21", "positions are resolved without failing", pn.pos, st, false, "%s may panic (%s: %s)", h.name, pn.kind, pn.msg)
		}
	}
}

func (h *hc) argsPanic(pn *PanicInfo) bool { return strings.Contains(pn.msg, "args") }

// argProblem tells what is wrong with the arguments on this path, if that is known.
func (h *hc) argProblem(st *State) string {
	n := termLin(mk("isym", "nargs"))
	if st.cons.entailsLe(n.addInt(int64(1 - h.sp.min))) {
		return fmt.Sprintf("fewer than %d arguments", h.sp.min)
	}
	if h.sp.even && !st.cons.entailsEq(modTerm(n)) && st.cons.excludesEq(modTerm(n)) {
		return "odd number of arguments"
	}
	if h.sp.odd && st.cons.entailsEq(modTerm(n)) {
		return "even number of arguments"
	}
	for f, v := range st.facts {
		if !v && f.op == "parseok" {
			return "an argument is not a number"
		}
		if v && f.op == "isnan" {
			return "an argument is not a number"
		}
	}
	return ""
}

func modTerm(n *Lin) *Lin {
	m := mk("mod", "", mkLin(n), mkLin(linInt(2)))
	return termLin(m)
}

// args: a successful reply implies well-formed arguments.
func (h *hc) args(st *State, isErr bool) {
	if isErr {
		return
	}
	n := termLin(mk("isym", "nargs"))
	pos := h.fn.Pos()
	if h.sp.min > 0 {
		h.prove("C09", "enough arguments", pos, st, st.cons.entailsLe(linInt(int64(h.sp.min)).sub(n)),
			"%s answers without an error although fewer than %d arguments may have been given", h.name, h.sp.min)
	}
	if h.sp.even || h.sp.odd {
		want := int64(0)
		if h.sp.odd {
			want = 1
		}
		ok := h.parity(st, n, want)
		h.prove("C09", "arguments come in pairs", pos, st, ok, "%s answers without an error although an argument may lack its pair", h.name)
	}
	num := func(k int, what string) {
		if st.cons.entailsLe(n.addInt(int64(-k))) {
			return // not supplied
		}
		h.prove("C09", "numeric arguments are numbers", pos, st, h.parsed(st, int64(k), what),
			"%s answers without an error although argument %d may not be %s", h.name, k+1, map[string]string{"i": "an integer", "f": "a number", "b": "a valid bound"}[what])
	}
	for _, k := range h.sp.ints {
		num(k, "i")
	}
	for _, k := range h.sp.floats {
		num(k, "f")
	}
	for _, k := range h.sp.bounds {
		num(k, "b")
	}
}

func (h *hc) parity(st *State, n *Lin, want int64) bool {
	l := st.cons.subst(modTerm(n))
	if k, ok := l.int64(); ok {
		return k == want
	}
	// n itself rewritten to 2*x + want
	s := st.cons.subst(n).addInt(-want)
	if evenLin(st, s) {
		return true
	}
	return false
}

func mentionsArg(st *State, t *Term, k int64) bool {
	hit := false
	t.walk(func(x *Term) {
		if x.op == "arg" && isArg(st, x, k) {
			hit = true
		}
	})
	return hit
}

// parsed: argument k was successfully read as a number.
func (h *hc) parsed(st *State, k int64, what string) bool {
	for f, v := range st.facts {
		switch f.op {
		case "parseok":
			if v && mentionsArg(st, f.args[0], k) {
				if what == "i" && !strings.HasPrefix(f.s, "i") {
					continue
				}
				return true
			}
		case "eq":
			if v && what == "b" && (mentionsArg(st, f.args[0], k) && f.args[1].isStr() || mentionsArg(st, f.args[1], k) && f.args[0].isStr()) {
				return true
			}
		}
	}
	// constants known to be equal to the argument
	if c, ok := st.constOf(mk("arg", "", mkLin(linInt(k)))); ok && c != nil {
		return true
	}
	return false
}

// shared: no stored object is reachable through two keys.
func (h *hc) shared(st *State, ks *Obj) {
	owner := map[ObjID]*Term{}
	for _, en := range ks.ents {
		if !en.in || en.v == nil {
			continue
		}
		h.obl("C15")
		for id := range st.reach([]V{en.v}) {
			x := st.obj(id)
			if x == nil || x.site == "global" || x.kind == kSlice && x.args {
				continue
			}
			if x.home != nil && x.home.key != nil {
				same := st.sameTerm(x.home.key, en.key)
				if v, known := st.decide(eqTerm(st.normTerm(x.home.key), st.normTerm(en.key))); known && v {
					same = true
				}
				if !same {
					h.prove("C15", "every stored value belongs to one key", lastEffect(st), st, false, "after %s key %s reaches the %s of key %s", h.name, en.key, x.site, x.home.key)
				}
			}
			if k, ok := owner[id]; ok && k != en.key {
				h.prove("C15", "every stored value belongs to one key", lastEffect(st), st, false, "after %s keys %s and %s share a %s", h.name, k, en.key, x.site)
			}
			owner[id] = en.key
		}
	}
}

// wrongKind: a key of another kind leads to an error and stays as it was.
func (h *hc) wrongKind(st *State, ks *Obj, rp Reply, isErr bool) {
	if h.sp.kind == "" || h.sp.lenient || isErr {
		return
	}
	for _, en := range ks.ents {
		if !en.have || !en.in0 {
			continue
		}
		if (h.sp.over || h.sp.dest) && (h.sp.over || isArg(st, en.key, 0)) {
			continue
		}
		k := mk("kind", "", st.normTerm(en.key))
		ct, known := st.constOf(k)
		ok := known && ct.s == h.sp.kind
		if !known {
			// excluded alternatives
			if v, d := st.decide(eqTerm(strTerm(h.sp.kind), k)); d && v {
				ok = true
			}
		}
		h.prove("C10", "a key of another kind is refused", h.fn.Pos(), st, ok,
			"%s answers without an error although key %s may hold something other than a %s", h.name, en.key, h.sp.kind)
	}
}

func (h *hc) hasBadParse(st *State) bool {
	for f, v := range st.facts {
		if f.op == "parseok" && !v || f.op == "isnan" && v || f.op == "globok" && !v {
			return true
		}
	}
	return false
}

// missingKey: queries and removals on missing keys give their empty answer.
func (h *hc) missingKey(st *State, ks *Obj, rp Reply, isErr bool) {
	if !h.sp.query {
		return
	}
	pos := h.fn.Pos()
	if isErr {
		if rp.err != nil && rp.err.op == "errglobal" && strings.HasSuffix(rp.err.s, ".ErrNil") {
			h.prove("C26", "no internal not-found error is sent", pos, st, false, "%s replies with the internal not-found error", h.name)
			return
		}
		if len(ks.ents) == 0 || h.argProblem(st) != "" || h.hasBadParse(st) {
			return
		}
		for _, en := range ks.ents {
			if !en.have || en.in0 {
				return
			}
		}
		// every key looked at is missing, the arguments are fine
		if !h.argsOK(st) {
			return
		}
		h.prove("C26", "a missing key is not an error", pos, st, false, "%s on a missing key replies with the error %s", h.name, errText(rp.err))
		return
	}
	en := entOf(st, ks, 0)
	if en == nil || !en.have || en.in0 {
		// set algebra: a missing operand counts as an empty set
		h.algebra(st, ks, rp)
		return
	}
	if h.sp.dest {
		return
	}
	ok := false
	for _, m := range h.sp.missing {
		switch {
		case m == "0":
			if rp.kind == "integer" {
				if l := intOf(rp.v); l != nil && st.cons.entailsEq(l) {
					ok = true
				}
			}
		case m == "nil":
			ok = ok || rp.kind == "nil"
		case m == "empty":
			ok = ok || rp.kind == "empty"
		case m == "array":
			ok = ok || rp.kind == "array" || rp.kind == "empty"
		case strings.HasPrefix(m, "simple:"):
			if rp.kind == "simple" {
				if t := textOf(rp.v); t != nil {
					if c, k := st.constOf(t); k && c.s == m[7:] {
						ok = true
					}
				}
			}
		}
	}
	if !ok && rp.kind == "array" && rp.n != nil && st.cons.entailsEq(rp.n) {
		for _, m := range h.sp.missing {
			ok = ok || m == "empty"
		}
	}
	h.prove("C26", "a missing key has its empty answer", pos, st, ok, "%s on a missing key answers with %s instead of %s", h.name, h.describe(st, rp), strings.Join(h.sp.missing, " or "))
	h.algebra(st, ks, rp)
	if h.name == "hmget" && rp.kind == "array" {
		for _, it := range rp.items {
			i, isI := it.v.(VIface)
			h.prove("C26", "a missing key has its empty answer", pos, st, isI && i.t == nil, "HMGET on a missing key answers with something other than nil")
		}
		h.prove("C26", "a missing key has its empty answer", pos, st, st.cons.entailsEq(rp.n.sub(termLin(mk("isym", "nargs"))).addInt(1)), "HMGET on a missing key does not answer once per field")
	}
}

// argsOK: every numeric argument is known to be fine on this path.
func (h *hc) argsOK(st *State) bool {
	n := termLin(mk("isym", "nargs"))
	if !st.cons.entailsLe(linInt(int64(h.sp.min)).sub(n)) {
		return false
	}
	for _, g := range []struct {
		ks []int
		w  string
	}{{h.sp.ints, "i"}, {h.sp.floats, "f"}, {h.sp.bounds, "b"}} {
		for _, k := range g.ks {
			if !st.cons.entailsLe(n.addInt(int64(-k))) && !h.parsed(st, int64(k), g.w) {
				return false
			}
			if g.w == "i" {
				// a range check on the number may be documented
				it := mk("iparse", "10", mk("arg", "", mkLin(linInt(int64(k)))))
				for _, q := range st.cons.ineq {
					if q.coef(it) != nil && q.coef(it).Sign() != 0 {
						return false
					}
				}
				if len(st.cons.subst(termLin(it)).t) == 0 {
					return false
				}
			}
		}
	}
	return true
}

func (h *hc) algebra(st *State, ks *Obj, rp Reply) {
	size := func() *Lin {
		switch rp.kind {
		case "empty", "nil":
			return linInt(0)
		case "array":
			return rp.n
		case "integer":
			return intOf(rp.v)
		}
		return nil
	}
	first := int64(0)
	if h.sp.dest {
		first = 1
	}
	switch h.name {
	case "sinter", "sinterstore":
		for _, en := range ks.ents {
			if en.have && !en.in0 && !(h.sp.dest && isArg(st, en.key, 0)) {
				if l := size(); l != nil {
					h.prove("C26", "a missing key is an empty set", h.fn.Pos(), st, st.cons.entailsEq(l), "%s with the missing key %s may have a result that is not empty", h.name, en.key)
				}
			}
		}
	case "sdiff", "sdiffstore":
		if en := entOf(st, ks, first); en != nil && en.have && !en.in0 {
			if l := size(); l != nil {
				h.prove("C26", "a missing key is an empty set", h.fn.Pos(), st, st.cons.entailsEq(l), "%s with the missing first key %s may have a result that is not empty", h.name, en.key)
			}
		}
	}
}

func intOf(v V) *Lin {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	if n, ok := v.(VNum); ok {
		return n.l
	}
	return nil
}

func textOf(v V) *Term {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	if t, ok := v.(VTerm); ok {
		return t.t
	}
	return nil
}

func (h *hc) describe(st *State, rp Reply) string {
	switch rp.kind {
	case "integer":
		return "integer " + show(st, intOf(rp.v))
	case "simple", "bulk":
		return rp.kind + " " + showV(rp.v)
	case "array":
		return "an array of " + show(st, rp.n)
	}
	return rp.kind
}

// integer: the integer reply is the fact it stands for.
func (h *hc) integer(st *State, ks *Obj, rp Reply) {
	if h.sp.integer == "" || rp.kind != "integer" {
		if h.sp.integer != "" && rp.kind != "integer" && rp.kind != "unknown" {
			h.prove("C22", "the reply is an integer", h.fn.Pos(), st, false, "%s answers with %s instead of an integer", h.name, h.describe(st, rp))
		}
		return
	}
	got := intOf(rp.v)
	if got == nil {
		h.prove("C22", "the integer is the fact it stands for", h.fn.Pos(), st, false, "%s: the integer reply is unknown", h.name)
		return
	}
	en := entOf(st, ks, 0)
	if en == nil {
		h.rep.Notes["integer reply without key"]++
		h.prove("C22", "the integer is the fact it stands for", h.fn.Pos(), st, false, "%s answers %s without looking at its key", h.name, show(st, got))
		return
	}
	var want *Lin
	b2i := func(b bool) *Lin {
		if b {
			return linInt(1)
		}
		return linInt(0)
	}
	switch h.sp.integer {
	case "present":
		want = b2i(en.in0)
	case "deleted":
		want = b2i(en.in0 && !en.in)
	case "size":
		want = h.sizeEnd(st, en)
	case "added":
		a, b := h.sizeStart(st, en), h.sizeEnd(st, en)
		if a != nil && b != nil {
			want = b.sub(a)
		}
	case "removed":
		a, b := h.sizeStart(st, en), h.sizeEnd(st, en)
		if a != nil && b != nil {
			want = a.sub(b)
		}
	case "moved":
		if !en.have || !en.in0 {
			want = linInt(0)
			break
		}
		en1 := entOf(st, ks, 1)
		a, b := h.sizeStart(st, en), h.sizeEnd(st, en)
		if a == nil || b == nil {
			break
		}
		if en1 != nil && en1.key != en.key || en1 == nil {
			want = a.sub(b)
		}
		if en1 == en {
			want = nil // source and target are the same key
			return
		}
	case "member":
		if en.have && !en.in0 {
			want = linInt(0)
			break
		}
		c := h.container(st, en.v)
		if c != nil && c.m != nil {
			if me := entOf(st, c.m, 1); me != nil && me.have {
				want = b2i(me.in0)
			} else {
				h.prove("C22", "the integer is the fact it stands for", h.fn.Pos(), st, false, "%s answers %s without looking the member up", h.name, show(st, got))
				return
			}
		}
	}
	if want == nil {
		h.rep.Notes["integer reply not comparable"]++
		return
	}
	h.prove("C22", "the integer is the fact it stands for", h.fn.Pos(), st, st.cons.entailsEq(got.sub(want)),
		"%s answers %s where %s is %s", h.name, show(st, got), map[string]string{"present": "the key's presence", "deleted": "the number of deleted keys", "size": "the size", "added": "the number of added elements",
			"removed": "the number of removed elements", "moved": "the number of moved members", "member": "the membership"}[h.sp.integer], show(st, want))
}

// wraps: counters never wrap around.
func (h *hc) wraps(st *State, ks *Obj, rp Reply) {
	if !h.sp.counter {
		return
	}
	h.obl("C23")
	if st.wrapped {
		for _, p := range st.wraps {
			h.prove("C23", "sums that overflow are refused", p, st, false, "%s stores or returns a sum that wrapped around", h.name)
		}
		return
	}
	if rp.kind != "integer" || intOf(rp.v) == nil {
		h.prove("C23", "the reply is the sum", h.fn.Pos(), st, false, "%s answers with %s instead of the sum", h.name, h.describe(st, rp))
		return
	}
	got := intOf(rp.v)
	argN := func(k int64) *Lin { return termLin(iparse(mk("arg", "", mkLin(linInt(k))), "10")) }
	var delta *Lin
	switch h.name {
	case "incr":
		delta = linInt(1)
	case "decr":
		delta = linInt(-1)
	case "incrby":
		delta = argN(1)
	case "decrby":
		delta = argN(1).neg()
	case "hincrby":
		delta = argN(2)
	}
	en := entOf(st, ks, 0)
	if en == nil || !en.have {
		return
	}
	old := linInt(0)
	var storedNow *Lin
	if h.name == "hincrby" {
		c := h.container(st, en.v)
		if c == nil || c.m == nil {
			return
		}
		me := entOf(st, c.m, 1)
		if me == nil {
			h.prove("C23", "the sum is stored", h.fn.Pos(), st, false, "HINCRBY does not store the sum")
			return
		}
		if en.in0 && me.have && me.in0 {
			hv := mk("hval", "", tblTerm(st.normTerm(en.key)), me.key)
			old = nil
			old = hvInt(st, hv)
		}
		if i, ok := me.v.(VIface); ok {
			if n, ok := i.v.(VNum); ok {
				storedNow = n.l
			}
		}
	} else {
		if en.in0 {
			k := st.normTerm(en.key)
			old = termLin(iparse(mk("strval", "", mk("ksval", "", k)), "10"))
		}
		if c := h.container(st, en.v); c != nil && c.text != nil {
			t := st.normTerm(c.text)
			if t.op == "fmtint" {
				storedNow = termLin(t.args[0])
			} else if t.isStr() {
				if b, ok := new(big.Rat).SetString(t.s); ok && b.IsInt() {
					storedNow = linConst(b)
				}
			}
		}
	}
	if old == nil {
		h.rep.Notes["counter without comparable old value"]++
		return
	}
	want := old.add(delta)
	h.prove("C23", "the reply is the exact sum", h.fn.Pos(), st, st.cons.entailsEq(got.sub(want)), "%s answers %s where the sum is %s", h.name, show(st, got), show(st, want))
	h.prove("C23", "the exact sum is stored", h.fn.Pos(), st, storedNow != nil && st.cons.entailsEq(storedNow.sub(want)), "%s stores %s where the sum is %s", h.name, showLin(storedNow), show(st, want))
}

func hvInt(st *State, hv *Term) *Lin { return termLin(mk("intval", "", hv)) }

// wellFormed: the reply can be encoded and carries no user text outside bulk strings.
func (h *hc) wellFormed(st *State, rp Reply, pos token.Pos) {
	if rp.kind == "error" {
		h.prove("C03", "error lines carry no client text", pos, st, constErr(rp.err), "%s replies with an error whose text is not fixed (%s)", h.name, rp.err)
		return
	}
	for _, it := range rp.items {
		i, ok := it.v.(VIface)
		if !ok {
			if ve, isE := it.v.(VErr); isE && it.typ == h.pt.errs {
				h.prove("C03", "error lines carry no client text", pos, st, constErr(ve.t), "%s replies with an error whose text is not fixed (%s)", h.name, ve.t)
				continue
			}
			if it.v == nil && it.typ == -1 {
				h.rep.Notes["reply item not comparable"]++
				continue
			}
			h.prove("C03", "payload types fit the reply", pos, st, false, "%s replies with a payload %s of unknown type", h.name, showV(it.v))
			continue
		}
		ok2 := false
		switch it.typ {
		case h.pt.simple:
			ok2 = i.t != nil && isPlain(i.t, types.String)
			if t := textOf(i); ok2 && t != nil {
				t = st.normTerm(t)
				_, isC := st.constOf(t)
				h.prove("C03", "status lines carry no client text", pos, st, isC || t.op == "kind", "%s sends %s in a status line", h.name, t)
			}
		case h.pt.ints:
			ok2 = i.t != nil && isPlain(i.t, types.Int64)
		case h.pt.bulk:
			ok2 = i.t == nil || isPlain(i.t, types.String)
		default:
			h.rep.Notes["reply item of unknown type"]++
			continue
		}
		ty := "nil"
		if i.t != nil {
			ty = i.t.String()
		}
		h.prove("C03", "payload types fit the reply", pos, st, ok2, "%s replies with a payload of type %s, which the encoder cannot send as this kind of reply", h.name, ty)
		if it.typ == h.pt.bulk && i.t != nil {
			if t := textOf(i); t != nil {
				h.prove("C24", "text is returned unmodified", pos, st, h.replyText(st, t), "%s returns %s, which is not stored text as it was written", h.name, t)
			}
		}
	}
}

func isPlain(t types.Type, k types.BasicKind) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == k
}

func (h *hc) replyText(st *State, t *Term) bool {
	t = st.normTerm(t)
	if h.pureText(st, t) {
		return true
	}
	switch t.op {
	case "fmtint", "fmtflt", "fmtflts", "uf":
		return true
	}
	return false
}

func constErr(t *Term) bool {
	if t == nil {
		return false
	}
	if t.op == "errnew" {
		return len(t.args) == 0 || t.args[0].s != "client" && !strings.ContainsAny(t.args[0].s, "\r\n")
	}
	if t.op == "errglobal" {
		return len(t.args) > 0 && !strings.ContainsAny(t.args[0].s, "\r\n")
	}
	return false
}
