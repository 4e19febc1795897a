package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C25: every operation of the sharded map, run on an arbitrary map, is compared
// with what the same operation of one big map does.

type mapOp struct {
	c      *ctx
	e      *Engine
	name   string
	fn     *ssa.Function
	id     ObjID
	key    *Term
	val    V
	shards *Lin
	calls  int
	said   map[string]bool
}

func (m *mapOp) prove(rule string, pos token.Pos, st *State, ok bool, f string, a ...interface{}) bool {
	m.c.obl()
	if ok {
		return true
	}
	if st.vague || m.e.vagueAll || m.e.aborted {
		m.c.undecided("C25 %s %s", m.name, rule)
		return false
	}
	w := m.c.p.pos(pos)
	if w == "-" {
		w = m.c.p.pos(m.fn.Pos())
	}
	if m.said == nil {
		m.said = map[string]bool{}
	}
	if k := rule + w; !m.said[k] {
		m.said[k] = true
		m.c.bad(rule, w, m.name+": "+f, a...)
	}
	return false
}

func (m *mapOp) num(st *State, k string) *Lin {
	if n, ok := st.tag[k].(VNum); ok {
		return n.l
	}
	return linInt(0)
}

func (m *mapOp) add(st *State, k string, n int64) {
	st.setTag(k, VNum{m.num(st, k).addInt(n)})
}

func (st *State) setTag(k string, v V) {
	n := make(map[string]V, len(st.tag)+1)
	for a, b := range st.tag {
		n[a] = b
	}
	n[k] = v
	st.tag = n
}

func (m *mapOp) same(st *State, a, b V) bool {
	if a == nil || b == nil {
		return false
	}
	if showV(a) == showV(b) {
		return true
	}
	v, known := st.decide(m.e.equal(st, a, b))
	return known && v
}

// entry of key in the initial map and now.
func (m *mapOp) entry(st *State) (was, is, known bool, v V) {
	o := st.obj(m.id)
	for _, en := range o.ents {
		if st.sameTerm(en.key, m.key) {
			return en.in0, en.in, true, en.v
		}
	}
	return
}

func (m *mapOp) oldVal(st *State) V { return VIfaceSym{mk("hval", "", st.obj(m.id).list, m.key)} }

var mapMutators = map[string]bool{"Set": true, "SetIfAbsent": true, "Upsert": true, "Delete": true, "DeleteIfExists": true, "LoadAndDelete": true, "RangeAndDelete": true}

func (m *mapOp) event(ev Ev) {
	st := ev.st
	switch ev.kind {
	case "shard-mismatch":
		m.prove("a key is only used with its own shard", ev.pos, st, false, "entry of key %s is accessed in shard %s", ev.key, ev.s)
	case "append":
		if t, ok := ev.v.(VTerm); ok && m.name == "Keys" {
			cur, _ := st.tag["cur"].(VTerm)
			m.prove("the keys listed are the keys of the map", ev.pos, st, cur.t != nil && st.sameTerm(cur.t, t.t), "%s is listed as a key", t.t)
		}
	case "mapset":
		if ev.obj != m.id {
			return
		}
		m.prove("only the entry of the key changes", ev.pos, st, mapMutators[m.name] && m.key != nil && st.sameTerm(ev.key, m.key), "the entry of %s is written", ev.key)
	case "mapdel":
		if ev.obj != m.id {
			return
		}
		if m.name == "RangeAndDelete" {
			cur, _ := st.tag["cur"].(VTerm)
			ok := cur.t != nil && st.sameTerm(cur.t, ev.key) && st.cons.entailsEq(m.num(st, "dels").sub(m.num(st, "deleted")).addInt(-1))
			m.prove("an entry is deleted only when the callback asked for it", ev.pos, st, ok, "entry %s is deleted although the callback was not asked about it or did not say so", ev.key)
			m.add(st, "deleted", 1)
			return
		}
		m.prove("only the entry of the key changes", ev.pos, st, mapMutators[m.name] && m.key != nil && st.sameTerm(ev.key, m.key), "the entry of %s is deleted", ev.key)
	case "visit":
		if ev.obj != m.id {
			return
		}
		m.settled(st, ev.pos)
		if m.name == "Range" || m.name == "RangeAndDelete" {
			m.prove("iteration ends when the callback says so", ev.pos, st, st.cons.entailsEq(m.num(st, "stops")), "another entry is visited after the callback asked to stop")
		}
		m.add(st, "seen", 1)
		st.setTag("cur", VTerm{ev.key})
	}
}

// settled: everything asked for so far was done.
func (m *mapOp) settled(st *State, pos token.Pos) {
	if m.name == "Range" || m.name == "RangeAndDelete" {
		m.prove("every visited entry is given to the callback", pos, st, st.cons.entailsEq(m.num(st, "seen").sub(m.num(st, "called"))), "an entry is passed over without a call of the callback")
	}
	if m.name == "RangeAndDelete" {
		m.prove("an entry the callback wants deleted is deleted", pos, st, st.cons.entailsEq(m.num(st, "dels").sub(m.num(st, "deleted"))), "an entry the callback wanted deleted stays (or another one was deleted)")
	}
}

func (m *mapOp) callback(e *Engine, st *State, in ssa.CallInstruction, res ssa.Value, args []V) []*State {
	m.calls++
	pos := in.Pos()
	split := func(st *State, tag string) (yes, no *State) {
		no = st.clone()
		m.add(st, tag, 1)
		return st, no
	}
	switch m.name {
	case "Range", "RangeAndDelete":
		cur, _ := st.tag["cur"].(VTerm)
		ok := len(args) == 2 && cur.t != nil
		if ok {
			k, isT := args[0].(VTerm)
			ok = isT && st.sameTerm(k.t, cur.t) && m.same(st, args[1], VIfaceSym{mk("hval", "", st.obj(m.id).list, cur.t)})
		}
		m.prove("the callback is given the visited entry", pos, st, ok, "the callback is not given the key and the value of the visited entry")
		m.add(st, "called", 1)
		m.prove("every entry is given to the callback once", pos, st, st.cons.entailsEq(m.num(st, "seen").sub(m.num(st, "called"))), "the callback is called again for the same entry")
		if m.name == "Range" {
			stop, goOn := split(st, "stops")
			return append(set1(stop, res, VBool{bFalse}), set1(goOn, res, VBool{bTrue})...)
		}
		var out []*State
		d, k := split(st, "dels")
		for i, s := range []*State{d, k} {
			stop, goOn := split(s, "stops")
			del := VBool{bConst(i == 0)}
			out = append(out, set1(stop, res, VTuple{[]V{del, VBool{bFalse}}})...)
			out = append(out, set1(goOn, res, VTuple{[]V{del, VBool{bTrue}}})...)
		}
		return out
	case "Upsert":
		m.prove("the callback is called once", pos, st, st.cons.entailsEq(m.num(st, "called")), "the callback is called more than once")
		m.add(st, "called", 1)
		was, _, known, _ := m.entry(st)
		ok := known && len(args) == 3
		if ok {
			b, isB := args[0].(VBool)
			if isB {
				v, dk := st.decide(b.b)
				ok = dk && v == was
			} else {
				ok = false
			}
		}
		m.prove("the callback is told whether the key exists", pos, st, ok, "the callback is not told the truth about the presence of the key")
		if len(args) == 3 {
			if was {
				m.prove("the callback is given the stored value", pos, st, m.same(st, args[1], m.oldVal(st)), "the callback is not given the value stored under the key")
			}
			m.prove("the callback is given the new value", pos, st, m.same(st, args[2], m.val), "the callback is not given the new value")
		}
		r := e.freshOf(st, types.NewInterfaceType(nil, nil), "cbres")
		st.setTag("res", r)
		ab, no := split(st, "aborts")
		return append(set1(ab, res, VTuple{[]V{r, VBool{bTrue}}}), set1(no, res, VTuple{[]V{r, VBool{bFalse}}})...)
	}
	return e.setFresh(st, res, in.Common().Signature().Results(), "cb")
}

func (m *mapOp) isBool(st *State, v V, want bool) bool {
	b, ok := v.(VBool)
	if !ok {
		return false
	}
	got, known := st.decide(b.b)
	return known && got == want
}

// complete: every shard was walked to its end.
func (m *mapOp) complete(st *State, pos token.Pos) {
	o := st.obj(m.id)
	const rule = "iteration covers every shard"
	if o.gap {
		m.prove(rule, pos, st, false, "a shard is left out of the iteration")
		return
	}
	if o.odd {
		m.c.undecided("C25 %s: the order in which shards are visited is not followed", m.name)
		return
	}
	ok := o.slo != nil && st.cons.entailsLe(o.slo) && st.cons.entailsLe(m.shards.sub(o.shi))
	m.prove(rule, pos, st, ok, "the iteration ends although not every shard was walked to its end (walked: %s)", walked(st, o))
}

func walked(st *State, o *Obj) string {
	if o.slo == nil {
		return "none"
	}
	return st.cons.subst(o.slo).String() + " up to " + st.cons.subst(o.shi).String()
}

func (m *mapOp) exit(st *State) {
	pos := m.fn.Pos()
	// every map has this many shards
	st.cons.addEq(termLin(m.e.roles.shardAtom).sub(m.shards))
	if st.cons.bad {
		return
	}
	if st.panic != nil {
		m.prove("map operations do not panic", st.panic.pos, st, false, "may panic: %s", st.panic.msg)
		return
	}
	was, is, known, v := m.entry(st)
	ret := func(i int) V {
		if i < len(st.ret) {
			return st.ret[i]
		}
		return nil
	}
	nilV := VIface{}
	unchanged := func() {
		m.prove("the entry is left alone", pos, st, known && was == is && (!is || m.same(st, v, m.oldVal(st))), "the entry of the key is changed on a path where it must stay as it was")
	}
	set := func(want V) {
		m.prove("the entry is written", pos, st, known && is && m.same(st, v, want), "afterwards the map does not hold the promised value under the key")
	}
	gone := func() {
		m.prove("the entry is removed", pos, st, known && !is, "the key is still in the map")
	}
	bool1 := func(i int, want bool) {
		m.prove("presence is reported truthfully", pos, st, m.isBool(st, ret(i), want), "reports %s where %v is the truth", showV(ret(i)), want)
	}
	if m.key != nil && !known {
		m.prove("the entry of the key is used", pos, st, false, "returns without looking at the entry of the key")
		return
	}
	switch m.name {
	case "Get", "LoadAndDelete":
		bool1(1, was)
		if was {
			m.prove("the stored value is returned", pos, st, m.same(st, ret(0), m.oldVal(st)), "returns %s instead of the stored value", showV(ret(0)))
		} else {
			m.prove("nothing is returned for a missing key", pos, st, m.same(st, ret(0), nilV), "returns %s for a missing key", showV(ret(0)))
		}
		if m.name == "Get" {
			unchanged()
		} else {
			gone()
		}
	case "Has":
		bool1(0, was)
		unchanged()
	case "Set":
		set(m.val)
	case "SetIfAbsent":
		bool1(0, !was)
		if was {
			unchanged()
		} else {
			set(m.val)
		}
	case "DeleteIfExists":
		bool1(0, was)
		gone()
	case "Delete":
		gone()
	case "Upsert":
		m.prove("the callback is called once", pos, st, st.cons.entailsEq(m.num(st, "called").addInt(-1)), "the callback is not called exactly once")
		m.prove("the callback's result is returned", pos, st, m.same(st, ret(0), st.tag["res"]), "returns %s instead of the callback's result", showV(ret(0)))
		aborted := st.cons.entailsEq(m.num(st, "aborts").addInt(-1))
		m.prove("abort is reported", pos, st, m.isBool(st, ret(1), aborted), "reports abort=%s where it is %v", showV(ret(1)), aborted)
		if aborted {
			unchanged()
		} else {
			set(st.tag["res"])
		}
	case "Range", "RangeAndDelete":
		m.settled(st, pos)
		if st.cons.entailsLe(linInt(1).sub(m.num(st, "stops"))) {
			return
		}
		m.complete(st, pos)
	case "Keys":
		m.complete(st, pos)
		sl, ok := ret(0).(VSlice)
		m.prove("every key is listed once", pos, st, ok && st.cons.entailsEq(sl.len.sub(m.num(st, "seen"))), "the number of keys returned is not the number of entries visited")
	case "Items":
		m.complete(st, pos)
		mv, ok := ret(0).(VMap)
		ok = ok && mv.o != 0 && mv.o != m.id
		m.prove("every entry is copied", pos, st, ok && st.cons.entailsEq(m.num(st, "seen").sub(m.num(st, "copied"))), "an entry is passed over without being copied")
	}
}

// run analyses one method.
func (m *mapOp) run() {
	e := newEngine(m.c.p, m.c.r)
	m.e = e
	st := newState()
	o := st.newObj(kMap, e.roles.mapT, "the map", token.NoPos)
	o.smap, o.open, o.class = true, true, "hash"
	o.list = mk("themap", "")
	card := symNat("entries")
	o.card, o.card0 = termLin(card), termLin(card)
	m.id = o.id
	m.shards = linInt(e.roles.shards)
	args := []V{VMap{o.id}}
	m.key = nil
	for _, p := range m.fn.Params[1:] {
		switch {
		case isBasic(p.Type(), types.IsString):
			if m.key == nil {
				m.key = symStr("key")
				args = append(args, VTerm{m.key})
				continue
			}
			args = append(args, VTerm{symStr(p.Name())})
		case types.IsInterface(p.Type()):
			m.val = VIfaceSym{fresh("iface", "newvalue")}
			args = append(args, m.val)
		default:
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				args = append(args, VAny{"callback " + p.Name()})
				continue
			}
			args = append(args, e.freshOf(st, p.Type(), p.Name()))
		}
	}
	st.tag = map[string]V{}
	e.onEvent = m.event
	if m.name == "Items" {
		e.onEvent = func(ev Ev) {
			if ev.kind == "mapset" && ev.obj != m.id {
				cur, _ := ev.st.tag["cur"].(VTerm)
				ok := cur.t != nil && ev.st.sameTerm(ev.key, cur.t) && m.same(ev.st, ev.v, VIfaceSym{mk("hval", "", ev.st.obj(m.id).list, cur.t)})
				m.prove("entries are copied as they are", ev.pos, ev.st, ok, "the copy gets something else than the visited entry")
				m.add(ev.st, "copied", 1)
				return
			}
			m.event(ev)
		}
	}
	e.onCallback = m.callback
	out := e.call(st, m.fn, args, nil, nil)
	for _, s := range out {
		m.exit(s)
	}
	m.c.count("map operations", 1)
	m.c.count("final states of map operations", len(out))
	m.c.count("abstract steps in map operations", e.steps)
	for _, i := range e.issues {
		m.c.undecided("C25 %s: %s %s %s", m.name, i.kind, m.c.p.pos(i.pos), i.msg)
	}
	var ps []*Term
	for t := range e.shardPat {
		ps = append(ps, t)
	}
	for _, t := range ps {
		if m.c.pats == nil {
			m.c.pats = map[*Term]string{}
		}
		if _, ok := m.c.pats[t]; !ok {
			m.c.pats[t] = m.name + " at " + m.c.p.pos(e.shardPat[t])
		}
	}
}

var mapOpNames = []string{"Get", "Has", "Set", "SetIfAbsent", "DeleteIfExists", "LoadAndDelete", "Delete", "Range", "RangeAndDelete", "Upsert", "Keys", "Items"}

func shardedMap(c *ctx) {
	if c.r.mapT == nil {
		c.undecided("C25 the sharded map type is not there")
		return
	}
	if c.r.shards <= 0 {
		c.undecided("C25 the number of shards is not a constant")
		return
	}
	byName := map[string]*ssa.Function{}
	for _, f := range c.p.Funcs {
		if f.Signature.Recv() != nil && f.Parent() == nil && len(f.Blocks) > 0 {
			if t := f.Signature.Recv().Type(); sameNamed(t, c.r.mapT) || ptrTo(t, c.r.mapT) {
				byName[f.Name()] = f
			}
		}
	}
	c.pats = map[*Term]string{}
	for _, n := range mapOpNames {
		f := byName[n]
		if f == nil {
			c.undecided("C25 there is no operation %s", n)
			continue
		}
		if ptrTo(f.Signature.Recv().Type(), c.r.mapT) {
			c.undecided("C25 %s has a pointer receiver", n)
			continue
		}
		m := &mapOp{c: c, name: n, fn: f}
		c.run(func(*ctx) { m.run() })
	}
	var ps []*Term
	for t := range c.pats {
		ps = append(ps, t)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].String() < ps[j].String() })
	c.obl()
	if len(ps) > 1 {
		var w []string
		for _, t := range ps {
			w = append(w, t.String()+" ("+c.pats[t]+")")
		}
		c.bad("one shard function", c.p.pos(byName["Get"].Pos()), "operations do not agree on the shard of a key: %v", w)
	}
	c.run(newMapRule)
}

// newMapRule: a new map has all its shards and no entries.
func newMapRule(c *ctx) {
	for _, f := range c.p.Funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || len(f.Params) != 0 || f.Signature.Results().Len() != 1 || !c.r.isSmap(f.Signature.Results().At(0).Type()) || f.Pkg == nil || f.Pkg != c.p.pkg("lib/shard_map") {
			continue
		}
		e := newEngine(c.p, c.r)
		e.onEvent = func(ev Ev) {
			if ev.kind != "shard-init" || ev.st.vague {
				return
			}
			c.obl()
			p, ok := ev.v.(VPtr)
			if !ok || p.o == 0 || p.path != "" {
				c.bad("a new map is complete", c.p.pos(ev.pos), "what is stored as a shard is not a new shard")
				return
			}
			sh := ev.st.mut(p.o)
			if sh == nil || sh.kind != kStruct {
				return
			}
			im, ok := sh.f[c.r.itemsF].(VMap)
			if !ok {
				return
			}
			if im.o == 0 {
				c.bad("a new map is complete", c.p.pos(ev.pos), "a shard is made without its table")
				return
			}
			it := ev.st.mut(im.o)
			given := func(o *Obj) bool {
				n, ok := o.f["$given"].(VNum)
				return ok && !ev.st.cons.entailsEq(n.l)
			}
			if it.f == nil {
				it.f = map[string]V{}
			}
			if given(sh) || given(it) {
				c.bad("a new map is complete", c.p.pos(ev.pos), "two shards of the map share their table")
			}
			sh.f["$given"], it.f["$given"] = VNum{linInt(1)}, VNum{linInt(1)}
		}
		out := e.call(newState(), f, nil, nil, nil)
		for _, s := range out {
			c.obl()
			if s.vague || e.aborted {
				c.undecided("C25 construction of the map is not followed")
				continue
			}
			if s.panic != nil {
				c.bad("a new map is complete", c.p.pos(s.panic.pos), "%s may panic: %s", f.Name(), s.panic.msg)
				continue
			}
			v, ok := s.ret[0].(VMap)
			if !ok || v.o == 0 {
				c.bad("a new map is complete", c.p.pos(f.Pos()), "%s does not return a map", f.Name())
				continue
			}
			o := s.obj(v.o)
			if o.inits == nil || o.odd {
				c.undecided("C25 construction of the map is not followed")
				continue
			}
			if o.gap || o.slo == nil || !s.cons.entailsEq(o.slo) || !s.cons.entailsEq(o.shi.sub(linInt(c.r.shards))) || !s.cons.entailsEq(o.n.sub(linInt(c.r.shards))) || !s.cons.entailsEq(o.card) {
				c.bad("a new map is complete", c.p.pos(f.Pos()), "%s returns a map with shards missing or with entries", f.Name())
			}
		}
	}
}
