package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pres struct {
	st  *State
	in  bool
	idx int // index into ents
}

// presence finds out whether key is in the map, splitting the state if it is open.
func (e *Engine) presence(st *State, id ObjID, key *Term, pos token.Pos) []pres {
	key = st.normTerm(key)
	o := st.obj(id)
	for i, en := range o.ents {
		if st.sameTerm(en.key, key) {
			return []pres{{st, en.in, i}}
		}
		if b := eqTerm(st.normTerm(en.key), key); true {
			if v, known := st.decide(b); known && v {
				return []pres{{st, en.in, i}}
			}
		}
	}
	var out []pres
	cur := []*State{st}
	for i := range o.ents {
		var nx []*State
		for _, s := range cur {
			en := s.obj(id).ents[i]
			b := eqTerm(s.normTerm(en.key), key)
			if v, known := s.decide(b); known {
				if v {
					out = append(out, pres{s, en.in, i})
				} else {
					nx = append(nx, s)
				}
				continue
			}
			eq := s.clone()
			for _, x := range eq.assume(b) {
				x.choose("%s: %s is the same key as %s", e.p.pos(pos), key, en.key)
				out = append(out, pres{x, en.in, i})
			}
			nx = append(nx, s.assume(b.not())...)
		}
		cur = nx
	}
	for _, s := range cur {
		out = append(out, e.presenceNew(s, id, key, pos)...)
	}
	return out
}

func presentCount(o *Obj) int64 {
	n := int64(0)
	for _, en := range o.ents {
		if en.in {
			n++
		}
	}
	return n
}

func (e *Engine) presenceNew(s *State, id ObjID, key *Term, pos token.Pos) []pres {
	var out []pres
	o := s.mut(id)
	add := func(x *State, in bool) {
		m := x.mut(id)
		m.ents = append(m.ents, ent{key: key, in: in, in0: in, have: m.open, late: m.epoch != ""})
		out = append(out, pres{x, in, len(m.ents) - 1})
	}
	if !o.open {
		add(s, false)
		return out
	}
	// the two halves of a sorted set hold the same unrecorded members
	if o.peer != 0 {
		if z := s.obj(o.peer); z != nil && z.kind == kZsl && z.epoch == o.epoch {
			for _, x := range z.zents {
				same := s.sameTerm(x.mem, key)
				if !same {
					v, known := s.decide(eqTerm(s.normTerm(x.mem), s.normTerm(key)))
					same = known && v
				}
				if same && x.have {
					add(s, x.in0)
					if x.in0 {
						e.entValue(s, id, len(s.obj(id).ents)-1)
					}
					return out
				}
			}
		}
	}
	np := presentCount(o)
	// is there room for another present key?
	if s.cons.entailsLe(o.card.addInt(-np)) {
		add(s, false)
		return out
	}
	p := s.clone()
	p.cons.addLe(linInt(np + 1).sub(o.card))
	if !p.cons.bad {
		if o.isKS || o.class != "" {
			p.choose("%s: %s is in the %s", e.p.pos(pos), key, mapName(o))
		}
		add(p, true)
		last := len(p.obj(id).ents) - 1
		e.entValue(p, id, last)
	}
	if o.isKS || o.class != "" {
		s.choose("%s: %s is not in the %s", e.p.pos(pos), key, mapName(o))
	}
	add(s, false)
	return out
}

func mapName(o *Obj) string {
	if o.isKS {
		return "keyspace"
	}
	if o.class != "" {
		return o.class
	}
	return "map"
}

// entValue gives an entry known to be present its value.
func (e *Engine) entValue(st *State, id ObjID, i int) V {
	o := st.mut(id)
	en := &o.ents[i]
	if en.v != nil {
		return en.v
	}
	switch o.class {
	case "ks":
		kt := en.key
		if o.epoch != "" {
			kt = mk("later", o.epoch, kt)
		}
		ki := st.newObj(kStruct, e.roles.keyInfo, "keyinfo", token.NoPos)
		ki.home = &Home{en.key}
		ki.f[e.roles.kiType] = VTerm{mk("kind", "", kt)}
		ki.f[e.roles.kiValue] = VIfaceSym{mk("ksval", "", kt)}
		en.v = VIface{types.NewPointer(e.roles.keyInfo), VPtr{o: ki.id}}
	case "set":
		en.v = VIface{types.Typ[types.Int], VNum{linInt(0)}}
	case "hash":
		en.v = VIfaceSym{mk("hval", "", o.list, en.key)}
	case "zdict":
		node := e.zslNode(st, o.peer, en.key, true)
		de := st.newObj(kStruct, e.roles.dictT, "dictEntry", token.NoPos)
		de.home = o.home
		de.f[e.roles.deVal] = VIface{types.NewPointer(types.Typ[types.Float64]), VPtr{o: node, path: e.roles.znScore}}
		o = st.mut(id)
		en = &o.ents[i]
		en.v = VIface{types.NewPointer(e.roles.dictT), VPtr{o: de.id}}
	default:
		if len(o.rest) == 1 {
			en.v = e.instantiate(st, o.rest[0], nil)
		} else if mt, ok := o.typ.Underlying().(*types.Map); ok {
			en.v = e.freshOf(st, mt.Elem(), "mapval")
		} else {
			en.v = VIfaceSym{fresh("iface", "mapval")}
		}
	}
	o = st.mut(id)
	return o.ents[i].v
}

// zslNode returns the node object of member mem, creating it for a member of the initial index.
func (e *Engine) zslNode(st *State, zid ObjID, mem *Term, in bool) ObjID {
	z := st.mut(zid)
	if z != nil {
		for _, x := range z.zents {
			if st.sameTerm(x.mem, mem) && x.node != 0 {
				return x.node
			}
		}
	}
	n := st.newObj(kStruct, e.roles.znodeT, "znode", token.NoPos)
	if z != nil {
		n.home = z.home
	}
	n.f[e.roles.znVal] = VTerm{mem}
	var tb *Term
	if z != nil && z.list != nil {
		tb = z.list
	} else {
		tb = strTerm("z")
	}
	sc := mk("score", "", tb, mem)
	n.f[e.roles.znScore] = VTerm{sc}
	st.setFact(mk("isnan", "", sc), false)
	if z != nil {
		z.zents = append(z.zents, zent{mem: mem, in: in, node: n.id, in0: in, have: true})
	}
	return n.id
}

func tblTerm(key *Term) *Term { return mk("tblof", "", key) }

// materialise builds the stored value of a key according to the invariants every
// command is shown to preserve.
func (e *Engine) materialise(st *State, key *Term, kind string) V {
	r := e.roles
	h := &Home{key}
	if key.op == "later" {
		h = &Home{key.args[0]}
	}
	e.materialised++
	newMap := func(class string) *Obj {
		m := st.newObj(kMap, r.mapT, class+" of key", token.NoPos)
		m.smap, m.open, m.class, m.home = true, true, class, h
		m.list = tblTerm(key)
		c := mk("card", "", tblTerm(key))
		c.nonneg = true
		m.card, m.card0 = termLin(c), termLin(c)
		st.cons.addLe(linInt(1).sub(termLin(c)))
		return m
	}
	switch kind {
	case "string":
		return VTerm{mk("strval", "", mk("ksval", "", key))}
	case "set":
		m := newMap("set")
		o := st.newObj(kStruct, r.setT, "set of key", token.NoPos)
		o.home = h
		o.f[r.setMap] = VMap{m.id}
		o.f[r.setLen] = VNum{m.card}
		return VPtr{o: o.id}
	case "hash":
		m := newMap("hash")
		o := st.newObj(kStruct, r.hashT, "hash of key", token.NoPos)
		o.home = h
		o.f[r.hashMap] = VMap{m.id}
		o.f[r.hashLen] = VNum{m.card}
		return VPtr{o: o.id}
	case "zset":
		m := newMap("zdict")
		z := st.newObj(kZsl, r.zslT, "index of key", token.NoPos)
		z.home = h
		z.open = true
		z.list = tblTerm(key)
		z.card, z.card0 = m.card, m.card
		m.peer, z.peer = z.id, m.id
		o := st.newObj(kStruct, r.zsetT, "zset of key", token.NoPos)
		o.home = h
		o.f[r.zsMap] = VMap{m.id}
		o.f[r.zsIdx] = VPtr{o: z.id}
		return VPtr{o: o.id}
	case "list":
		n := mk("card", "", tblTerm(key))
		n.nonneg = true
		st.cons.addLe(linInt(1).sub(termLin(n)))
		sg := st.newObj(kSeg, r.nodeT, "nodes of key", token.NoPos)
		sg.home = h
		sg.len, sg.at = termLin(n), linInt(0)
		sg.list = tblTerm(key)
		sg.prev, sg.next = VPtr{}, VPtr{}
		o := st.newObj(kStruct, r.listT, "list of key", token.NoPos)
		o.home = h
		o.f[r.listLen] = VNum{termLin(n)}
		o.f[r.listHead] = VPtr{o: sg.id, idx: linInt(0)}
		o.f[r.listTail] = VPtr{o: sg.id, idx: termLin(n).addInt(-1)}
		return VPtr{o: o.id}
	}
	return VAny{"kind " + kind}
}

var keyHole = mk("keyhole", "$k")

// checkShard relates the shard a view belongs to with the key used on it.
func (e *Engine) checkShard(st *State, idx *Term, key *Term, pos token.Pos) {
	if idx == nil {
		return
	}
	idx = st.normTerm(idx)
	key = st.normTerm(key)
	has := false
	idx.walk(func(t *Term) {
		if t == key {
			has = true
		}
	})
	if has {
		sb := newSubst()
		sb.m[key] = VTerm{keyHole}
		p := sb.term(idx)
		other := false
		p.walk(func(t *Term) {
			switch t.op {
			case "ssym", "arg", "isym", "jvar":
				other = true
			}
		})
		if !other {
			if e.shardPat == nil {
				e.shardPat = map[*Term]token.Pos{}
			}
			if _, ok := e.shardPat[p]; !ok {
				e.shardPat[p] = pos
			}
			return
		}
	}
	// a key met while iterating over that very shard
	if sh, ok := st.ikeys[key]; ok && st.normTerm(sh) == idx {
		return
	}
	e.emit(Ev{kind: "shard-mismatch", st: st, pos: pos, key: key, s: idx.String()})
}

func (e *Engine) mapTarget(st *State, v V) (id ObjID, idx *Term, nilMap, ok bool) {
	switch m := v.(type) {
	case VMap:
		return m.o, nil, m.o == 0, true
	case VMapView:
		return m.o, m.idx, false, true
	}
	return 0, nil, false, false
}

func keyTerm(v V) (*Term, bool) {
	switch k := v.(type) {
	case VTerm:
		return k.t, true
	case VNum:
		return mkLin(k.l), true
	}
	return nil, false
}

func valueUsed(in ssa.Value, i int) bool {
	refs := in.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i {
			if x.Referrers() != nil && len(*x.Referrers()) > 0 {
				return true
			}
		}
	}
	return false
}

func (e *Engine) lookup(st *State, in *ssa.Lookup) []*State {
	x := e.val(st, in.X)
	iv := e.val(st, in.Index)
	if t, ok := x.(VTerm); ok { // s[i]
		if n, ok := iv.(VNum); ok {
			return e.bounds(st, n.l, strLen(t.t), in.Pos(), func(s *State) []*State { return set1(s, in, byteAt(s, t.t, n.l)) })
		}
	}
	id, sh, isNil, ok := e.mapTarget(st, x)
	mt, _ := in.X.Type().Underlying().(*types.Map)
	var elem types.Type = types.Typ[types.String]
	if mt != nil {
		elem = mt.Elem()
	}
	ret := func(s *State, v V, in2 bool) *State {
		if in.CommaOk {
			s.top().env[in] = VTuple{[]V{v, VBool{bConst(in2)}}}
		} else {
			s.top().env[in] = v
		}
		return s
	}
	key, kok := keyTerm(iv)
	if !ok || !kok {
		return set1(st, in, e.freshOf(st, in.Type(), "lookup"))
	}
	if isNil {
		return []*State{ret(st, e.zero(elem), false)}
	}
	if sh != nil {
		e.checkShard(st, sh, key, in.Pos())
	}
	e.emit(Ev{kind: "mapget", st: st, pos: in.Pos(), key: key, obj: id})
	var out []*State
	for _, p := range e.presence(st, id, key, in.Pos()) {
		if p.in {
			v := e.entValue(p.st, id, p.idx)
			out = append(out, ret(p.st, v, true))
		} else {
			out = append(out, ret(p.st, e.zero(elem), false))
		}
	}
	return out
}

func (e *Engine) mapUpdate(st *State, in *ssa.MapUpdate) []*State {
	id, sh, isNil, ok := e.mapTarget(st, e.val(st, in.Map))
	if !ok {
		e.undecided(in.Pos(), st, "write to an unknown map")
		return []*State{st}
	}
	if isNil {
		return e.doPanic(st, "mapnil", in.Pos(), "assignment to entry in nil map")
	}
	key, kok := keyTerm(e.val(st, in.Key))
	if !kok {
		key = symStr("mapkey")
	}
	v := e.val(st, in.Value)
	if sh != nil {
		e.checkShard(st, sh, key, in.Pos())
	}
	var out []*State
	for _, p := range e.presence(st, id, key, in.Pos()) {
		out = append(out, e.mapSet(p, id, key, v, in.Pos()))
	}
	return out
}

func (e *Engine) mapSet(p pres, id ObjID, key *Term, v V, pos token.Pos) *State {
	s := p.st
	o := s.mut(id)
	o.ents[p.idx].v = v
	o.ents[p.idx].mod = true
	if !p.in {
		o.ents[p.idx].in = true
		o.card = o.card.addInt(1)
	}
	o.dirty = true
	o.writes++
	if o.isKS {
		s.effect(e, Effect{what: "key set", key: key, ks: true, obj: id, pos: pos})
	} else if o.home != nil {
		s.effect(e, Effect{what: "entry set", key: o.home.key, obj: id, pos: pos})
	}
	e.emit(Ev{kind: "mapset", st: s, pos: pos, key: key, v: v, obj: id})
	return s
}

func (e *Engine) mapDelete(st *State, mv V, kv V, pos token.Pos) []*State {
	id, sh, isNil, ok := e.mapTarget(st, mv)
	if !ok {
		e.undecided(pos, st, "delete from an unknown map")
		return []*State{st}
	}
	if isNil {
		return []*State{st}
	}
	key, kok := keyTerm(kv)
	if !kok {
		key = symStr("mapkey")
	}
	if sh != nil {
		e.checkShard(st, sh, key, pos)
	}
	var out []*State
	for _, p := range e.presence(st, id, key, pos) {
		s := p.st
		if p.in {
			o := s.mut(id)
			o.ents[p.idx].in = false
			o.ents[p.idx].v = nil
			o.ents[p.idx].mod = true
			o.card = o.card.addInt(-1)
			if o.isKS {
				s.effect(e, Effect{what: "key deleted", key: key, ks: true, obj: id, pos: pos})
			} else if o.home != nil {
				s.effect(e, Effect{what: "entry deleted", key: o.home.key, obj: id, pos: pos})
			}
			o.dirty = true
		}
		e.emit(Ev{kind: "mapdel", st: s, pos: pos, key: key, obj: id})
		out = append(out, s)
	}
	return out
}

func (e *Engine) rangeInstr(st *State, in *ssa.Range) []*State {
	x := e.val(st, in.X)
	it := st.newObj(kIter, in.X.Type(), "iter", in.Pos())
	it.cnt = linInt(0)
	switch m := x.(type) {
	case VMap:
		it.over = m.o
		if m.o != 0 {
			it.card0 = st.obj(m.o).card
			if mo := st.mut(m.o); mo.class == "" && !mo.isKS {
				mo.rewr, mo.rewRest = linInt(0), nil
				for i := range mo.ents {
					mo.ents[i].vis = false
				}
			}
		} else {
			it.done = true
		}
	case VMapView:
		it.over = m.o
		it.shard = m.idx
		mo := st.mut(m.o)
		if st.cons.entailsEq(termLin(m.idx)) {
			mo.visited, mo.vshard, mo.vcard = linInt(0), linInt(0), mo.card
		} else if mo.vshard != nil && !st.cons.entailsEq(mo.vshard.sub(termLin(m.idx))) {
			mo.visited, mo.vshard, mo.vcard = nil, nil, nil
		}
	case VTerm:
		it.str = m.t
		it.n = strLen(m.t)
	default:
		it.done = true
		e.undecided(in.Pos(), st, "range over an unknown value")
	}
	return set1(st, in, VIter{it.id})
}

func (e *Engine) next(st *State, in *ssa.Next) []*State {
	iv, ok := e.val(st, in.Iter).(VIter)
	if !ok {
		return set1(st, in, e.freshOf(st, in.Type(), "next"))
	}
	it := st.obj(iv.o)
	fail := func(s *State) *State {
		tt := in.Type().(*types.Tuple)
		s.top().env[in] = VTuple{[]V{VBool{bFalse}, e.zeroOr(tt.At(1).Type()), e.zeroOr(tt.At(2).Type())}}
		return s
	}
	if it.done {
		return []*State{fail(st)}
	}
	if it.str != nil {
		ends := st.clone()
		var out []*State
		i := st.mut(iv.o)
		pos := i.cnt
		i.cnt = pos.addInt(1)
		st.cons.addLe(pos.addInt(1).sub(i.n))
		if !st.cons.bad {
			out = append(out, set1(st, in, VTuple{[]V{VBool{bTrue}, VNum{pos}, VNum{termLin(symInt("rune"))}}})...)
		}
		return append(out, fail(ends))
	}
	var out []*State
	ends := st.clone()
	m := st.mut(it.over)
	sharded := it.shard != nil
	feasible := true
	if sharded {
		if m.visited != nil {
			m.visited = m.visited.addInt(1)
			st.cons.addLe(m.visited.sub(m.vcard))
		}
		st.cons.addLe(linInt(1).sub(m.card))
	} else {
		i := st.mut(iv.o)
		i.cnt = i.cnt.addInt(1)
		st.cons.addLe(i.cnt.sub(i.card0))
		st.cons.addLe(linInt(1).sub(m.card))
	}
	if st.cons.bad {
		feasible = false
	}
	if feasible {
		k := symStr("ikey")
		if st.ikeys == nil {
			st.ikeys = map[*Term]*Term{}
		} else {
			n := make(map[*Term]*Term, len(st.ikeys)+1)
			for a, b := range st.ikeys {
				n[a] = b
			}
			st.ikeys = n
		}
		if sharded {
			st.ikeys[k] = it.shard
		} else {
			st.ikeys[k] = mk("whole", "")
		}
		// the key differs from every key known to be absent
		for _, en := range m.ents {
			if !en.in {
				if b := eqTerm(st.normTerm(en.key), k); b.k == 'a' {
					st.setFact(b.t, false)
				}
			}
		}
		if !m.open && presentCount(m) > 0 && len(m.rest) == 0 {
			// a map with known entries only: the key is one of them
			for i := range m.ents {
				if !m.ents[i].in {
					continue
				}
				s := st.clone()
				en := s.obj(it.over).ents[i]
				s.ikeys[en.key] = s.ikeys[k]
				out = append(out, set1(s, in, VTuple{[]V{VBool{bTrue}, VTerm{en.key}, e.entValue(s, it.over, i)}})...)
			}
		} else {
			alts := 1
			if m.class == "" && len(m.rest) > 1 {
				alts = len(m.rest)
			}
			for a := 0; a < alts; a++ {
				s := st
				if a < alts-1 {
					s = st.clone()
				}
				mm := s.mut(it.over)
				en := ent{key: k, in: true, in0: true, have: mm.open, vis: true, late: mm.epoch != ""}
				if alts > 1 {
					en.v = e.instantiate(s, mm.rest[a], nil)
					mm = s.mut(it.over)
				}
				mm.ents = append(mm.ents, en)
				v := e.entValue(s, it.over, len(mm.ents)-1)
				e.emit(Ev{kind: "visit", st: s, pos: in.Pos(), key: k, obj: it.over})
				out = append(out, set1(s, in, VTuple{[]V{VBool{bTrue}, VTerm{k}, v}})...)
			}
		}
	}
	// exhausted
	ei := ends.mut(iv.o)
	ei.done = true
	em := ends.mut(ei.over)
	if sharded {
		em.walked(ends, termLin(it.shard))
		if em.vshard != nil && ends.cons.entailsEq(em.vshard.sub(termLin(it.shard))) {
			em.vshard = em.vshard.addInt(1)
		}
	} else {
		em.swept = true
		if em.rewr != nil && ei.cnt != nil && ends.cons.entailsEq(em.rewr.sub(ei.cnt)) && ends.cons.entailsEq(em.card.sub(ei.card0)) {
			em.rest = append([]V(nil), em.rewRest...)
		}
		em.rewr, em.rewRest = nil, nil
	}
	return append(out, fail(ends))
}

func (e *Engine) zeroOr(t types.Type) V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VAny{"unused"}
	}
	return e.zero(t)
}

var _ = strings.HasPrefix

// walked: the iteration over shard i came to its end.
func (o *Obj) walked(st *State, i *Lin) {
	switch {
	case o.slo == nil:
		o.slo, o.shi = i, i.addInt(1)
	case st.cons.entailsEq(o.shi.sub(i)):
		o.shi = i.addInt(1)
	case st.cons.entailsEq(o.slo.sub(i).addInt(-1)):
		o.slo = i
	case st.cons.entailsLe(o.slo.sub(i)) && st.cons.entailsLe(i.addInt(1).sub(o.shi)):
	case st.cons.entailsLe(o.shi.addInt(1).sub(i)), st.cons.entailsLe(i.addInt(2).sub(o.slo)):
		o.gap = true
	default:
		o.odd = true
	}
}
