package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are analysed to a fixpoint: the states met at the loop header are
// partitioned by their shape; within a partition they are joined, keeping the
// affine equalities and the inequalities the joined states share.

type part struct {
	key   string
	inv   *State
	dirty bool
	joins int
	exits []item
	rets  []*State
}

type loopRun struct {
	e         *Engine
	lp        *Loop
	seq       int
	entObj    map[ObjID]bool
	entKey    map[ObjID]map[*Term]bool
	zKey      map[ObjID]map[*Term]bool
	stable    map[*Term]bool // nullary symbols known at entry
	iKeys     map[*Term]bool
	effs      int
	parts     map[string]*part
	order     []string
	testsDone bool
	testPairs [][2]ssa.Value
	always    []*Lin // inequalities between values the loop cannot change
}

const maxPeel = 8

func (e *Engine) loop(st *State, lp *Loop) (exits []item, rets []*State) {
	e.loopsRun++
	(&loopRun{e: e, lp: lp}).liveRoots(st)
	st.gc()
	st.gcSyms()
	if ex, rs, ok := e.peel(st, lp); ok {
		return ex, rs
	}
	e.loopSeq++
	lr := &loopRun{e: e, lp: lp, seq: e.loopSeq, entObj: map[ObjID]bool{}, entKey: map[ObjID]map[*Term]bool{}, zKey: map[ObjID]map[*Term]bool{},
		stable: map[*Term]bool{}, iKeys: map[*Term]bool{}, parts: map[string]*part{}, effs: len(st.effects)}
	st.iters = append(st.iters, linInt(0))
	for id, o := range st.heap {
		if e.unit(o) {
			continue // list nodes are renamed by splitting and merging
		}
		lr.entObj[id] = true
		if o.kind == kMap {
			m := map[*Term]bool{}
			for _, en := range o.ents {
				m[en.key] = true
			}
			lr.entKey[id] = m
		}
		if o.kind == kZsl {
			m := map[*Term]bool{}
			for _, z := range o.zents {
				m[z.mem] = true
			}
			lr.zKey[id] = m
		}
	}
	for k := range st.ikeys {
		lr.iKeys[k] = true
	}
	stateSyms(st, lr.stable)
	for _, l := range st.cons.ineq {
		syms := map[*Term]bool{}
		linSyms(l, syms)
		if len(syms) == 0 && len(lr.always) < 24 {
			lr.always = append(lr.always, l)
		}
	}
	lr.arrive(st)
	for rounds := 0; ; rounds++ {
		var p *part
		for _, k := range lr.order {
			if lr.parts[k].dirty {
				p = lr.parts[k]
				break
			}
		}
		if p == nil {
			break
		}
		if e.aborted {
			return
		}
		if rounds > 400 {
			e.undecided(lp.header.Instrs[0].Pos(), p.inv, "loop in %s does not stabilise", fnName(lp.header.Parent()))
			e.vagueAll = true
			break
		}
		p.dirty = false
		run := p.inv.clone()
		if e.debug {
			fmt.Fprintf(os.Stderr, "LOOP %s b%d part %d/%d joins %d\n%s", fnName(lp.header.Parent()), lp.header.Index, indexOf(lr.order, p.key), len(lr.order), p.joins, run.dump())
			if e.debugKey {
				fmt.Fprintf(os.Stderr, "KEY %s\n", p.key)
			}
		}
		var backs []*State
		backs, p.exits, p.rets = e.region([]item{{run, lp.header}}, lp)
		for _, b := range backs {
			n := len(b.iters)
			b.iters[n-1] = b.iters[n-1].addInt(1)
			lr.arrive(b)
		}
	}
	pop := func(s *State) {
		if len(s.iters) > 0 {
			s.iters = s.iters[:len(s.iters)-1]
		}
	}
	for _, k := range lr.order {
		p := lr.parts[k]
		for _, x := range p.exits {
			pop(x.st)
			exits = append(exits, x)
		}
		for _, s := range p.rets {
			pop(s)
			rets = append(rets, s)
		}
	}
	return exits, rets
}

func indexOf(a []string, k string) int {
	for i, x := range a {
		if x == k {
			return i
		}
	}
	return -1
}

// peel runs a loop whose course the state decides completely.
func (e *Engine) peel(st *State, lp *Loop) (exits []item, rets []*State, ok bool) {
	if e.noPeel {
		return nil, nil, false
	}
	cur := []*State{st.clone()}
	for n := 0; n <= maxPeel; n++ {
		var backs []*State
		ex, rs := 0, 0
		for _, s := range cur {
			if !e.headerDecides(s, lp) {
				return nil, nil, false
			}
			b, x, r := e.region([]item{{s, lp.header}}, lp)
			if len(b) > 0 && len(x)+nonPanic(r) > 0 {
				return nil, nil, false
			}
			ex += len(x)
			rs += len(r)
			backs = append(backs, b...)
			exits = append(exits, x...)
			rets = append(rets, r...)
		}
		if len(backs) == 0 {
			return exits, rets, true
		}
		if len(backs) > 12 {
			return nil, nil, false
		}
		cur = backs
	}
	return nil, nil, false
}

// headerDecides is false when the test at the loop header can go both ways.
func (e *Engine) headerDecides(st *State, lp *Loop) bool {
	h := lp.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return true
	}
	for _, in := range h.Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Next, *ssa.MapUpdate, *ssa.Store, *ssa.Lookup, *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send:
			if _, ok := in.(*ssa.Next); ok {
				continue
			}
			if c, ok := in.(*ssa.Call); ok {
				if _, ok := c.Call.Value.(*ssa.Builtin); ok {
					continue
				}
			}
			return true
		}
	}
	mute := e.onEvent
	e.onEvent = nil
	outs, _ := e.block(st.clone(), h)
	e.onEvent = mute
	in, out := false, false
	for _, o := range outs {
		if lp.in[o.b] {
			in = true
		} else {
			out = true
		}
	}
	return !(in && out)
}

func nonPanic(rs []*State) int {
	n := 0
	for _, r := range rs {
		if r.panic == nil {
			n++
		}
	}
	return n
}

// ---------- symbols ----------

func isSym(t *Term) bool {
	if len(t.args) > 0 || t.lin != nil {
		return false
	}
	switch t.op {
	case "isym", "ssym", "fsym", "bsym", "errsym", "iface", "osym":
		return !strings.HasPrefix(t.s, "$e")
	}
	return false
}

func termSyms(t *Term, m map[*Term]bool) {
	t.walk(func(x *Term) {
		if isSym(x) {
			m[x] = true
		}
	})
}

func linSyms(l *Lin, m map[*Term]bool) {
	for _, x := range l.t {
		termSyms(x.a, m)
	}
}

func valSyms(v V, m map[*Term]bool) {
	eachLeaf(v, func(l *Lin) { linSyms(l, m) }, func(t *Term) { termSyms(t, m) })
}

func eachLeaf(v V, fl func(*Lin), ft func(*Term)) {
	switch x := v.(type) {
	case VNum:
		fl(x.l)
	case VTerm:
		ft(x.t)
	case VErr:
		ft(x.t)
	case VIfaceSym:
		ft(x.t)
	case VBool:
		if x.b.l != nil {
			fl(x.b.l)
		}
		if x.b.t != nil {
			ft(x.b.t)
		}
	case VPtr:
		if x.idx != nil {
			fl(x.idx)
		}
	case VSlice:
		fl(x.off)
		fl(x.len)
	case VShard:
		ft(x.idx)
	case VMapView:
		ft(x.idx)
	case VIface:
		if x.t != nil {
			eachLeaf(x.v, fl, ft)
		}
	case VTuple:
		for _, y := range x.e {
			eachLeaf(y, fl, ft)
		}
	case VFunc:
		for _, y := range x.b {
			eachLeaf(y, fl, ft)
		}
	case VStruct:
		for _, k := range sortedKeys(x.f) {
			eachLeaf(x.f[k], fl, ft)
		}
	case VSum:
		for _, k := range sortedKeys(x.f) {
			eachLeaf(x.f[k], fl, ft)
		}
	}
}

func (st *State) liveSyms(m map[*Term]bool) {
	for _, f := range st.frames {
		for _, v := range f.env {
			valSyms(v, m)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				valSyms(a, m)
			}
		}
	}
	for _, v := range st.tag {
		valSyms(v, m)
	}
	for _, o := range st.heap {
		objSyms(o, m)
	}
	for _, l := range st.iters {
		linSyms(l, m)
	}
}

func stateSyms(st *State, m map[*Term]bool) {
	st.liveSyms(m)
	for _, q := range st.cons.eqs {
		termSyms(q.p, m)
		linSyms(q.e, m)
	}
	for _, q := range st.cons.ineq {
		linSyms(q, m)
	}
	for t := range st.facts {
		termSyms(t, m)
	}
}

func objSyms(o *Obj, m map[*Term]bool) {
	for _, v := range o.f {
		valSyms(v, m)
	}
	for _, l := range []*Lin{o.n, o.card, o.card0, o.len, o.at, o.cnt, o.inits, o.visited, o.vshard, o.vcard, o.rewr, o.slo, o.shi} {
		if l != nil {
			linSyms(l, m)
		}
	}
	for _, t := range []*Term{o.srcT, o.str, o.list, o.shard} {
		if t != nil {
			termSyms(t, m)
		}
	}
	for _, v := range o.ex {
		valSyms(v, m)
	}
	for _, p := range o.pend {
		linSyms(p.idx, m)
		valSyms(p.v, m)
	}
	for _, t := range o.tmpl {
		valSyms(t.v, m)
	}
	for _, v := range o.rest {
		valSyms(v, m)
	}
	for _, v := range o.rewRest {
		valSyms(v, m)
	}
	for _, en := range o.ents {
		termSyms(en.key, m)
		if en.v != nil {
			valSyms(en.v, m)
		}
	}
	for _, z := range o.zents {
		termSyms(z.mem, m)
	}
	for _, p := range []V{o.prev, o.next} {
		if p != nil {
			valSyms(p, m)
		}
	}
	for _, p := range o.parts {
		termSyms(p, m)
	}
}

// ---------- preparation of a header state ----------

func (lr *loopRun) liveRoots(st *State) {
	for i, f := range st.frames {
		var live map[ssa.Value]bool
		if i == len(st.frames)-1 {
			live = info(f.fn).liveIn[lr.lp.header]
		} else {
			live = liveAfterInstr(st.frames[i+1].call)
		}
		for v := range f.env {
			if !live[v] {
				// closures capture by their free variables, which are values of the frame
				delete(f.env, v)
			}
		}
	}
}

func (st *State) roots() []V {
	var r []V
	for _, f := range st.frames {
		for _, v := range f.env {
			r = append(r, v)
		}
		for _, d := range f.defers {
			r = append(r, d.fn)
			r = append(r, d.args...)
		}
	}
	for _, v := range st.glob {
		r = append(r, v)
	}
	if st.ks != 0 {
		r = append(r, VMap{st.ks})
	}
	for _, v := range st.tag {
		r = append(r, v)
	}
	if st.cbLast != nil {
		r = append(r, st.cbLast)
	}
	return r
}

func (st *State) gc() {
	live := st.reach(st.roots())
	for id := range st.heap {
		if !live[id] {
			delete(st.heap, id)
			delete(st.own, id)
		}
	}
}

func (lr *loopRun) abstract(st *State) {
	e := lr.e
	lr.liveRoots(st)
	st.notes = nil
	st.access = nil
	e.foldLists(st, nil)
	// decide what can be decided, so that the shape is canonical
	canon := deep(func(v V) V {
		switch x := v.(type) {
		case VBool:
			if x.b.k != 'c' {
				if b, known := st.decide(x.b); known {
					return VBool{bConst(b)}
				}
			}
		case VErr:
			if x.t.op == "errsym" {
				if b, known := st.decide(errNil(x.t)); known && b {
					return VIface{}
				}
			}
		case VNum:
			if n := st.cons.subst(x.l); n != x.l {
				return VNum{n}
			}
		}
		return v
	})
	st.mapValues(canon)
	for _, id := range sortedIDs(st) {
		if o := st.obj(id); o != nil && o.kind == kZsl && o.peer != 0 {
			e.emit(Ev{kind: "zprefold", st: st, pos: lr.lp.header.Instrs[0].Pos(), obj: id})
		}
	}
	// forget map entries met inside the loop
	for _, id := range sortedIDs(st) {
		o := st.obj(id)
		if o == nil {
			continue
		}
		if o.kind == kMap {
			lr.dropEnts(st, id)
		}
		if o.kind == kZsl {
			lr.dropZents(st, id)
		}
	}
	// the two halves of a sorted set name their unrecorded members alike
	for _, id := range sortedIDs(st) {
		z := st.obj(id)
		if z == nil || z.kind != kZsl || z.peer == 0 {
			continue
		}
		m := st.obj(z.peer)
		if m == nil || m.epoch == z.epoch {
			continue
		}
		m, z = st.mut(z.peer), st.mut(id)
		m.epoch = e.newEpoch()
		z.epoch = m.epoch
		m.list = m.lateName()
		z.list = m.list
	}
	for k := range st.ikeys {
		if !lr.iKeys[k] {
			n := map[*Term]*Term{}
			for a, b := range st.ikeys {
				if lr.iKeys[a] {
					n[a] = b
				}
			}
			st.ikeys = n
			break
		}
	}
	st.gc()
}

func (lr *loopRun) dropEnts(st *State, id ObjID) {
	e := lr.e
	o := st.obj(id)
	keep := lr.entKey[id]
	n := 0
	for _, en := range o.ents {
		if keep[en.key] {
			n++
		}
	}
	if n == len(o.ents) {
		return
	}
	o = st.mut(id)
	st.cons.addLe(linInt(presentCount(o)).sub(o.card))
	var kept, dropped []ent
	for _, en := range o.ents {
		if keep[en.key] {
			kept = append(kept, en)
		} else {
			dropped = append(dropped, en)
		}
	}
	smear := false
	for _, en := range dropped {
		if en.mod {
			smear = true
		}
		if o.isKS && en.in && en.v != nil {
			for x := range st.reach([]V{en.v}) {
				if st.obj(x).dirty {
					smear = true
				}
			}
		}
		e.emit(Ev{kind: "fold", st: st, pos: lr.lp.header.Instrs[0].Pos(), key: en.key, v: en.v, obj: id, s: map[bool]string{true: "in", false: "out"}[en.in]})
		if o.class == "" && en.in && !o.isKS {
			o = st.mut(id)
			t := e.tree(st, en.v, 0)
			if o.rewr != nil && en.mod {
				o.rewRest = addRest(append([]V(nil), o.rewRest...), t)
				if en.vis {
					o.rewr = o.rewr.addInt(1)
					continue
				}
			}
			o.rest = addRest(o.rest, t)
		}
	}
	o = st.mut(id)
	o.ents = kept
	if !o.open {
		o.open = true
	}
	if smear {
		if o.class != "" {
			o.epoch = e.newEpoch()
		}
		if o.class == "zdict" || o.class == "hash" || o.class == "set" {
			o.list = o.lateName()
		}
	}
}

func (o *Obj) lateName() *Term {
	if o.home == nil {
		return mk("tblof", o.epoch, mk("newtbl", fmt.Sprint(o.id)))
	}
	return mk("tblof", o.epoch, o.home.keyOr())
}

func (h *Home) keyOr() *Term {
	if h == nil || h.key == nil {
		return strTerm("")
	}
	return h.key
}

func addRest(rs []V, v V) []V {
	k := showV(v)
	for _, r := range rs {
		if showV(r) == k {
			return rs
		}
	}
	g := generic(v)
	for _, r := range rs {
		if showV(generic(r)) == showV(g) {
			// same shape: keep only the shape
			var n []V
			for _, x := range rs {
				if showV(generic(x)) != showV(g) {
					n = append(n, x)
				}
			}
			return append(n, g)
		}
	}
	if len(rs) >= 6 {
		return []V{VAny{"many alternatives"}}
	}
	return append(rs, v)
}

// generic forgets the leaves of a value, keeping its shape.
func generic(v V) V {
	switch x := v.(type) {
	case VNum:
		return VNum{termLin(mk("isym", "$e"))}
	case VTerm:
		switch {
		case isStrTerm(x.t):
			return VTerm{mk("ssym", "$e")}
		case strings.HasPrefix(x.t.op, "f") || x.t.op == "score":
			return VTerm{mk("fsym", "$e")}
		}
		return VTerm{mk("osym", "$e")}
	case VErr:
		return VErr{mk("errsym", "$e")}
	case VIfaceSym:
		return VIfaceSym{mk("iface", "$e")}
	case VIface:
		if x.t == nil {
			return x
		}
		return VIface{x.t, generic(x.v)}
	case VStruct:
		f := map[string]V{}
		for k, y := range x.f {
			f[k] = generic(y)
		}
		return VStruct{f}
	case VSum:
		f := map[string]V{}
		for k, y := range x.f {
			f[k] = generic(y)
		}
		x.f = f
		return x
	}
	return v
}

// tree turns a value into one without references to objects made by the loop.
func (e *Engine) tree(st *State, v V, depth int) V {
	switch x := v.(type) {
	case VPtr:
		if x.o == 0 || x.path != "" || x.idx != nil {
			return v
		}
		o := st.obj(x.o)
		if o == nil || o.kind != kStruct || o.home != nil || o.site == "global" || depth > 3 {
			return v
		}
		f := map[string]V{}
		for k, y := range o.f {
			f[k] = e.tree(st, y, depth+1)
		}
		return VSum{typ: o.typ, site: o.site, pos: o.pos, f: f}
	case VIface:
		if x.t == nil {
			return v
		}
		return VIface{x.t, e.tree(st, x.v, depth)}
	case VNum:
		return VNum{st.cons.subst(x.l)}
	case VTerm:
		t := st.normTerm(x.t)
		if v, ok := st.fact(mk("isnan", "", t)); ok && !v {
			t = mk("fnn", "", t) // a number that is not NaN
		}
		return VTerm{t}
	case VIfaceSym:
		return VIfaceSym{st.normTerm(x.t)}
	}
	return v
}

func (lr *loopRun) dropZents(st *State, id ObjID) {
	o := st.obj(id)
	keep := lr.zKey[id]
	n := 0
	for _, z := range o.zents {
		if keep[z.mem] {
			n++
		}
	}
	if n == len(o.zents) {
		return
	}
	o = st.mut(id)
	in := int64(0)
	mod := false
	var kept []zent
	for _, z := range o.zents {
		if z.in {
			in++
		}
		if keep[z.mem] {
			kept = append(kept, z)
			continue
		}
		if z.mod {
			mod = true
		}
		lr.e.emit(Ev{kind: "zfold", st: st, pos: lr.lp.header.Instrs[0].Pos(), key: z.mem, obj: id, s: map[bool]string{true: "in", false: "out"}[z.in]})
	}
	st.cons.addLe(linInt(in).sub(o.card))
	o = st.mut(id)
	o.zents = kept
	o.open = true
	if mod {
		o.epoch = lr.e.newEpoch()
		if o.list != nil {
			o.list = o.lateName()
		}
	}
}

// ---------- canonical traversal ----------

type slot struct {
	k byte // l, t, b
	l *Lin
	t *Term
	b *B
}

type visitor struct {
	lr     *loopRun
	st     *State
	key    strings.Builder
	num    map[ObjID]int
	queue  []ObjID
	slots  []slot
	slices []ObjID
	maps   []ObjID
	rep    []slot
	ri     int
	repl   bool
}

func (v *visitor) k(f string, a ...interface{}) {
	if !v.repl {
		fmt.Fprintf(&v.key, f, a...)
	}
}

func (v *visitor) lin(l *Lin) *Lin {
	if v.repl {
		r := v.rep[v.ri].l
		v.ri++
		return r
	}
	v.slots = append(v.slots, slot{k: 'l', l: l})
	return l
}

func (v *visitor) term(t *Term) *Term {
	if isIntTerm(t) {
		v.k("i")
		return mkLin(v.lin(termLin(t)))
	}
	v.k("s")
	if v.repl {
		r := v.rep[v.ri].t
		v.ri++
		return r
	}
	v.slots = append(v.slots, slot{k: 't', t: t})
	return t
}

func (v *visitor) oid(o ObjID) {
	if o == 0 {
		v.k("0")
		return
	}
	n, ok := v.num[o]
	if !ok {
		n = len(v.num)
		v.num[o] = n
		v.queue = append(v.queue, o)
	}
	if v.lr.entObj[o] {
		v.k("E%d", o)
	} else {
		v.k("N%d", n)
	}
}

func (v *visitor) val(x V) V {
	switch x := x.(type) {
	case nil:
		v.k("_")
		return x
	case VNum:
		v.k("n")
		return VNum{v.lin(x.l)}
	case VBool:
		if x.b.k == 'c' {
			v.k("%v", x.b.c)
			return x
		}
		v.k("b")
		if v.repl {
			r := v.rep[v.ri].b
			v.ri++
			return VBool{r}
		}
		v.slots = append(v.slots, slot{k: 'b', b: x.b})
		return x
	case VTerm:
		v.k("t")
		return VTerm{v.term(x.t)}
	case VErr:
		if x.t.op != "errsym" {
			v.k("err!%s", x.t.op)
			if x.t.op == "errglobal" {
				v.k("%s", x.t.s)
			}
			if v.repl && x.t.op != "errglobal" {
				r := v.rep[v.ri].t
				v.ri++
				return VErr{r}
			}
			if x.t.op != "errglobal" {
				v.slots = append(v.slots, slot{k: 't', t: x.t})
			}
			return x
		}
		b, known := v.st.decide(errNil(x.t))
		v.k("err%v%v", b, known)
		return VErr{v.term(x.t)}
	case VIfaceSym:
		b, known := v.st.decide(v.lr.e.symNil(x.t))
		v.k("if:%s%v%v", x.t.op, b, known)
		return VIfaceSym{v.term(x.t)}
	case VIface:
		if x.t == nil {
			v.k("nil")
			return x
		}
		v.k("i:%s:", x.t.String())
		return VIface{x.t, v.val(x.v)}
	case VPtr:
		if x.o == 0 {
			v.k("nil")
			return x
		}
		v.k("&")
		v.oid(x.o)
		v.k(".%s", x.path)
		if x.idx != nil {
			v.k("[")
			x.idx = v.lin(x.idx)
		}
		return x
	case VSlice:
		v.k("s")
		v.oid(x.o)
		x.off = v.lin(x.off)
		x.len = v.lin(x.len)
		return x
	case VMap:
		v.k("m")
		v.oid(x.o)
		return x
	case VShard:
		v.k("sh")
		v.oid(x.o)
		x.idx = v.term(x.idx)
		return x
	case VMapView:
		v.k("mv")
		v.oid(x.o)
		x.idx = v.term(x.idx)
		return x
	case VFunc:
		if x.f == nil {
			v.k("fnil")
			return x
		}
		v.k("f%p", x.f)
		if len(x.b) > 0 {
			nb := make([]V, len(x.b))
			for i, b := range x.b {
				nb[i] = v.val(b)
			}
			x.b = nb
		}
		return x
	case VTuple:
		v.k("(")
		n := make([]V, len(x.e))
		for i, y := range x.e {
			n[i] = v.val(y)
		}
		v.k(")")
		return VTuple{n}
	case VIter:
		v.k("it")
		v.oid(x.o)
		return x
	case VStruct:
		v.k("{")
		f := map[string]V{}
		for _, k := range sortedKeys(x.f) {
			v.k("%s:", k)
			f[k] = v.val(x.f[k])
		}
		v.k("}")
		return VStruct{f}
	case VSum:
		v.k("sum{")
		f := map[string]V{}
		for _, k := range sortedKeys(x.f) {
			v.k("%s:", k)
			f[k] = v.val(x.f[k])
		}
		v.k("}")
		x.f = f
		return x
	}
	v.k("?")
	return x
}

func (v *visitor) optLin(l *Lin) *Lin {
	if l == nil {
		v.k("-")
		return nil
	}
	v.k("l")
	return v.lin(l)
}

func (v *visitor) obj(id ObjID) {
	o := v.st.obj(id)
	if o == nil {
		v.k("freed;")
		return
	}
	if v.repl {
		o = v.st.mut(id)
	}
	hk := "-"
	if o.home != nil {
		hk = "h"
		if o.home.key != nil {
			hk = fmt.Sprintf("h%d", o.home.key.id)
			if !v.lr.entObj[id] {
				hk = "h*"
			}
		}
	}
	defer func() {
		// names of things met inside the loop vary from one iteration to the next
		if hk == "h*" {
			t := v.term(o.home.key)
			if v.repl {
				o.home = &Home{t}
			}
		}
		if o.list != nil && (!v.lr.entObj[id] || o.epoch != "") {
			t := v.term(o.list)
			if v.repl {
				o.list = t
			}
		}
	}()
	v.k("\n%d:%d:%s:%s:%v:", v.num[id], o.kind, typStr(o.typ), hk, o.epoch != "")
	switch o.kind {
	case kStruct:
		for _, k := range sortedKeys(o.f) {
			v.k("%s=", k)
			n := v.val(o.f[k])
			if v.repl {
				o.f[k] = n
			}
		}
	case kSlice:
		o2 := v.optLin(o.n)
		v.slices = append(v.slices, id)
		src := o.srcT
		v.k("%v%v", o.args, src != nil)
		if src != nil {
			src = v.term(src)
		}
		// empty or not
		if !v.repl && !o.args {
			if o.n != nil {
				b, known := v.st.decide(bLe(o.n))
				v.k("z%v", known && b)
			}
		}
		if v.repl {
			o.n, o.srcT = o2, src
		}
	case kMap:
		lt := 0
		if o.list != nil {
			lt = o.list.id
		}
		if o.list != nil && (!v.lr.entObj[id] || o.epoch != "") {
			lt = -1
		}
		v.k("%v%v%v%s%d%v%v%v", o.smap, o.isKS, o.open, o.class, lt, o.swept, o.gap, o.odd)
		v.maps = append(v.maps, id)
		a := []*Lin{v.optLin(o.card), v.optLin(o.card0), v.optLin(o.n), v.optLin(o.inits), v.optLin(o.visited), v.optLin(o.vshard), v.optLin(o.vcard), v.optLin(o.rewr), v.optLin(o.slo), v.optLin(o.shi)}
		if v.repl {
			o.card, o.card0, o.n, o.inits, o.visited, o.vshard, o.vcard, o.rewr, o.slo, o.shi = a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]
		}
		if o.peer != 0 {
			v.oid(o.peer)
		}
		for i := range o.ents {
			en := o.ents[i]
			v.k("<%d %v%v%v%v%v", en.key.id, en.in, en.in0, en.have, en.mod, en.late || en.vis)
			n := v.val(en.v)
			if v.repl {
				o.ents[i].v = n
			}
		}
	case kIter:
		v.k("%v%v", o.done, o.shard != nil)
		v.oid(o.over)
		a, b := v.optLin(o.cnt), v.optLin(o.card0)
		sh := o.shard
		if sh != nil {
			sh = v.term(sh)
		}
		n := v.optLin(o.n)
		if v.repl {
			o.cnt, o.card0, o.shard, o.n = a, b, sh, n
		}
	case kSeg:
		lt := 0
		if o.list != nil {
			lt = o.list.id
		}
		if o.list != nil && (!v.lr.entObj[id] || o.epoch != "") {
			lt = -1
		}
		v.k("%v%d", o.fresh, lt)
		a, b := v.optLin(o.len), v.optLin(o.at)
		p, n := v.val(o.prev), v.val(o.next)
		if v.repl {
			o.len, o.at, o.prev, o.next = a, b, p, n
		}
	case kZsl:
		lt := 0
		if o.list != nil {
			lt = o.list.id
		}
		if o.list != nil && (!v.lr.entObj[id] || o.epoch != "") {
			lt = -1
		}
		v.k("%v%d", o.open, lt)
		a, b := v.optLin(o.card), v.optLin(o.card0)
		if v.repl {
			o.card, o.card0 = a, b
		}
		if o.peer != 0 {
			v.oid(o.peer)
		}
		for _, z := range o.zents {
			v.k("<%d %v%v%v", z.mem.id, z.in, z.in0, z.mod)
			v.oid(z.node)
		}
	case kBuf:
		t := v.term(concat(o.parts...))
		if v.repl {
			o.parts = []*Term{t}
		}
	}
}

func typStr(t types.Type) string {
	if t == nil {
		return "-"
	}
	return t.String()
}

func (v *visitor) run() {
	st := v.st
	v.num = map[ObjID]int{}
	if !v.repl {
		v.k("e%v w%v g%v", len(st.effects) > v.lr.effs, st.wrapped, st.vague)
	}
	for i, f := range st.frames {
		v.k("\nF%d %s", i, f.fn.Name())
		vals := map[ssa.Value]bool{}
		for x := range f.env {
			vals[x] = true
		}
		for _, x := range sortValues(vals) {
			v.k(" %s=", x.Name())
			n := v.val(f.env[x])
			if v.repl {
				f.env[x] = n
			}
		}
		for di := range f.defers {
			v.k(" d")
			for ai := range f.defers[di].args {
				n := v.val(f.defers[di].args[ai])
				if v.repl {
					f.defers[di].args[ai] = n
				}
			}
		}
	}
	for i := range st.iters {
		n := v.lin(st.iters[i])
		if v.repl {
			st.iters[i] = n
		}
	}
	for _, k := range sortedKeys(st.tag) {
		v.k(" tag %s=", k)
		n := v.val(st.tag[k])
		if v.repl {
			st.tag[k] = n
		}
	}
	var gs []*ssa.Global
	for g := range st.glob {
		if v.lr.entObj[st.glob[g].(VPtr).o] {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		v.k(" g:%s", g.Name())
		v.val(st.glob[g])
	}
	if st.ks != 0 {
		v.oid(st.ks)
	}
	for len(v.queue) > 0 {
		o := v.queue[0]
		v.queue = v.queue[1:]
		v.obj(o)
	}
}

func (lr *loopRun) visit(st *State) *visitor {
	v := &visitor{lr: lr, st: st}
	v.run()
	return v
}

// arrive brings a state to the header.
func (lr *loopRun) arrive(st *State) {
	lr.abstract(st)
	if st.cons.bad {
		return
	}
	v := lr.visit(st)
	key := v.key.String()
	p := lr.parts[key]
	if p == nil {
		if len(lr.parts) >= 64 {
			lr.e.undecided(lr.lp.header.Instrs[0].Pos(), st, "too many shapes at the loop in %s", fnName(lr.lp.header.Parent()))
			lr.e.vagueAll = true
			return
		}
		lr.parts[key] = &part{key: key, inv: st, dirty: true}
		lr.order = append(lr.order, key)
		return
	}
	if lr.subsumed(p.inv, st) {
		return
	}
	p.joins++
	j := lr.join(p.inv, st, p.joins > 2)
	p.inv = j
	p.dirty = true
}

// ---------- subsumption ----------

type matcher struct {
	lr   *loopRun
	A, B *State
	sb   *subst
	bind map[*Term]V
}

func (m *matcher) set(t *Term, v V) {
	m.bind[t] = v
	m.sb.m[t] = v
	m.sb.memo = map[*Term]*Term{}
}

func (m *matcher) isVar(t *Term) bool {
	return (isSym(t) && !m.lr.stable[t]) || strings.HasPrefix(t.s, "$e") && len(t.args) == 0
}

func (m *matcher) unbound(l *Lin) []mono {
	var r []mono
	for _, x := range l.t {
		if m.isVar(x.a) && m.bind[x.a] == nil {
			r = append(r, x)
		}
	}
	return r
}

func (m *matcher) hasUnboundInside(l *Lin) bool {
	for _, x := range l.t {
		if m.isVar(x.a) {
			continue
		}
		bad := false
		x.a.walk(func(t *Term) {
			if m.isVar(t) && m.bind[t] == nil {
				bad = true
			}
		})
		if bad {
			return true
		}
	}
	return false
}

func (m *matcher) lin(a, b *Lin) bool {
	if m.hasUnboundInside(a) {
		// match composite atoms structurally
		na, nb := a, m.B.cons.subst(b)
		if len(na.t) == 1 && len(nb.t) == 1 && na.t[0].k.Cmp(nb.t[0].k) == 0 && na.c.Cmp(nb.c) == 0 {
			if !m.term(na.t[0].a, nb.t[0].a) {
				return false
			}
		} else {
			return false
		}
	}
	u := m.unbound(a)
	if len(u) == 1 {
		rest := m.sb.linear(a.replace(u[0].a, linInt(0)))
		v := b.sub(rest).scale(inv(u[0].k))
		m.set(u[0].a, VNum{m.B.cons.subst(v)})
		return true
	}
	if len(u) > 1 {
		return false
	}
	return m.B.cons.entailsEq(m.sb.linear(a).sub(b))
}

func (m *matcher) term(a, b *Term) bool {
	if isIntTerm(a) || isIntTerm(b) {
		if m.isVar(a) || a.op == "lin" || isIntTerm(a) && isIntTerm(b) && a.op != b.op {
			return m.lin(termLin(a), termLin(b))
		}
	}
	if m.isVar(a) {
		if v, ok := m.bind[a]; ok {
			if vt, ok := v.(VTerm); ok {
				return m.eq(vt.t, b)
			}
			if vn, ok := v.(VNum); ok {
				return m.B.cons.entailsEq(vn.l.sub(termLin(b)))
			}
			return false
		}
		if isIntTerm(a) {
			m.set(a, VNum{termLin(b)})
		} else {
			m.set(a, VTerm{b})
		}
		return true
	}
	if a == b && !m.mentionsVar(a) {
		return true
	}
	if a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && len(a.args) > 0 {
		for i := range a.args {
			if !m.term(a.args[i], b.args[i]) {
				return m.eq(m.sb.term(a), b)
			}
		}
		return true
	}
	return m.eq(m.sb.term(a), b)
}

func (m *matcher) mentionsVar(t *Term) bool {
	r := false
	t.walk(func(x *Term) {
		if m.isVar(x) {
			r = true
		}
	})
	return r
}

func (m *matcher) eq(a, b *Term) bool {
	if m.B.sameTerm(a, b) {
		return true
	}
	if isIntTerm(a) && isIntTerm(b) {
		return m.B.cons.entailsEq(termLin(a).sub(termLin(b)))
	}
	v, known := m.B.decide(eqTerm(a, b))
	return known && v
}

func (m *matcher) val(a, b V) bool {
	switch x := a.(type) {
	case VNum:
		y, ok := b.(VNum)
		return ok && m.lin(x.l, y.l)
	case VTerm:
		y, ok := b.(VTerm)
		return ok && m.term(x.t, y.t)
	case VErr:
		y, ok := b.(VErr)
		return ok && (m.term(x.t, y.t) || x.t.op == y.t.op && x.t.op == "errnew")
	case VIfaceSym:
		y, ok := b.(VIfaceSym)
		return ok && m.term(x.t, y.t)
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && m.val(x.v, y.v)
	case VBool:
		y, ok := b.(VBool)
		if !ok {
			return false
		}
		if x.b.k == 'a' && m.isVar(x.b.t) && m.bind[x.b.t] == nil {
			return true
		}
		return x.b.String() == y.b.String()
	case VSum:
		y, ok := b.(VSum)
		if !ok || typStr(x.typ) != typStr(y.typ) || len(x.f) != len(y.f) {
			return false
		}
		for k, v := range x.f {
			w, ok := y.f[k]
			if !ok || !m.val(v, w) {
				return false
			}
		}
		return true
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for k, v := range x.f {
			w, ok := y.f[k]
			if !ok || !m.val(v, w) {
				return false
			}
		}
		return true
	case VAny:
		return true
	}
	return showV(a) == showV(b)
}

func (lr *loopRun) subsumed(A, B *State) bool {
	va, vb := lr.visit(A), lr.visit(B)
	if len(va.slots) != len(vb.slots) {
		return false
	}
	for _, pr := range objPairs(va, vb) {
		oa, ob := A.obj(pr[0]), B.obj(pr[1])
		// the names given since the join that made epoch j… do not occur in A
		if oa != nil && ob != nil && oa.epoch != ob.epoch && !strings.HasPrefix(oa.epoch, "j") {
			return false
		}
	}
	m := &matcher{lr: lr, A: A, B: B, sb: newSubst(), bind: map[*Term]V{}}
	var later [][2]slot
	for i := range va.slots {
		a, b := va.slots[i], vb.slots[i]
		switch a.k {
		case 'l':
			if u := m.unbound(a.l); len(u) > 1 || (len(u) == 1 && len(a.l.t) > 1) || m.hasUnboundInside(a.l) {
				later = append(later, [2]slot{a, b})
				continue
			}
			if !m.lin(a.l, b.l) {
				return false
			}
		case 't':
			if a.t.op == "errnew" && b.t.op == "errnew" {
				continue
			}
			if !m.term(a.t, b.t) {
				return false
			}
		case 'b':
			if !m.val(VBool{a.b}, VBool{b.b}) {
				return false
			}
		}
	}
	for _, p := range later {
		if !m.lin(p[0].l, p[1].l) {
			return false
		}
	}
	// contents of slices and of maps under construction
	for i := range va.slices {
		if !lr.sliceSub(m, A.obj(va.slices[i]), B.obj(vb.slices[i])) {
			return false
		}
	}
	for i := range va.maps {
		oa, ob := A.obj(va.maps[i]), B.obj(vb.maps[i])
		if !restSub(m, oa.rest, ob.rest) || !restSub(m, oa.rewRest, ob.rewRest) {
			return false
		}
	}
	for _, q := range A.cons.eqs {
		l := termLin(q.p).sub(q.e)
		if !m.closed(l) {
			continue
		}
		if !B.cons.entailsEq(m.sb.linear(l)) {
			return false
		}
	}
	for _, q := range A.cons.ineq {
		if !m.closed(q) {
			continue
		}
		if !B.cons.entailsLe(m.sb.linear(q)) {
			return false
		}
	}
	for t, v := range A.facts {
		if m.mentionsUnbound(t) {
			continue
		}
		x, known := B.fact(m.sb.term(t))
		if !known || x != v {
			return false
		}
	}
	return true
}

// closed: no symbol of l is left unbound (a constraint on symbols that occur
// in no slot says nothing about the values).
func (m *matcher) closed(l *Lin) bool {
	for _, x := range l.t {
		if m.mentionsUnbound(x.a) {
			return false
		}
	}
	return true
}

func (m *matcher) mentionsUnbound(t *Term) bool {
	r := false
	t.walk(func(x *Term) {
		if m.isVar(x) && m.bind[x] == nil {
			r = true
		}
	})
	return r
}

func (m *matcher) fork() *matcher {
	n := &matcher{lr: m.lr, A: m.A, B: m.B, sb: newSubst(), bind: map[*Term]V{}}
	for k, v := range m.bind {
		n.bind[k] = v
		n.sb.m[k] = v
	}
	return n
}

type point struct {
	idx *Lin // nil: any index ($j)
	v   V
	end *Lin // the index is below
}

func (lr *loopRun) points(st *State, o *Obj) []point {
	var r []point
	end := tmplEnd(st, o)
	for _, t := range o.tmpl {
		p := point{v: t.v, end: end}
		if t.at != nil {
			p.idx = linInt(*t.at)
		}
		r = append(r, p)
	}
	for _, k := range sortedExKeys(o.ex) {
		r = append(r, point{linInt(k), lr.e.tree(st, o.ex[k], 0), o.n})
	}
	for _, p := range o.pend {
		r = append(r, point{st.cons.subst(p.idx), lr.e.tree(st, p.v, 0), o.n})
	}
	return r
}

func sameContent(a, b *Obj) bool {
	if len(a.ex) != len(b.ex) || len(a.pend) != len(b.pend) || len(a.tmpl) != len(b.tmpl) {
		return false
	}
	for k, v := range a.ex {
		w, ok := b.ex[k]
		if !ok || showV(v) != showV(w) {
			return false
		}
	}
	for i := range a.pend {
		if a.pend[i].idx.key() != b.pend[i].idx.key() || showV(a.pend[i].v) != showV(b.pend[i].v) {
			return false
		}
	}
	for i := range a.tmpl {
		if showV(a.tmpl[i].v) != showV(b.tmpl[i].v) || (a.tmpl[i].at == nil) != (b.tmpl[i].at == nil) {
			return false
		}
		if a.tmpl[i].at != nil && *a.tmpl[i].at != *b.tmpl[i].at {
			return false
		}
	}
	return true
}

func (lr *loopRun) sliceSub(m *matcher, oa, ob *Obj) bool {
	if oa.args || oa.srcT != nil || oa == ob {
		return true
	}
	if sameContent(oa, ob) {
		return true
	}
	pa := lr.points(m.A, oa)
	for _, q := range lr.points(m.B, ob) {
		ok := false
		for _, p := range pa {
			if p.idx != nil {
				if q.idx == nil || !m.B.cons.entailsEq(m.sb.linear(p.idx).sub(q.idx)) {
					continue
				}
			}
			mm := m.fork()
			if p.idx == nil {
				if q.idx != nil {
					mm.set(jVar, VNum{q.idx})
				}
			}
			if mm.val(p.v, q.v) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

var _ = token.NoPos

// newEpoch names a point after which the unrecorded entries of a map have values of their own.
func (e *Engine) newEpoch() string {
	e.epochSeq++
	return fmt.Sprintf("~%d", e.epochSeq)
}

// gcSyms forgets what is known about symbols that name nothing any more.
func (st *State) gcSyms() {
	live := map[*Term]bool{}
	st.liveSyms(live)
	keep := symsKept(live, nil)
	drop := false
	for _, q := range st.cons.eqs {
		if !keep(q.p) {
			drop = true
		}
		for _, m := range q.e.t {
			if !keep(m.a) {
				drop = true
			}
		}
	}
	for _, q := range st.cons.ineq {
		for _, m := range q.t {
			if !keep(m.a) {
				drop = true
			}
		}
	}
	if drop {
		st.cons = st.cons.project(keep)
	}
	for t := range st.facts {
		if !keep(t) {
			n := map[*Term]bool{}
			for a, b := range st.facts {
				if keep(a) {
					n[a] = b
				}
			}
			st.facts = n
			break
		}
	}
}

// restSub: every alternative of b is one of a.
func restSub(m *matcher, a, b []V) bool {
	for _, r := range b {
		ok := false
		for _, q := range a {
			mm := m.fork()
			if mm.val(q, r) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
