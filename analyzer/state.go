package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjKind byte

const (
	kStruct ObjKind = iota // struct or single cell
	kSlice                 // backing store of a slice or array
	kMap                   // smap.Map or builtin map, as one abstract map
	kIter                  // map iterator
	kSeg                   // doubly linked list segment
	kZsl                   // ordered index of a sorted set, as an abstract multiset of members
	kBuf                   // byte/string builder
)

// tmplEl says what an element may be: v with $j standing for its index; with
// at set, only the element at that index.
type tmplEl struct {
	v  V
	at *int64
}

type pendEl struct {
	idx *Lin
	v   V
}

// ent is what is known about one key of a map.
type ent struct {
	key  *Term
	in   bool // present or absent
	v    V    // value if present
	in0  bool // presence when the map was first seen
	have bool // in0 is meaningful
	mod  bool // written by the command
	vis  bool // met by the running iteration
	late bool // met only after unrecorded changes: in0 says nothing about the initial map
}

// zent is what is known about one member of an ordered index.
type zent struct {
	mem  *Term
	in   bool
	node ObjID
	in0  bool
	have bool
	mod  bool
}

// Home tells which stored key an object of the initial heap belongs to.
type Home struct {
	key *Term // key string; nil for the keyspace map itself
}

type Obj struct {
	id   ObjID
	kind ObjKind
	typ  types.Type
	site string
	home *Home // nil: created by the command being analysed
	pos  token.Pos

	f   map[string]V // fields, "" for a plain cell
	sum bool         // summary object: fields are templates

	// slices
	n    *Lin
	args bool  // element i is the term arg(i)
	srcT *Term // bytes of this string term
	ex   map[int64]V
	pend []pendEl
	tmpl []tmplEl
	zero V
	str  *Term // iterated string

	// maps
	card, card0 *Lin
	ents        []ent
	open        bool // keys not in ents may be present
	class       string
	rest        []V // alternatives for values of unknown keys (class "")
	isKS        bool
	smap        bool
	inits       *Lin  // shards given so far to a map under construction; nil once complete
	peer        ObjID // the other half of a sorted set
	dirty       bool
	writes      int
	visited     *Lin // keys met by the running sharded iteration
	vshard      *Lin // next shard of the running sharded iteration
	vcard       *Lin // size of the map when that iteration began
	slo, shi    *Lin // shards walked to their end: slo..shi-1
	gap, odd    bool // one was left out; visited in another order
	swept       bool
	rewr        *Lin // entries given a new value by the running iteration
	rewRest     []V  // alternatives for those values
	epoch       string

	// iterators
	over  ObjID
	cnt   *Lin
	done  bool
	shard *Term

	// list segments
	len, at *Lin // at: original position of the first element, nil if unknown
	prev    V
	next    V
	list    *Term // identity of the stored list the values come from
	fresh   bool  // segment of freshly created nodes

	// ordered index
	zents []zent

	// builders
	parts []*Term
}

func (o *Obj) clone() *Obj {
	n := *o
	if o.f != nil {
		n.f = make(map[string]V, len(o.f))
		for k, v := range o.f {
			n.f[k] = v
		}
	}
	if o.ex != nil {
		n.ex = make(map[int64]V, len(o.ex))
		for k, v := range o.ex {
			n.ex[k] = v
		}
	}
	n.pend = append([]pendEl(nil), o.pend...)
	n.tmpl = append([]tmplEl(nil), o.tmpl...)
	n.ents = append([]ent(nil), o.ents...)
	n.rest = append([]V(nil), o.rest...)
	n.rewRest = append([]V(nil), o.rewRest...)
	n.zents = append([]zent(nil), o.zents...)
	n.parts = append([]*Term(nil), o.parts...)
	return &n
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]V
	defers []deferred
	call   ssa.Instruction // call instruction in the parent frame
}

type deferred struct {
	com  *ssa.CallCommon
	args []V
	fn   V
}

// Effect is a change of stored data on the current path.
type Effect struct {
	what string
	key  *Term // key whose value changed
	ks   bool  // the keyspace entry itself changed
	obj  ObjID
	pos  token.Pos
}

// Access is a lookup of a key in the keyspace.
type Access struct {
	key *Term
	pos token.Pos
	w   bool
}

type State struct {
	frames  []*Frame
	heap    map[ObjID]*Obj
	own     map[ObjID]bool // objects this state may modify in place
	cons    *Cons
	facts   map[*Term]bool
	glob    map[*ssa.Global]V
	effects []Effect
	access  []Access
	notes   []Note
	ret     []V
	panic   *PanicInfo
	choices []string // branch trail, for reports
	ks      ObjID
	wrapped bool
	vague   bool // the analysis lost track of something on this path
	ikeys   map[*Term]*Term
	cbLast  V
	iters   []*Lin // iteration counters of the active loops
	wraps   []token.Pos
	tag     map[string]V // marks kept by the rules
}

// Note is an event of interest to a rule, recorded while executing.
type Note struct {
	kind string
	pos  token.Pos
	t    []*Term
	l    []*Lin
	v    V
	obj  ObjID
	s    string
}

type PanicInfo struct {
	kind string // index, nil, assert, explicit, div, make, mapnil
	pos  token.Pos
	msg  string
}

func newState() *State {
	return &State{heap: map[ObjID]*Obj{}, own: map[ObjID]bool{}, cons: &Cons{}, facts: map[*Term]bool{}, glob: map[*ssa.Global]V{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[ObjID]*Obj, len(s.heap)), own: map[ObjID]bool{}, cons: s.cons.clone(), facts: make(map[*Term]bool, len(s.facts)), glob: make(map[*ssa.Global]V, len(s.glob))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	s.own = map[ObjID]bool{} // both sides now share the objects
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.glob {
		n.glob[k] = v
	}
	for _, f := range s.frames {
		nf := &Frame{fn: f.fn, env: make(map[ssa.Value]V, len(f.env)), defers: append([]deferred(nil), f.defers...), call: f.call}
		for k, v := range f.env {
			nf.env[k] = v
		}
		n.frames = append(n.frames, nf)
	}
	n.effects = append([]Effect(nil), s.effects...)
	n.access = append([]Access(nil), s.access...)
	n.notes = append([]Note(nil), s.notes...)
	n.ret = s.ret
	n.panic = s.panic
	n.choices = append([]string(nil), s.choices...)
	n.ks, n.wrapped, n.vague, n.ikeys, n.cbLast = s.ks, s.wrapped, s.vague, s.ikeys, s.cbLast
	n.wraps = append([]token.Pos(nil), s.wraps...)
	n.iters = append([]*Lin(nil), s.iters...)
	if s.tag != nil {
		n.tag = make(map[string]V, len(s.tag))
		for k, v := range s.tag {
			n.tag[k] = v
		}
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) obj(id ObjID) *Obj { return s.heap[id] }

// mut returns a modifiable object.
func (s *State) mut(id ObjID) *Obj {
	o := s.heap[id]
	if o == nil {
		return nil
	}
	if !s.own[id] {
		o = o.clone()
		s.heap[id] = o
		s.own[id] = true
	}
	return o
}

var objCount ObjID

func (s *State) newObj(k ObjKind, t types.Type, site string, pos token.Pos) *Obj {
	objCount++
	o := &Obj{id: objCount, kind: k, typ: t, site: site, pos: pos}
	if k == kStruct {
		o.f = map[string]V{}
	}
	s.heap[o.id] = o
	s.own[o.id] = true
	return o
}

func (s *State) effect(en *Engine, e Effect) {
	en.effects++
	en.emit(Ev{kind: "effect", st: s, pos: e.pos, key: e.key, obj: e.obj, s: e.what, ks: e.ks})
	for _, x := range s.effects {
		if x.what == e.what && x.key == e.key && x.ks == e.ks && x.pos == e.pos {
			return
		}
	}
	s.effects = append(s.effects, e)
}

func (s *State) note(n Note) { s.notes = append(s.notes, n) }

func (s *State) choose(f string, a ...interface{}) {
	if len(s.choices) < 60 {
		s.choices = append(s.choices, fmt.Sprintf(f, a...))
	}
}

// ---------- assumptions ----------

// assume adds b to the path condition; the result lists the feasible states
// (an equality that must not hold may split in two).
func (s *State) assume(b *B) []*State {
	switch b.k {
	case 'c':
		if b.c {
			return []*State{s}
		}
		return nil
	case 'l':
		s.cons.addLe(b.l)
		if s.cons.bad {
			return nil
		}
		return []*State{s}
	case 'e':
		if !b.neg {
			s.cons.addEq(b.l)
			if s.cons.bad {
				return nil
			}
			return []*State{s}
		}
		if s.cons.excludesEq(b.l) {
			return []*State{s}
		}
		var r []*State
		t := s.clone()
		t.cons.addLe(b.l.addInt(1)) // l <= -1
		if !t.cons.bad {
			r = append(r, t)
		}
		s.cons.addLe(linInt(1).sub(b.l)) // l >= 1
		if !s.cons.bad {
			r = append(r, s)
		}
		return r
	}
	t := s.normTerm(b.t)
	want := !b.neg
	if v, ok := s.evalAtom(t); ok {
		if v == want {
			return []*State{s}
		}
		return nil
	}
	s.setFact(t, want)
	if !s.factsOK(t, want) {
		return nil
	}
	if want && t.op == "eq" {
		s.canonical(t)
	}
	return []*State{s}
}

// canonical: a number whose usual spelling is the text it was parsed from
// stands for exactly that text.
func (s *State) canonical(eq *Term) {
	for i := 0; i < 2; i++ {
		a, b := eq.args[i], eq.args[1-i]
		if a.op != "fmtint" && a.op != "fmtflt" || len(a.args) != 1 {
			continue
		}
		n := a.args[0]
		if n.op == "lin" {
			n = n.lin.single()
		}
		if n == nil || len(n.args) != 1 || n.args[0] != b {
			continue
		}
		sb := newSubst()
		switch {
		case n.op == "iparse" && n.s == "10":
			c := mk("cparse", "10", b)
			c.i64 = true
			sb.m[n] = VNum{termLin(c)}
		case n.op == "fparse":
			sb.m[n] = VTerm{mk("fcparse", n.s, b)}
		default:
			continue
		}
		s.mapValues(func(v V) V { return subV(v, sb) })
		return
	}
}

// decide evaluates b if the state determines it.
func (s *State) decide(b *B) (val, known bool) {
	switch b.k {
	case 'c':
		return b.c, true
	case 'l':
		if s.cons.entailsLe(b.l) {
			return true, true
		}
		if s.cons.entailsLe(linInt(1).sub(b.l)) {
			return false, true
		}
	case 'e':
		if s.cons.entailsEq(b.l) {
			return !b.neg, true
		}
		if s.cons.excludesEq(b.l) {
			return b.neg, true
		}
	case 'a':
		if v, ok := s.evalAtom(s.normTerm(b.t)); ok {
			return v != b.neg, true
		}
	}
	return false, false
}

// normTerm rewrites the integer arguments of a term by the known equalities so
// that equal terms become identical.
func (s *State) normTerm(t *Term) *Term {
	if t == nil || (len(t.args) == 0 && t.lin == nil) || len(s.cons.eqs) == 0 {
		return t
	}
	if t.op == "lin" {
		return mkLin(s.cons.subst(t.lin))
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		if isIntTerm(a) {
			na[i] = mkLin(s.cons.subst(termLin(a)))
		} else {
			na[i] = s.normTerm(a)
		}
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	r := mk(t.op, t.s, na...)
	r.nonneg, r.i64, r.lo, r.hi = t.nonneg, t.i64, t.lo, t.hi
	return r
}

func isIntTerm(t *Term) bool {
	switch t.op {
	case "lin", "isym", "len", "card", "mod", "and", "or", "mul", "quo", "xor", "shl", "shr", "iparse", "cparse", "uf", "jvar", "byteat":
		return true
	}
	return false
}

func (s *State) sameTerm(a, b *Term) bool {
	return a == b || s.normTerm(a) == s.normTerm(b)
}

// eqTerm builds the boolean a == b for opaque scalars.
func eqTerm(a, b *Term) *B {
	if a == b {
		if a.op == "fsym" || strings.HasPrefix(a.op, "f") {
			// a float equals itself unless NaN; stored scores are never NaN
			return bTrue
		}
		return bTrue
	}
	if a.isStr() && b.isStr() {
		return bConst(a.s == b.s)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bAtom(mk("eq", "", a, b))
}

// rep returns the constant a string term is known to equal.
func (s *State) constOf(t *Term) (*Term, bool) {
	if t.isStr() {
		return t, true
	}
	for f, v := range s.facts {
		if v && f.op == "eq" {
			if f.args[0] == t && f.args[1].isStr() {
				return f.args[1], true
			}
			if f.args[1] == t && f.args[0].isStr() {
				return f.args[0], true
			}
		}
	}
	return nil, false
}

func (s *State) evalAtom(t *Term) (bool, bool) {
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case "eq":
		a, b := t.args[0], t.args[1]
		na, nb := s.normTerm(a), s.normTerm(b)
		if na == nb {
			return true, true
		}
		if na.isStr() && nb.isStr() {
			return na.s == nb.s, true
		}
		if na != a || nb != b {
			e := eqTerm(na, nb)
			if e.k == 'a' && e.t != t {
				if v, ok := s.facts[e.t]; ok {
					return v, true
				}
			}
		}
		if ca, ok := s.constOf(na); ok {
			if cb, ok := s.constOf(nb); ok {
				return ca.s == cb.s, true
			}
		}
		// one step of transitivity over known equalities
		for f, v := range s.facts {
			if !v || f.op != "eq" {
				continue
			}
			var o *Term
			switch {
			case f.args[0] == na:
				o = f.args[1]
			case f.args[1] == na:
				o = f.args[0]
			default:
				continue
			}
			if e := eqTerm(o, nb); e.k == 'a' {
				if v, ok := s.facts[e.t]; ok {
					return v, true
				}
			} else if e.k == 'c' {
				return e.c, true
			}
		}
		// concatenations with a common part
		la, lb := strLen(na), strLen(nb)
		if isStrTerm(na) && isStrTerm(nb) && s.cons.excludesEq(la.sub(lb)) {
			return false, true
		}
	case "isnil":
		switch t.args[0].op {
		case "errglobal", "errnew":
			return false, true
		}
	case "flt":
		// a<b
		if t.args[0] == t.args[1] {
			return false, true
		}
		if v, ok := s.facts[mk("flt", "", t.args[1], t.args[0])]; ok && v {
			return false, true
		}
		if e := eqTerm(t.args[0], t.args[1]); e.k == 'a' {
			if v, ok := s.facts[e.t]; ok && v {
				return false, true
			}
		}
	}
	return false, false
}

func isStrTerm(t *Term) bool {
	switch t.op {
	case "str", "ssym", "arg", "concat", "sub", "lower", "upper", "trim", "fmtint", "fmtflt", "kind", "strval", "elem", "bytes", "strof", "sfun":
		return true
	}
	return false
}

func (s *State) setFact(t *Term, v bool) { s.facts[t] = v }

// factsOK checks a newly added fact against domain knowledge.
func (s *State) factsOK(t *Term, v bool) bool {
	if t.op == "eq" {
		a, b := t.args[0], t.args[1]
		if v {
			// equal strings have equal lengths
			if isStrTerm(a) && isStrTerm(b) {
				s.cons.addEq(strLen(a).sub(strLen(b)))
				if s.cons.bad {
					return false
				}
			}
			// a constant cannot equal two constants; known disequalities
			for _, x := range []*Term{a, b} {
				o := a
				if x == a {
					o = b
				}
				for f, fv := range s.facts {
					if f == t || f.op != "eq" {
						continue
					}
					var y *Term
					if f.args[0] == x {
						y = f.args[1]
					} else if f.args[1] == x {
						y = f.args[0]
					} else {
						continue
					}
					e := eqTerm(y, o)
					if e.k == 'c' && e.c != fv {
						return false
					}
					if e.k == 'a' {
						if ev, ok := s.facts[e.t]; ok && ev != fv {
							return false
						}
					}
				}
			}
		} else {
			for _, x := range []*Term{a, b} {
				if x.op == "kind" {
					n := 0
					for _, k := range kindNames {
						e := eqTerm(x, strTerm(k))
						if fv, ok := s.facts[e.t]; ok && !fv {
							n++
						}
					}
					if n == len(kindNames) {
						return false
					}
				}
			}
			if isStrTerm(a) && isStrTerm(b) {
				// the empty string: len != 0
				for _, p := range [][2]*Term{{a, b}, {b, a}} {
					if p[0].isStr() && p[0].s == "" {
						s.cons.addLe(linInt(1).sub(strLen(p[1])))
						if s.cons.bad {
							return false
						}
					}
				}
			}
		}
	}
	if t.op == "isnil" && t.args[0].op == "errof" {
		// the error of one parse; nothing else to do
	}
	return true
}

func (s *State) fact(t *Term) (bool, bool) { return s.evalAtom(s.normTerm(t)) }

// ---------- reachability ----------

func walkV(v V, f func(ObjID)) {
	switch v := v.(type) {
	case VPtr:
		if v.o != 0 {
			f(v.o)
		}
	case VIface:
		if v.t != nil {
			walkV(v.v, f)
		}
	case VSlice:
		if v.o != 0 {
			f(v.o)
		}
	case VMap:
		if v.o != 0 {
			f(v.o)
		}
	case VShard:
		f(v.o)
	case VMapView:
		f(v.o)
	case VFunc:
		for _, b := range v.b {
			walkV(b, f)
		}
	case VTuple:
		for _, e := range v.e {
			walkV(e, f)
		}
	case VIter:
		f(v.o)
	case VStruct:
		for _, k := range sortedKeys(v.f) {
			walkV(v.f[k], f)
		}
	}
}

func sortedKeys(m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (o *Obj) walk(f func(ObjID)) {
	for _, k := range sortedKeys(o.f) {
		walkV(o.f[k], f)
	}
	for _, v := range o.ex {
		walkV(v, f)
	}
	for _, p := range o.pend {
		walkV(p.v, f)
	}
	for _, t := range o.tmpl {
		walkV(t.v, f)
	}
	if o.zero != nil {
		walkV(o.zero, f)
	}
	for _, e := range o.ents {
		if e.v != nil {
			walkV(e.v, f)
		}
	}
	for _, v := range o.rest {
		walkV(v, f)
	}
	for _, v := range o.rewRest {
		walkV(v, f)
	}
	if o.over != 0 {
		f(o.over)
	}
	if o.prev != nil {
		walkV(o.prev, f)
	}
	if o.next != nil {
		walkV(o.next, f)
	}
	for _, z := range o.zents {
		if z.in && z.node != 0 {
			f(z.node)
		}
	}
}

func (s *State) reach(roots []V) map[ObjID]bool {
	seen := map[ObjID]bool{}
	var st []ObjID
	push := func(o ObjID) {
		if !seen[o] && s.heap[o] != nil {
			seen[o] = true
			st = append(st, o)
		}
	}
	for _, v := range roots {
		walkV(v, push)
	}
	for len(st) > 0 {
		o := st[len(st)-1]
		st = st[:len(st)-1]
		s.heap[o].walk(push)
	}
	return seen
}
