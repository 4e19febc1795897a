package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: one order, everywhere. The functions of the ordered index are interpreted on an arbitrary
// index. A loop that follows forward links is a search; the conditions under which it goes on and
// stops are compared, for each of the nine ways the next node's score and member can relate to what
// is searched for, with the searches that make sense: for the last node before (or up to) a score
// and member, or before (or up to) a score. What a search ends at is from then on known as that
// node, and links, scores and ranks are checked in these terms.

type zindex struct {
	rounds map[*ssa.BasicBlock]*zround
	c      *ctx
	id     string          // the property
	only   map[string]bool // rules that belong to it, nil for all
	list   *types.Struct   // the index
	node   *types.Struct
	lev    *types.Struct // what a node holds per level
	fHead, fScore, fValue, fLevels,
	fFwd string
	cfg     string
	pass    int
	f       *flow
	zsl     *fv
	walks   map[string]*zwalk
	done    map[string]int
	tmpl    map[*fv]map[*fv]bool
	said    map[string]bool
	kept    []dfound
	seen    map[string]int
	root    *ssa.Function
	args    []*fv
	rootSet map[*ssa.Function]bool
}

// zwalk is one search loop in one calling context.
type zwalk struct {
	at       string
	fn       *ssa.Function
	phi      *ssa.Phi
	S, V     map[*fv]bool
	index    []ssa.Value
	con      *fv // the level, if it is a constant
	adv      int
	stop     int
	advSeen  bool
	unknown  string
	stopSeen bool
	class    string
	radv     int
	rstop    int
	runk     string
}

const (
	zA = 1<<0 | 1<<1 | 1<<2 | 1<<3 // before the score and member
	zB = zA | 1<<4                 // up to them
	zC = 1<<0 | 1<<1 | 1<<2        // before the score
	zD = zC | 1<<3 | 1<<4 | 1<<5   // up to the score
)

func orderedIndex(c *ctx) {
	z := &zindex{c: c, id: "C19", said: map[string]bool{}, seen: map[string]int{}}
	z.analyse()
}

func (z *zindex) analyse() {
	c := z.c
	if !z.schema() {
		c.undecided("ordered index not found")
		return
	}
	roots := z.roots()
	if len(roots) == 0 {
		c.undecided("no function of the ordered index found")
		return
	}
	z.rootSet = map[*ssa.Function]bool{}
	for _, fn := range roots {
		z.rootSet[fn] = true
	}
	for _, fn := range roots {
		z.function(fn)
	}
	for _, x := range z.kept {
		c.bad(x.rule, x.pos, "%s", x.msg)
	}
	c.count("functions of the ordered index", len(roots))
	for k, n := range z.seen {
		c.count(k, n)
	}
	if z.seen["links set"] == 0 || z.seen["searches"] == 0 {
		c.undecided("no search that sets a link was recognised")
	}
}

// schema finds the types by their shape: a node has one score, one text and a slice of records that
// point to nodes; the index has nodes and numbers.
func (z *zindex) schema() bool {
	sp := z.c.p.pkg("datastruct")
	if sp == nil {
		return false
	}
	structs := map[*types.Struct]bool{}
	for _, m := range sp.Members {
		if t, ok := m.(*ssa.Type); ok {
			if u, ok := t.Type().Underlying().(*types.Struct); ok {
				structs[u] = true
			}
		}
	}
	ptr := func(t types.Type) *types.Struct {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			s, _ := p.Elem().Underlying().(*types.Struct)
			return s
		}
		return nil
	}
	for n := range structs {
		score, value, levels, fwd := "", "", "", ""
		var lev *types.Struct
		for i := 0; i < n.NumFields(); i++ {
			f := n.Field(i)
			switch t := f.Type().Underlying().(type) {
			case *types.Basic:
				if t.Kind() == types.Float64 {
					score = f.Name()
				}
				if t.Kind() == types.String {
					value = f.Name()
				}
			case *types.Slice:
				l := ptr(t.Elem())
				if l == nil {
					l, _ = t.Elem().Underlying().(*types.Struct)
				}
				if l == nil {
					continue
				}
				for j := 0; j < l.NumFields(); j++ {
					if ptr(l.Field(j).Type()) == n {
						lev, levels, fwd = l, f.Name(), l.Field(j).Name()
					}
				}
			}
		}
		if score == "" || value == "" || lev == nil {
			continue
		}
		for l := range structs {
			head := ""
			for i := 0; i < l.NumFields(); i++ {
				if ptr(l.Field(i).Type()) == n && l != n && l != lev && z.c.p.fieldStores(l, l.Field(i).Name()) == 1 {
					head = l.Field(i).Name()
				}
			}
			if head != "" {
				z.node, z.lev, z.list = n, lev, l
				z.fHead, z.fScore, z.fValue, z.fLevels, z.fFwd = head, score, value, levels, fwd
			}
		}
	}
	return z.list != nil
}

func (z *zindex) isNode(t types.Type) bool { return t != nil && fstructOf2(t) == z.node }
func (z *zindex) isList(t types.Type) bool { return t != nil && fstructOf2(t) == z.list }

// fstructOf2 is the struct a pointer points to.
func fstructOf2(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s, _ := p.Elem().Underlying().(*types.Struct)
		return s
	}
	return nil
}

// roots are the functions that get an index (or make links) and are not only called by such functions.
func (z *zindex) roots() []*ssa.Function {
	uses := map[*ssa.Function]bool{}
	for _, fn := range z.c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.FieldAddr); ok {
					if s := fstructOf2(x.X.Type()); s == z.lev || s == z.node && x.X.Type() != nil {
						n := s.Field(x.Field).Name()
						if s == z.lev || n == z.fLevels {
							uses[fn] = true
						}
						if n == z.fScore || n == z.fValue {
							for _, r := range *x.Referrers() {
								if _, ok := r.(*ssa.Store); ok {
									uses[fn] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range z.c.p.Funcs {
			if uses[fn] || !z.takesIndex(fn) {
				continue
			}
			for _, g := range staticCallees(fn) {
				if uses[g] {
					uses[fn], again = true, true
				}
			}
		}
	}
	inner := map[*ssa.Function]bool{}
	outer := map[*ssa.Function]bool{}
	for _, fn := range z.c.p.Funcs {
		for _, g := range staticCallees(fn) {
			if uses[g] {
				if uses[fn] && fn != g {
					inner[g] = true
				} else if !uses[fn] {
					outer[g] = true
				}
			}
		}
	}
	var rs []*ssa.Function
	for fn := range uses {
		if fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		if !z.orders(fn) && !z.ranked(fn) {
			continue
		}
		if !inner[fn] || outer[fn] && z.takesIndex(fn) || z.ranked(fn) {
			if z.takesIndex(fn) {
				rs = append(rs, fn)
			} else {
				z.seen["functions without an index"]++
			}
		}
	}
	sort.Slice(rs, func(i, j int) bool { return fnName(rs[i]) < fnName(rs[j]) })
	return rs
}

// orders: the function, or what it calls, compares nodes or links them.
func (z *zindex) orders(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := fstructOf2(x.X.Type())
				n := ""
				if s != nil {
					n = s.Field(x.Field).Name()
				}
				isKey := s == z.node && (n == z.fScore || n == z.fValue)
				for _, r := range *x.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == x && (isKey || s == z.lev && n == z.fFwd) {
						return true
					}
					u, ok := r.(*ssa.UnOp)
					if !ok || !isKey {
						continue
					}
					for _, q := range *u.Referrers() {
						switch y := q.(type) {
						case *ssa.BinOp:
							return true
						case *ssa.Call:
							if h := y.Call.StaticCallee(); h != nil && (h.String() == "strings.Compare" || h.Blocks != nil) {
								return true
							}
						}
					}
				}
			}
		}
		for _, h := range staticCallees(g) {
			if visit(h) {
				return true
			}
		}
		return false
	}
	return visit(fn)
}

func (z *zindex) takesIndex(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if z.isList(p.Type()) {
			return true
		}
	}
	return false
}

// function analyses one function for every combination of its flags.
func (z *zindex) function(fn *ssa.Function) {
	var flags []int
	for i, p := range fn.Params {
		if isBasic(p.Type(), types.IsBoolean) {
			flags = append(flags, i)
		}
	}
	if len(flags) > 4 {
		z.c.undecided("%s has too many flags", fnName(fn))
		return
	}
	for m := 0; m < 1<<len(flags); m++ {
		set := map[int]bool{}
		cfg := fnName(fn)
		for k, i := range flags {
			set[i] = m>>k&1 == 1
			if set[i] {
				cfg += " " + fn.Params[i].Name()
			}
		}
		z.cfg, z.root = cfg, fn
		z.walks, z.tmpl = map[string]*zwalk{}, map[*fv]map[*fv]bool{}
		var ok bool
		for z.pass = 1; z.pass <= 3; z.pass++ {
			if z.pass == 3 {
				// the second pass knows the searches, the third what the arrays hold
				z.classify()
			}
			if ok = z.once(fn, set); !ok {
				return
			}
			if z.pass == 1 {
				z.classify()
				z.tmpl = map[*fv]map[*fv]bool{}
			}
		}
	}
}

func (z *zindex) bad(rule, pos, form string, a ...interface{}) {
	if z.pass != 3 || z.only != nil && !z.only[rule] {
		return
	}
	m := fmt.Sprintf(form, a...)
	if !z.said[rule+pos+m] {
		z.said[rule+pos+m] = true
		z.kept = append(z.kept, dfound{z.id, rule, pos, m})
	}
}

func (z *zindex) vague(form string, a ...interface{}) {
	if z.pass == 3 {
		z.c.undecided(form, a...)
	}
}

func (z *zindex) obl() {
	if z.pass == 3 {
		z.c.obl()
	}
}

func (z *zindex) once(fn *ssa.Function, set map[int]bool) (done bool) {
	f := newFlow(z.c)
	if z.pass > 1 {
		f.terms, f.nid = z.f.terms, z.f.nid // what was learnt is kept in these terms
	}
	z.f = f
	f.linear, f.monotone = true, true
	f.stable = func(*fv) bool { return true }
	f.spread = map[string]bool{"last": true, "pos": true, "fwd": true, "span": true}
	st := newFst()
	var args []*fv
	for i, p := range fn.Params {
		v := f.mk("sym", p.Name(), p.Type())
		if b, ok := set[i]; ok {
			v = f.bool(b)
		}
		if z.isList(p.Type()) {
			z.zsl = v
			st.facts[f.cmp(token.EQL, v, f.null())] = false
		}
		args = append(args, v)
	}
	z.args = args
	st.facts[f.cmp(token.LSS, f.num(0), z.level())] = true
	if z.goal() != nil {
		st.heap[z.missed()] = z.level()
	}
	st.facts[f.cmp(token.EQL, z.pos(z.head()), f.num(0))] = true
	f.onLoad, f.onStore, f.onHead, f.onBack, f.onLeave, f.onGeneral = z.load, z.store, z.atLoop, z.back, z.leave, z.generalise
	f.onCall = z.call
	defer func() {
		if z.pass == 3 {
			z.seen["abstract steps"] += f.steps
		}
		for _, s := range uniq(f.stuck) {
			z.vague("%s: %s", z.cfg, s)
		}
		if x := recover(); x != nil {
			s, ok := x.(flowStop)
			if !ok {
				panic(x)
			}
			z.pass = 3
			z.vague("%s: %s", z.cfg, s.why)
		}
	}()
	z.done = map[string]int{}
	outs := f.exec(st, fn, args, nil)
	if z.pass == 3 {
		z.seen["ways to end"] += len(outs)
		z.complete()
		for _, o := range outs {
			if !z.impossible(o.st) && o.st.panic != "" {
				z.obl()
				if o.st.panic == "nil dereference" {
					z.bad(zNodes, f.pos(o.st.pos), "%s: a node that is not there is used%s", z.cfg, path(o.st))
				}
			}
			if !z.impossible(o.st) && o.st.panic == "" {
				z.end(o.st, o.res, args)
				z.whole(o.st, o.res)
			}
		}
	}
	return true
}

// ---- terms

func (z *zindex) head() *fv { return z.f.mk("ld", "", nil, z.fieldOf(z.zsl, z.list, z.fHead)) }

func (z *zindex) fieldOf(b *fv, s *types.Struct, name string) *fv {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return z.f.faddr(b, s, i)
		}
	}
	return nil
}

// level is the number of levels in use: the number a search starts from.
func (z *zindex) level() *fv {
	name := z.c.p.zLevelField(z)
	a := z.fieldOf(z.zsl, z.list, name)
	if a == nil {
		return z.f.sym("level")
	}
	return z.f.mk("ld", "", a.t, a)
}

// zLevelField: the integer field of the index that some level index is computed from.
func (p *Prog) zLevelField(z *zindex) string {
	if s, ok := p.zlevel[z.list]; ok {
		return s
	}
	n := map[string]int{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.BinOp)
				if !ok || x.Op != token.SUB {
					continue
				}
				k, ok := x.Y.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() != 1 {
					continue
				}
				u, ok := x.X.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok || fstructOf2(fa.X.Type()) != z.list {
					continue
				}
				for _, r := range *x.Referrers() {
					if _, ok := r.(*ssa.Phi); ok {
						n[z.list.Field(fa.Field).Name()]++
					}
				}
			}
		}
	}
	best := ""
	var ks []string
	for k := range n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if best == "" || n[k] > n[best] {
			best = k
		}
	}
	if p.zlevel == nil {
		p.zlevel = map[*types.Struct]string{}
	}
	p.zlevel[z.list] = best
	return best
}

func (z *zindex) pos(n *fv) *fv    { return z.f.mk("pos", "", types.Typ[types.Int], n) }
func (z *zindex) fwd(n, i *fv) *fv { return z.f.mk("fwd", "", nil, n, i) }

// record is the node and the level a level record belongs to.
func (z *zindex) record(a *fv) (n, i *fv) {
	switch {
	case a == nil:
	case a.op == "lv":
		return a.a[0], a.a[1]
	case a.op == "iaddr" && a.a[0].op == "levels":
		return a.a[0].a[0], a.a[1]
	}
	return nil, nil
}

func (z *zindex) load(st *fst, in ssa.Instruction, addr *fv) *fv {
	f := z.f
	switch {
	case addr.op == "iaddr" && addr.a[0].op == "levels":
		if z.lev != nil && addr.t != nil && fstructOf2(addr.t) == z.lev {
			return f.mk("lv", "", addr.t, addr.a[0].a[0], addr.a[1])
		}
	case addr.op == "iaddr":
		if st.heap[addr] != nil {
			return nil
		}
		ts := z.tmpl[addr.a[0]]
		if len(ts) == 1 {
			for t := range ts {
				return f.subst(t, map[*fv]*fv{z.hole(): addr.a[1]})
			}
		}
		if len(ts) > 1 {
			return f.mk("mixed", "", addr.t, addr)
		}
	case addr.op == "faddr" && addr.own == z.node && addr.s == z.fLevels:
		return f.mk("levels", "", nil, addr.a[0])
	case addr.op == "faddr" && addr.own == z.lev:
		n, i := z.record(addr.a[0])
		if n == nil {
			return nil
		}
		if v := st.heap[addr]; v != nil {
			return v
		}
		for a, v := range st.heap {
			if a.op != "faddr" || a.own != z.lev || a.s != addr.s || v == nil {
				continue
			}
			m, j := z.record(a.a[0])
			if m != nil && !z.apart(st, m, j, n, i) {
				return f.mk("maybe", "", addr.t, addr)
			}
		}
		if addr.s == z.fFwd {
			return z.fwd(n, i)
		}
		return f.mk("span", addr.s, addr.t, n, i)
	case addr.op == "faddr" && addr.own == z.node:
		if v := st.heap[addr]; v != nil {
			return v
		}
		return f.mk("key", addr.s, addr.t, addr.a[0])
	}
	return nil
}

func (z *zindex) hole() *fv { return z.f.mk("hole", "", nil) }

// apart: these are links of different nodes or levels.
func (z *zindex) apart(st *fst, m, j, n, i *fv) bool {
	if k, ok := z.f.sum(token.SUB, i, j, nil).int(); ok && k != 0 {
		return true
	}
	if m == n {
		return z.f.entails(st, i, j, -1) || z.f.entails(st, j, i, -1)
	}
	if (m.op == "obj") != (n.op == "obj") {
		return true // one is new
	}
	if v, ok := z.f.truth(st, z.f.cmp(token.EQL, m, n)); ok && !v {
		return true
	}
	// one is before what is searched for, the other is it
	before := func(a, b *fv) bool {
		return a.op == "last" && a.s[0] == 'A' && z.isAt(st, b, a.a[0], a.a[1]) == 1
	}
	return before(m, n) || before(n, m)
}

func (z *zindex) key(st *fst, n *fv, name string) *fv {
	a := z.fieldOf(n, z.node, name)
	if v := st.heap[a]; v != nil {
		return v
	}
	return z.f.mk("key", name, a.t, n)
}

// rel is the set of the nine ways the node can relate to the target, as far as the path knows.
// Bit 3*s+v: s, v are 0 for less, 1 for equal, 2 for greater.
func (z *zindex) rel(st *fst, n, S, V *fv) (mask int, unknown string) {
	sN, vN := z.key(st, n, z.fScore), z.key(st, n, z.fValue)
	mask = 1<<9 - 1
	keep := func(score bool, ok func(int) bool) {
		for i := 0; i < 9; i++ {
			r := i % 3
			if score {
				r = i / 3
			}
			if !ok(r) {
				mask &^= 1 << i
			}
		}
	}
	for k, b := range st.facts {
		if k.op == "eq" && (k.a[0].isNil() || k.a[1].isNil()) {
			continue
		}
		hs, hv := k.has(sN), k.has(vN)
		if !hs && !hv {
			continue
		}
		b := b
		if (k.op == "lt" || k.op == "eq") && len(k.a) == 2 {
			x, y := k.a[0], k.a[1]
			side := func(t, o *fv, score bool) bool {
				if o == nil {
					return false
				}
				switch {
				case x == t && y == o:
					keep(score, func(r int) bool { return (k.op == "lt" && r == 0 || k.op == "eq" && r == 1) == b })
				case y == t && x == o:
					keep(score, func(r int) bool { return (k.op == "lt" && r == 2 || k.op == "eq" && r == 1) == b })
				default:
					return false
				}
				return true
			}
			if side(sN, S, true) || side(vN, V, false) {
				continue
			}
			// strings.Compare(a, b) against a constant
			cmp := func(c, o *fv, flip bool) bool {
				kk, ok := o.int()
				if !ok || c.op != "app" || c.s != "strings.Compare" || len(c.a) != 2 || V == nil {
					return false
				}
				rev := c.a[0] == V && c.a[1] == vN
				if !rev && !(c.a[0] == vN && c.a[1] == V) {
					return false
				}
				keep(false, func(r int) bool {
					w := int64(r - 1)
					if rev {
						w = -w
					}
					switch {
					case k.op == "eq":
						return (w == kk) == b
					case flip:
						return (kk < w) == b
					}
					return (w < kk) == b
				})
				return true
			}
			if cmp(x, y, false) || cmp(y, x, true) {
				continue
			}
			// a score compared with another one is not about this target
			other := func(t *fv) bool { return x == t || y == t }
			if other(sN) && S != nil || other(vN) && V != nil {
				o := x
				if o == sN || o == vN {
					o = y
				}
				if o.op == "const" || o.op == "sym" || o.op == "key" {
					continue
				}
			}
		}
		unknown = clean(k)
	}
	return mask, unknown
}

// isAt: the node is the one searched for: 1 yes, 0 unknown, -1 no.
func (z *zindex) isAt(st *fst, n, S, V *fv) int {
	m, _ := z.rel(st, n, S, V)
	if m == 1<<4 {
		return 1
	}
	if m&(1<<4) == 0 {
		return -1
	}
	return 0
}

// impossible: the facts of the path contradict each other.
func (z *zindex) impossible(st *fst) bool {
	return z.f.entails(st, z.f.num(1), z.f.num(0), 0) || z.contra(st)
}

func (z *zindex) contra(st *fst) bool {
	c, _ := z.f.linearFacts(st)
	return c.entailsLe(linInt(1))
}

// ---- loops

// atLoop: at the head of a loop, what counts from zero with a node at the start counts its position;
// links set before are only checked where they are set.
func (z *zindex) atLoop(st *fst, nv map[ssa.Value]*fv) bool {
	stepped, joined := z.mark("stepped"), z.mark("joined")
	delete(st.facts, stepped)
	delete(st.facts, joined)
	for a, v := range st.heap {
		if a.op == "faddr" && a.own == z.lev {
			if a.s == z.spanField() {
				st.facts[stepped] = true
			}
			if n, _ := z.record(a.a[0]); a.s == z.fFwd && v.op == "obj" && n != nil && n.op != "obj" {
				st.facts[joined] = true
			}
			delete(st.heap, a)
		}
	}
	var at *fv
	for v, n := range nv {
		if z.isNode(v.Type()) && z.isHead(st, n) {
			at = n
		}
	}
	if at == nil {
		return true
	}
	start := func(v *fv) *fv {
		if k, ok := v.int(); ok && (k == 0 || k == 1) {
			return z.f.sum(token.ADD, z.pos(at), v, types.Typ[types.Int])
		}
		return nil
	}
	for v, n := range nv {
		if isBasic(v.Type(), types.IsInteger) {
			if w := start(n); w != nil {
				nv[v] = w
			}
		}
	}
	for a, v := range st.heap {
		if a.t != nil && isBasic(a.t, types.IsInteger) && (a.op == "iaddr" || a.op == "obj") {
			if w := start(v); w != nil {
				st.heap[a] = w
			}
		}
	}
	return true
}

func (z *zindex) isHead(st *fst, n *fv) bool {
	if n == z.head() {
		return true
	}
	return n != nil && n.op == "last" && z.f.entails(st, z.level(), n.a[2], 0)
}

// fold writes the position of the next node for the position of a node plus the step to the next.
func (z *zindex) fold(v, x, i *fv) *fv {
	if v == nil || v.op != "sum" {
		return v
	}
	var sp *fv
	for _, a := range v.a {
		if a.op == "span" && a.a[0] == x && a.a[1] == i {
			sp = a
		}
	}
	if sp == nil || !v.has(z.pos(x)) {
		return v
	}
	w := z.f.sum(token.SUB, z.f.sum(token.SUB, v, sp, nil), z.pos(x), nil)
	if w.has(x) {
		return v
	}
	return z.f.sum(token.ADD, w, z.pos(z.fwd(x, i)), types.Typ[types.Int])
}

func (z *zindex) walkKey(h *ssa.BasicBlock) string { return z.f.ctxName(h.Instrs[0]) }

func (z *zindex) back(st *fst, fn *ssa.Function, h *ssa.BasicBlock, nv, old map[ssa.Value]*fv) {
	f := z.f
	z.rankBack(st)
	z.round(st, fn, h, old)
	var vs []ssa.Value
	for v := range nv {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		n, o := nv[v], old[v]
		if !z.isNode(v.Type()) || n == nil || n.op != "fwd" || n.a[0] != o {
			continue
		}
		i := n.a[1]
		for u, w := range nv {
			nv[u] = z.fold(w, o, i)
		}
		for a, w := range st.heap {
			if a.op != "faddr" {
				st.heap[a] = z.fold(w, o, i)
			}
		}
		z.advance(st, fn, h, v.(*ssa.Phi), n, i, old)
	}
	// what an array holds, as a function of the index
	for _, v := range vs {
		I := old[v]
		if I == nil || !isBasic(v.Type(), types.IsInteger) {
			continue
		}
		for _, a := range byID(st.heap) {
			w := st.heap[a]
			if a.op != "iaddr" || z.f.sum(token.SUB, a.a[1], I, nil) != f.num(0) {
				continue
			}
			if a.t == nil || !z.isNode(a.t) && !isBasic(a.t, types.IsInteger) {
				continue
			}
			if nv[v] == I {
				continue
			}
			if _, ok := I.int(); !ok {
				t := f.subst(w, map[*fv]*fv{I: z.hole()})
				if z.tmpl[a.a[0]] == nil {
					z.tmpl[a.a[0]] = map[*fv]bool{}
				}
				if !z.known(st, a.a[0], w, I) {
					z.tmpl[a.a[0]][t] = true
				}
			}
			delete(st.heap, a)
		}
	}
}

// known: the array holds this there already, in other words.
func (z *zindex) known(st *fst, arr, w, I *fv) bool {
	for t := range z.tmpl[arr] {
		u := z.f.subst(t, map[*fv]*fv{z.hole(): I})
		if u == w {
			return true
		}
		if u.op == "last" && z.isHead(st, u) && z.isHead(st, w) {
			return true
		}
		if u.op == "pos" && z.isHead(st, u.a[0]) && z.zero(st, w) {
			return true
		}
	}
	// the other way round: what is there is the special case
	for t := range z.tmpl[arr] {
		u := z.f.subst(t, map[*fv]*fv{z.hole(): I})
		if w.op == "pos" && w.a[0].op == "last" && z.zero(st, u) && z.isHead(st, w.a[0]) {
			return true
		}
	}
	return false
}

func (z *zindex) zero(st *fst, v *fv) bool {
	if k, ok := v.int(); ok {
		return k == 0
	}
	return v.op == "pos" && z.isHead(st, v.a[0])
}

// advance: the loop moves on to node n along level i.
func (z *zindex) advance(st *fst, fn *ssa.Function, h *ssa.BasicBlock, ph *ssa.Phi, n, i *fv, old map[ssa.Value]*fv) {
	if z.impossible(st) {
		return
	}
	k := z.walkKey(h)
	w := z.walks[k]
	if w == nil {
		at := z.f.pos(h.Instrs[len(h.Instrs)-1])
		w = &zwalk{at: at, fn: fn, phi: ph, S: map[*fv]bool{}, V: map[*fv]bool{}}
		z.walks[k] = w
	}
	if w.phi != ph {
		return
	}
	if _, ok := i.int(); ok {
		w.con = i
	}
	// the variables that are the level, every time the loop moves on
	var index []ssa.Value
	for v, t := range old {
		if in, ok := v.(*ssa.Phi); t != i || ok && in.Block() == h {
			continue // not the level, or moves with the node
		}
		if w.advSeen {
			keep := false
			for _, x := range w.index {
				keep = keep || x == v
			}
			if !keep {
				continue
			}
		}
		index = append(index, v)
	}
	sort.Slice(index, func(i, j int) bool { return index[i].Name() < index[j].Name() })
	w.index = index
	w.advSeen = true
	if z.pass == 1 {
		z.targets(st, n, w)
	}
	z.rankAdvance(st, w, n.a[0], i)
	S, V, ok := w.target()
	if !ok {
		return
	}
	m, unk := z.rel(st, n, S, V)
	w.adv |= m
	if unk != "" {
		w.unknown = unk
	}
}

// targets notes what the node's score and member are compared with.
func (z *zindex) targets(st *fst, n *fv, w *zwalk) {
	see := func(t *fv, set map[*fv]bool) {
		for c := range st.facts {
			x := c
			if (c.op == "lt" || c.op == "eq") && len(c.a) == 2 {
				for s := 0; s < 2; s++ {
					if o := x.a[1-s]; x.a[s] == t && !o.has(n) {
						set[o] = true
					}
					if a := x.a[s]; a.op == "app" && a.s == "strings.Compare" && len(a.a) == 2 {
						for q := 0; q < 2; q++ {
							if a.a[q] == t && !a.a[1-q].has(n) {
								set[a.a[1-q]] = true
							}
						}
					}
				}
			}
		}
	}
	see(z.key(st, n, z.fScore), w.S)
	see(z.key(st, n, z.fValue), w.V)
}

func (w *zwalk) target() (S, V *fv, ok bool) {
	if len(w.S) != 1 || len(w.V) > 1 {
		return nil, nil, false
	}
	for t := range w.S {
		S = t
	}
	for t := range w.V {
		V = t
	}
	return S, V, true
}

// at is the level the search is at.
func (z *zindex) at(w *zwalk, env map[ssa.Value]*fv) *fv {
	if w.con != nil {
		return w.con
	}
	for _, v := range w.index {
		if t := env[v]; t != nil {
			return t
		}
	}
	return nil
}

func (z *zindex) leave(p *fpath, h *ssa.BasicBlock, r *frec) {
	f := z.f
	// the outer loop is through with level zero
	defer func() {
		m := map[*fv]*fv{}
		see := func(v *fv) {
			z.lasts(v, func(t *fv) {
				if _, ok := t.a[2].int(); !ok && f.entails(p.st, t.a[2], f.num(0), 0) {
					m[t] = f.mk("last", t.s, nil, t.a[0], t.a[1], f.num(0))
				}
			})
		}
		for _, v := range p.env {
			see(v)
		}
		for _, v := range p.st.heap {
			see(v)
		}
		z.rename(p, m)
	}()
	w := z.walks[z.walkKey(h)]
	if w == nil {
		return
	}
	i := z.at(w, p.env)
	x := p.env[w.phi]
	if z.pass == 1 && i != nil && x != nil {
		z.targets(p.st, z.fwd(x, i), w)
	}
	S, V, ok := w.target()
	if !ok && len(w.S)+len(w.V) == 0 && i != nil && x != nil && !z.impossible(p.st) {
		z.rankLeave(p, w, x, i)
		return
	}
	if !ok || i == nil || x == nil {
		return
	}
	if z.impossible(p.st) {
		return
	}
	n := z.fwd(x, i)
	nilFact, known := f.truth(p.st, f.cmp(token.EQL, n, f.null()))
	end := known && nilFact
	if !end {
		m, unk := z.rel(p.st, n, S, V)
		if m == 0 {
			p.st.facts[f.mk("lt", "", nil, f.num(1), f.num(0))] = true // cannot happen
			return
		}
		if !known {
			return // not asked: the search ends in another way
		}
		if V != nil && m == 1<<4 {
			return // found: taken, not stopped at
		}
		if m == 1<<9-1 && unk == "" {
			return // the next one was not looked at
		}
		if w.class == "" || z.pass == 1 {
			w.stop |= m
			w.stopSeen = true
			if unk != "" {
				w.unknown = unk
			}
		}
	}
	if w.class == "" || z.pass == 1 {
		return
	}
	if !z.goodStart(w, S, V, x, i, map[*fv]bool{}) {
		return
	}
	v := V
	if v == nil {
		v = f.null()
	}
	z.rename(p, map[*fv]*fv{x: f.mk("last", w.class, nil, S, v, i)})
	// where the search ended says it all
	for k := range p.st.facts {
		if uses(k, "fwd") || uses(k, "key") || uses(k, "levels") || uses(k, "span") {
			delete(p.st.facts, k)
		}
	}
}

func uses(v *fv, op string) bool {
	if v == nil {
		return false
	}
	if v.op == op {
		return true
	}
	for _, a := range v.a {
		if uses(a, op) {
			return true
		}
	}
	return false
}

// goodStart: the node the search is at is the start, or passed the test.
func (z *zindex) goodStart(w *zwalk, S, V, x, i *fv, seen map[*fv]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	switch {
	case x == z.head():
		return true
	case x.op == "phi":
		ok := true
		for s := range z.f.genSrc[x] {
			ok = ok && (s == x || s == nil || s.op == "fwd" && s.a[0] == x || z.goodStart(w, S, V, s, i, seen) || s.op == "fwd")
		}
		return ok
	case x.op == "last":
		return x.a[0] == S && (V == nil || x.a[1] == V) && x.s == w.class
	case x.op == "fwd":
		return true // taken by this search
	}
	return false
}

func (z *zindex) lasts(v *fv, see func(*fv)) {
	if v == nil {
		return
	}
	if v.op == "last" {
		see(v)
	}
	for _, a := range v.a {
		z.lasts(a, see)
	}
}

func (z *zindex) rename(p *fpath, m map[*fv]*fv) {
	if len(m) == 0 {
		return
	}
	f := z.f
	for k, v := range p.env {
		p.env[k] = f.subst(v, m)
	}
	heap := map[*fv]*fv{}
	for k, v := range p.st.heap {
		a := k
		if k.op == "faddr" || k.op == "iaddr" {
			a = f.subst(k, m)
		}
		heap[a] = f.subst(v, m)
	}
	p.st.heap = heap
	facts := map[*fv]bool{}
	for k, v := range p.st.facts {
		n, pos := f.norm(f.subst(k, m))
		if _, ok := n.boolean(); ok {
			continue
		}
		facts[n] = v == pos
		if n != k && k.op == "eq" && (k.a[0].op == "pos" || k.a[1].op == "pos") {
			facts[k] = v
		}
	}
	p.st.facts = facts
}

func (z *zindex) generalise(g *general, o, n *fv) *fv {
	f := z.f
	if n.op == "last" && z.isHead(g.os, o) && o.op != "last" {
		return f.mk("last", n.s, nil, n.a[0], n.a[1], g.term(z.level(), n.a[2], func() *fv { return f.mk("phi", fmt.Sprintf("%d", n.id), types.Typ[types.Int]) }))
	}
	if po, ko := posSplit(f, o); po != nil {
		if pn, kn := posSplit(f, n); pn != nil && ko == kn && (ko != 0 || po.op != pn.op) {
			t := g.term(po, pn, func() *fv { return f.mk("phi", fmt.Sprintf("%d/%d", o.id, n.id), nil) })
			return f.sum(token.ADD, z.pos(t), f.num(ko), types.Typ[types.Int])
		}
	}
	return nil
}

// posSplit is the node in pos(node)+k.
func posSplit(f *flow, v *fv) (*fv, int64) {
	if v.op == "pos" {
		return v.a[0], 0
	}
	if v.op != "sum" {
		return nil, 0
	}
	var n *fv
	for i, a := range v.a {
		if a.op == "pos" && strings.Fields(v.s)[i] == "1" && n == nil {
			n = a
		}
	}
	if n == nil {
		return nil, 0
	}
	k, ok := f.sum(token.SUB, v, n, nil).int()
	if !ok {
		return nil, 0
	}
	return n.a[0], k
}

// classify says what each search looks for.
func (z *zindex) classify() {
	var ks []string
	for k := range z.walks {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return z.walks[ks[i]].at < z.walks[ks[j]].at })
	for _, k := range ks {
		w := z.walks[k]
		if z.pass == 3 {
			z.rankWrong(w)
			if len(w.S)+len(w.V) > 0 {
				z.seen["searches"]++
			}
			z.wrong(w)
			continue
		}
		z.rankClass(w)
		_, V, ok := w.target()
		if !ok || !w.advSeen || w.unknown != "" {
			continue
		}
		fits := func(p int) bool { return w.adv&^p == 0 && w.stop&p == 0 }
		switch {
		case V != nil && fits(zA) && fits(zB):
			w.class = "AB"
		case V != nil && fits(zA):
			w.class = "A"
		case V != nil && fits(zB):
			w.class = "B"
		case V == nil && fits(zC):
			w.class = "C"
		case V == nil && fits(zD):
			w.class = "D"
		}
	}
}

func (z *zindex) wrong(w *zwalk) {
	S, V, ok := w.target()
	if len(w.S)+len(w.V) == 0 {
		return
	}
	z.obl()
	what := "the score"
	if V != nil {
		what = "the score and member"
	}
	switch {
	case w.unknown != "":
		z.vague("%s: the search at %s tests something unknown: %s", z.cfg, w.at, w.unknown)
	case len(w.S) == 0 && len(w.V) > 0:
		z.bad("searches follow one order", w.at, "%s searches by member only, but members are ordered by score first", z.cfg)
	case !ok:
		z.vague("%s: the search at %s compares with more than one thing", z.cfg, w.at)
	case w.class == "":
		good, bad := zB, ""
		if V == nil {
			good = zD
		}
		if m := w.adv & w.stop; m != 0 {
			bad = "goes on or stops, depending on something else, at a node with " + z.show(m, V)
		} else if m := w.adv &^ good; m != 0 {
			bad = "goes past a node with " + z.show(m, V)
		} else {
			bad = "stops before a node with " + z.show(w.stop&zA, V)
		}
		z.bad("searches follow one order", w.at, "%s: the search for %s %s %s", z.cfg, what, clean(S), bad)
	}
}

func (z *zindex) show(m int, V *fv) string {
	r := []string{"a smaller", "an equal", "a greater"}
	i := bits.TrailingZeros(uint(m))
	if i >= 9 {
		return "?"
	}
	if V == nil {
		return r[i/3] + " score"
	}
	return r[i/3] + " score and " + r[i%3] + " member"
}

func byID(m map[*fv]*fv) []*fv {
	var r []*fv
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
