package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func inv(k *big.Rat) *big.Rat { return new(big.Rat).Inv(k) }

type pairSym struct {
	p      *Term
	la, lb *Lin
	ta, tb *Term
}

// auCtx finds the least general value two values are instances of.
type auCtx struct {
	A, B  *State
	pairs map[string]*pairSym
	list  []*pairSym
	deep  bool // look inside integer terms of the same shape
}

func newAu(a, b *State) *auCtx { return &auCtx{A: a, B: b, pairs: map[string]*pairSym{}} }

func (x *auCtx) lin(a, b *Lin) *Lin {
	na, nb := x.A.cons.subst(a), x.B.cons.subst(b)
	if a.key() == b.key() {
		return a
	}
	if na.key() == nb.key() {
		return na
	}
	if x.A.cons.entailsEq(na.sub(nb)) {
		return nb
	}
	if x.B.cons.entailsEq(na.sub(nb)) {
		return na
	}
	if p, q := na.single(), nb.single(); x.deep && p != nil && q != nil && p.op == q.op && p.s == q.s && len(p.args) == 1 && len(q.args) == 1 {
		r := mk(p.op, p.s, x.term(p.args[0], q.args[0]))
		r.nonneg, r.i64, r.lo, r.hi = p.nonneg, p.i64, p.lo, p.hi
		return termLin(r)
	}
	k := "l" + na.key() + "/" + nb.key()
	if p, ok := x.pairs[k]; ok {
		return termLin(p.p)
	}
	p := fresh("isym", "h")
	if x.A.cons.entailsLe(na.neg()) && x.B.cons.entailsLe(nb.neg()) {
		p.nonneg = true
	}
	in := func(s *State, l *Lin) bool {
		return s.cons.entailsLe(l.sub(linConst(maxI64))) && s.cons.entailsLe(linConst(minI64).sub(l))
	}
	if in(x.A, na) && in(x.B, nb) {
		p.i64 = true
	}
	ps := &pairSym{p: p, la: na, lb: nb}
	x.pairs[k] = ps
	x.list = append(x.list, ps)
	return termLin(p)
}

func (x *auCtx) term(a, b *Term) *Term {
	if isIntTerm(a) && isIntTerm(b) {
		return mkLin(x.lin(termLin(a), termLin(b)))
	}
	if a == b {
		return a
	}
	na, nb := x.A.normTerm(a), x.B.normTerm(b)
	if na == nb {
		return na
	}
	if na.op == nb.op && na.s == nb.s && len(na.args) == len(nb.args) && len(na.args) > 0 && na.op != "concat" {
		as := make([]*Term, len(na.args))
		for i := range na.args {
			if isIntTerm(na.args[i]) != isIntTerm(nb.args[i]) {
				return x.pair(na, nb)
			}
			as[i] = x.term(na.args[i], nb.args[i])
		}
		r := mk(na.op, na.s, as...)
		r.nonneg, r.i64, r.lo, r.hi = na.nonneg, na.i64, na.lo, na.hi
		return r
	}
	return x.pair(na, nb)
}

func (x *auCtx) pair(na, nb *Term) *Term {
	k := fmt.Sprintf("t%d/%d", na.id, nb.id)
	if p, ok := x.pairs[k]; ok {
		return p.p
	}
	op := "osym"
	switch {
	case isStrTerm(na) || isStrTerm(nb):
		op = "ssym"
	case na.op == "errsym" || nb.op == "errsym" || na.op == "errnew":
		op = "errsym"
	case na.op == "iface" || nb.op == "iface":
		op = "iface"
	case strings.HasPrefix(na.op, "f") || strings.HasPrefix(nb.op, "f") || na.op == "score" || nb.op == "score":
		op = "fsym"
	}
	if na.op == "errnew" && nb.op == "errnew" {
		return na
	}
	p := fresh(op, "h")
	ps := &pairSym{p: p, ta: na, tb: nb}
	x.pairs[k] = ps
	x.list = append(x.list, ps)
	return p
}

// val generalises two values of the same shape; ok is false if the shapes differ.
func (x *auCtx) val(a, b V) (V, bool) {
	switch p := a.(type) {
	case VNum:
		if q, ok := b.(VNum); ok {
			return VNum{x.lin(p.l, q.l)}, true
		}
	case VTerm:
		if q, ok := b.(VTerm); ok {
			return VTerm{x.term(p.t, q.t)}, true
		}
	case VErr:
		if q, ok := b.(VErr); ok {
			return VErr{x.term(p.t, q.t)}, true
		}
	case VIfaceSym:
		if q, ok := b.(VIfaceSym); ok {
			return VIfaceSym{x.term(p.t, q.t)}, true
		}
	case VBool:
		if q, ok := b.(VBool); ok {
			if p.b.String() == q.b.String() {
				return p, true
			}
			return VBool{bAtom(fresh("bsym", "h"))}, true
		}
	case VIface:
		if q, ok := b.(VIface); ok {
			if p.t == nil || q.t == nil {
				return p, p.t == nil && q.t == nil
			}
			if !types.Identical(p.t, q.t) {
				return nil, false
			}
			v, ok := x.val(p.v, q.v)
			return VIface{p.t, v}, ok
		}
	case VStruct:
		if q, ok := b.(VStruct); ok && len(p.f) == len(q.f) {
			f := map[string]V{}
			for _, k := range sortedKeys(p.f) {
				w, ok := q.f[k]
				if !ok {
					return nil, false
				}
				if f[k], ok = x.val(p.f[k], w); !ok {
					return nil, false
				}
			}
			return VStruct{f}, true
		}
	case VSum:
		if q, ok := b.(VSum); ok && len(p.f) == len(q.f) && typStr(p.typ) == typStr(q.typ) {
			f := map[string]V{}
			for _, k := range sortedKeys(p.f) {
				w, ok := q.f[k]
				if !ok {
					return nil, false
				}
				if f[k], ok = x.val(p.f[k], w); !ok {
					return nil, false
				}
			}
			p.f = f
			return p, true
		}
	case VAny:
		return p, true
	}
	if showV(a) == showV(b) {
		return a, true
	}
	return nil, false
}

// constraints of both sides extended by the definitions of the pair symbols.
func (x *auCtx) cons(keep func(*Term) bool) (ca, cb *Cons) {
	ca, cb = x.A.cons.clone(), x.B.cons.clone()
	for _, p := range x.list {
		if p.la != nil {
			ca.addEq(termLin(p.p).sub(p.la))
			cb.addEq(termLin(p.p).sub(p.lb))
		} else if p.p.op == "ssym" {
			ln := strLen(p.p)
			ca.addEq(ln.sub(strLen(p.ta)))
			cb.addEq(ln.sub(strLen(p.tb)))
		}
	}
	return ca.project(keep), cb.project(keep)
}

func symsKept(syms map[*Term]bool, stable map[*Term]bool) func(*Term) bool {
	memo := map[*Term]bool{}
	return func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := true
		t.walk(func(x *Term) {
			if isSym(x) && !syms[x] && !stable[x] {
				r = false
			}
		})
		memo[t] = r
		return r
	}
}

func (lr *loopRun) join(A, B *State, widen bool) *State {
	e := lr.e
	va, vb := lr.visit(A), lr.visit(B)
	x := newAu(A, B)
	rep := make([]slot, len(va.slots))
	for i := range va.slots {
		a, b := va.slots[i], vb.slots[i]
		switch a.k {
		case 'l':
			rep[i] = slot{k: 'l', l: x.lin(a.l, b.l)}
		case 't':
			rep[i] = slot{k: 't', t: x.term(a.t, b.t)}
		case 'b':
			r := a.b
			if a.b.String() != b.b.String() {
				r = bAtom(fresh("bsym", "h"))
			}
			rep[i] = slot{k: 'b', b: r}
		}
	}
	// contents of slices
	type content struct {
		ex   map[int64]V
		pend []pendEl
		tmpl []tmplEl
	}
	conts := map[ObjID]content{}
	for i := range va.slices {
		oa, ob := A.obj(va.slices[i]), B.obj(vb.slices[i])
		if oa.args || oa.srcT != nil || sameContent(oa, ob) {
			continue
		}
		ex, tm := lr.joinContent(A, B, oa, ob)
		conts[oa.id] = content{ex: ex, tmpl: tm}
	}
	J := A.clone()
	for id, c := range conts {
		o := J.mut(id)
		o.ex, o.pend, o.tmpl = c.ex, nil, c.tmpl
	}
	for i := range va.maps {
		oa, ob := A.obj(va.maps[i]), B.obj(vb.maps[i])
		for _, r := range ob.rest {
			o := J.mut(oa.id)
			o.rest = addRest(o.rest, r)
		}
		for _, r := range ob.rewRest {
			o := J.mut(oa.id)
			o.rewRest = addRest(o.rewRest, r)
		}
		if ob.dirty && !oa.dirty {
			J.mut(oa.id).dirty = true
		}
	}
	for _, pr := range objPairs(va, vb) {
		oa, ob := A.obj(pr[0]), B.obj(pr[1])
		if oa == nil || ob == nil {
			continue
		}
		if ob.dirty && !oa.dirty {
			J.mut(oa.id).dirty = true
		}
		if oa.epoch != ob.epoch {
			o := J.mut(oa.id)
			if p := o.peer; p != 0 && J.obj(p) != nil && J.obj(p).epoch != oa.epoch && strings.HasPrefix(J.obj(p).epoch, "j") {
				o.epoch = J.obj(p).epoch
			} else {
				o.epoch = "j" + lr.e.newEpoch()
			}
		}
	}
	rv := &visitor{lr: lr, st: J, repl: true, rep: rep}
	rv.run()
	// symbols that mean something in the joined state
	syms := map[*Term]bool{}
	for _, r := range rep {
		switch r.k {
		case 'l':
			linSyms(r.l, syms)
		case 't':
			termSyms(r.t, syms)
		case 'b':
			valSyms(VBool{r.b}, syms)
		}
	}
	for _, id := range va.slices {
		objSyms(J.obj(id), syms)
	}
	keep := symsKept(syms, lr.stable)
	ca, cb := x.cons(keep)
	J.cons = joinCons(ca, cb, widen)
	for _, l := range lr.always {
		J.cons.addLe(l)
	}
	for i := range va.maps {
		// a map has at least as many entries as are known to be in it
		if o := J.obj(va.maps[i]); o != nil && o.card != nil {
			J.cons.addLe(linInt(presentCount(o)).sub(o.card))
		}
	}
	for _, t := range lr.tests() {
		a, oka := lr.testVal(A, t)
		b, okb := lr.testVal(B, t)
		j, okj := lr.testVal(J, t)
		if !oka || !okb || !okj {
			continue
		}
		for _, sgn := range []int64{1, -1} {
			r := big.NewRat(sgn, 1)
			a, b, j := a.scale(r), b.scale(r), j.scale(r)
			for _, k := range []int64{0, -1} {
				if A.cons.entailsLe(a.addInt(k)) && B.cons.entailsLe(b.addInt(k)) {
					J.cons.addLe(j.addInt(k))
					break
				}
			}
		}
	}
	// facts
	sA, sB := newSubst(), newSubst()
	for _, p := range x.list {
		if p.la != nil {
			sA.m[mkLin(p.la)] = VNum{termLin(p.p)}
			sB.m[p.p] = VNum{p.lb}
		} else {
			sA.m[p.ta] = VTerm{p.p}
			sB.m[p.p] = VTerm{p.tb}
		}
	}
	J.facts = map[*Term]bool{}
	for t, v := range A.facts {
		cands := []*Term{t}
		if r := sA.term(t); r != t {
			cands = append(cands, r)
		}
		for _, c := range cands {
			if !keep(c) {
				continue
			}
			if w, known := B.fact(sB.term(c)); known && w == v {
				J.facts[c] = v
			}
		}
	}
	for _, f := range B.effects {
		dup := false
		for _, g := range J.effects {
			if f.what == g.what && f.pos == g.pos && f.ks == g.ks {
				dup = true
			}
		}
		if !dup {
			J.effects = append(J.effects, f)
		}
	}
	for _, w := range B.wraps {
		dup := false
		for _, g := range J.wraps {
			dup = dup || g == w
		}
		if !dup {
			J.wraps = append(J.wraps, w)
		}
	}
	_ = e
	return J
}

func joinCons(ca, cb *Cons, widen bool) *Cons {
	j := &Cons{}
	for _, l := range affineHull(ca, cb) {
		j.addEq(l)
	}
	try := func(l *Lin, o *Cons) {
		if len(l.t) == 0 || len(j.ineq) > 60 {
			return
		}
		if j.entailsLe(l) {
			return
		}
		if o.entailsLe(l) {
			j.addLe(l)
		}
	}
	cand := func(c, o *Cons) {
		for _, q := range c.ineq {
			try(q, o)
		}
		for _, q := range c.eqs {
			l := termLin(q.p).sub(q.e)
			try(l, o)
			try(l.neg(), o)
		}
	}
	cand(ca, cb)
	if !widen {
		cand(cb, ca)
	}
	return j
}

// joinContent merges what is known about the elements of a slice.
func (lr *loopRun) joinContent(A, B *State, oa, ob *Obj) (map[int64]V, []tmplEl) {
	ex := map[int64]V{}
	if len(oa.pend) == 0 && len(ob.pend) == 0 {
		for k, v := range oa.ex {
			if w, ok := ob.ex[k]; ok && showV(v) == showV(w) {
				ex[k] = v
			}
		}
	}
	type sp struct {
		st *State
		p  point
		n  *Lin
	}
	groups := map[string][]sp{}
	var order []string
	add := func(st *State, p point, n *Lin) {
		if p.idx != nil {
			if k, ok := p.idx.int64(); ok {
				if _, ok := ex[k]; ok {
					return
				}
			}
		}
		g := showV(generic(p.v))
		for _, q := range groups[g] {
			same := (q.p.idx == nil && p.idx == nil) || (q.p.idx != nil && p.idx != nil && q.p.idx.key() == p.idx.key())
			if same && showV(q.p.v) == showV(p.v) {
				return
			}
		}
		if groups[g] == nil {
			order = append(order, g)
		}
		groups[g] = append(groups[g], sp{st, p, n})
	}
	for _, p := range lr.points(A, oa) {
		add(A, p, p.end)
	}
	for _, p := range lr.points(B, ob) {
		add(B, p, p.end)
	}
	var out []tmplEl
	for _, g := range order {
		ps := groups[g]
		if len(ps) == 1 && (ps[0].p.idx == nil || ps[0].p.idx.isConst()) {
			t := tmplEl{v: ps[0].p.v}
			if ps[0].p.idx != nil {
				k, _ := ps[0].p.idx.int64()
				t.at = &k
			}
			if lr.onlyStable(ps[0].p.v) {
				out = addTmpl(out, t)
				continue
			}
		}
		mkPt := func(s sp) (*State, V) {
			t := s.st.clone()
			if s.p.idx != nil {
				t.cons.addEq(termLin(jVar).sub(s.p.idx))
				if s.n != nil {
					t.cons.addLe(termLin(jVar).addInt(1).sub(s.n))
				}
			} else if s.n != nil {
				t.cons.addLe(termLin(jVar).neg())
				t.cons.addLe(termLin(jVar).addInt(1).sub(s.n))
			}
			return t, s.p.v
		}
		cur, v := mkPt(ps[0])
		syms := map[*Term]bool{}
		for _, q := range ps[1:] {
			o, w := mkPt(q)
			if o.cons.bad {
				continue
			}
			if cur.cons.bad {
				cur, v = o, w
				continue
			}
			x := newAu(cur, o)
			x.deep = true
			nv, ok := x.val(v, w)
			if !ok {
				nv = VAny{"mixed elements"}
			}
			syms = map[*Term]bool{}
			valSyms(nv, syms)
			ca, cb := x.cons(symsKept(syms, lr.stable))
			n := newState()
			n.cons = joinCons(ca, cb, true)
			cur, v = n, nv
		}
		valSyms(v, syms)
		out = addTmpl(out, tmplEl{v: lr.resolve(cur, v, syms)})
	}
	return ex, out
}

func (lr *loopRun) onlyStable(v V) bool {
	m := map[*Term]bool{}
	valSyms(v, m)
	for t := range m {
		if !lr.stable[t] {
			return false
		}
	}
	return true
}

// resolve expresses the symbols of v by the index and symbols known before the loop;
// the others become existential.
func (lr *loopRun) resolve(st *State, v V, syms map[*Term]bool) V {
	sb := newSubst()
	n := 0
	var list []*Term
	for t := range syms {
		if !lr.stable[t] {
			list = append(list, t)
		}
	}
	for i := range list {
		for j := i + 1; j < len(list); j++ {
			if list[j].id < list[i].id {
				list[i], list[j] = list[j], list[i]
			}
		}
	}
	for _, t := range list {
		if t.op == "isym" {
			one := map[*Term]bool{t: true}
			c := st.cons.project(symsKept(one, lr.stable))
			done := false
			for _, q := range c.eqs {
				l := termLin(q.p).sub(q.e)
				k := l.coef(t)
				if k == nil {
					continue
				}
				ex := l.replace(t, linInt(0)).scale(new(big.Rat).Neg(inv(k)))
				sb.m[t] = VNum{ex}
				done = true
				break
			}
			if done {
				continue
			}
			n++
			x := mk("isym", fmt.Sprintf("$e%d", n))
			if t.nonneg {
				x = mk("isym", fmt.Sprintf("$en%d", n))
				x.nonneg = true
			}
			sb.m[t] = VNum{termLin(x)}
			continue
		}
		n++
		sb.m[t] = VTerm{mk(t.op, fmt.Sprintf("$e%d", n))}
	}
	return subV(v, sb)
}

func objPairs(va, vb *visitor) [][2]ObjID {
	inv := map[int]ObjID{}
	for ob, n := range vb.num {
		inv[n] = ob
	}
	var r [][2]ObjID
	for oa, n := range va.num {
		if ob, ok := inv[n]; ok {
			r = append(r, [2]ObjID{oa, ob})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] })
	return r
}

// tests are the pairs of integers compared inside the loop;
// their difference keeping its sign is often the invariant that matters.
func (lr *loopRun) tests() [][2]ssa.Value {
	if lr.testsDone {
		return lr.testPairs
	}
	lr.testsDone = true
	fn := lr.lp.header.Parent()
	atHeader := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return true
		case ssa.Instruction:
			if x.Parent() != fn {
				return false
			}
			if !lr.lp.in[x.Block()] {
				return true
			}
			_, phi := v.(*ssa.Phi)
			return phi && x.Block() == lr.lp.header
		}
		return false
	}
	for _, b := range fn.Blocks {
		if !lr.lp.in[b] {
			continue
		}
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok || !isBasic(op.X.Type(), types.IsInteger) {
				continue
			}
			switch op.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				continue
			}
			if (atHeader(op.X) || plusConst(op.X) != nil && atHeader(plusConst(op.X).X)) && atHeader(op.Y) {
				lr.testPairs = append(lr.testPairs, [2]ssa.Value{op.X, op.Y})
			}
		}
	}
	return lr.testPairs
}

func (lr *loopRun) testVal(st *State, t [2]ssa.Value) (*Lin, bool) {
	add := int64(0)
	if p := plusConst(t[0]); p != nil && lr.lp.in[p.Block()] {
		c := p.Y.(*ssa.Const).Int64()
		if p.Op == token.SUB {
			c = -c
		}
		add, t[0] = c, p.X
	}
	x, ok1 := lr.e.val(st, t[0]).(VNum)
	y, ok2 := lr.e.val(st, t[1]).(VNum)
	if !ok1 || !ok2 {
		return nil, false
	}
	return x.l.addInt(add).sub(y.l), true
}

// tmplEnd is the end of the part of a slice its templates describe: single
// elements known at the end are excepted.
func tmplEnd(st *State, o *Obj) *Lin {
	if o.n == nil {
		return nil
	}
	end := o.n
	for again := true; again; {
		again = false
		for _, p := range o.pend {
			if st.cons.entailsEq(end.addInt(-1).sub(p.idx)) {
				end, again = end.addInt(-1), true
				break
			}
		}
		for k := range o.ex {
			if st.cons.entailsEq(end.addInt(-1 - k)) {
				end, again = end.addInt(-1), true
				break
			}
		}
	}
	return end
}

// plusConst: v adds a constant to something.
func plusConst(v ssa.Value) *ssa.BinOp {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return nil
	}
	if c, ok := b.Y.(*ssa.Const); !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return nil
	}
	return b
}
