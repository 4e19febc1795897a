package main

import (
	"math/big"
	"sort"
	"strings"
)

// Cons is a conjunction of affine equalities (solved form) and linear
// inequalities over integer atoms: the numeric part of the abstract state.
type Cons struct {
	eqs  []eqn
	ineq []*Lin // each <= 0
	bad  bool
}

type eqn struct {
	p *Term
	e *Lin // p == e, e free of every pivot
}

func (c *Cons) clone() *Cons {
	return &Cons{eqs: append([]eqn(nil), c.eqs...), ineq: append([]*Lin(nil), c.ineq...), bad: c.bad}
}

func (c *Cons) subst(l *Lin) *Lin {
	for _, m := range l.t {
		for i := range c.eqs {
			if c.eqs[i].p == m.a {
				l = l.replace(m.a, c.eqs[i].e)
				break
			}
		}
	}
	return l
}

var maxI64 = new(big.Rat).SetInt64(1<<63 - 1)
var minI64 = new(big.Rat).SetInt64(-1 << 63)

// intrinsic bounds of an atom, as inequalities over expression e standing for it.
func intrinsic(a *Term, e *Lin) []*Lin {
	var r []*Lin
	if a.nonneg {
		r = append(r, e.neg())
	}
	if a.i64 {
		r = append(r, e.addScaled(linConst(maxI64), ratMinus))
		r = append(r, linConst(minI64).sub(e))
	}
	if a.lo != nil {
		r = append(r, linConst(a.lo).sub(e))
	}
	if a.hi != nil {
		r = append(r, e.sub(linConst(a.hi)))
	}
	return r
}

func (c *Cons) addEq(l *Lin) {
	if c.bad {
		return
	}
	l = c.subst(l)
	if l.isConst() {
		if l.c.Sign() != 0 {
			c.bad = true
		}
		return
	}
	// integer divisibility
	t := l.tightenEq()
	if t == nil {
		c.bad = true
		return
	}
	l = t
	pi := -1
	for i := len(l.t) - 1; i >= 0; i-- {
		if new(big.Rat).Abs(l.t[i].k).Cmp(ratOne) == 0 {
			pi = i
			break
		}
	}
	if pi < 0 {
		pi = len(l.t) - 1
	}
	p := l.t[pi].a
	k := l.t[pi].k
	// p = -(l - k p)/k
	e := l.replace(p, linInt(0)).scale(new(big.Rat).Neg(new(big.Rat).Inv(k)))
	for i := range c.eqs {
		c.eqs[i].e = c.eqs[i].e.replace(p, e)
	}
	c.eqs = append(c.eqs, eqn{p, e})
	old := c.ineq
	c.ineq = nil
	for _, q := range old {
		c.addLe(q)
	}
	for _, q := range intrinsic(p, e) {
		c.addLe(q)
	}
	if c.bad {
		return
	}
	if c.infeasibleWith(e) {
		c.bad = true
	}
}

// tightenEq scales to coprime integers; nil if no integer solution.
func (l *Lin) tightenEq() *Lin {
	r := (&Lin{c: ratZero, t: l.t}).tighten()
	if len(l.t) == 0 {
		return l
	}
	// find factor
	f := new(big.Rat).Quo(r.t[0].k, l.t[0].k)
	cc := new(big.Rat).Mul(l.c, f)
	if !cc.IsInt() {
		return nil
	}
	return &Lin{c: cc, t: r.t}
}

func linPartKey(l *Lin) string {
	return (&Lin{c: ratZero, t: l.t}).key()
}

func (c *Cons) addLe(l *Lin) {
	if c.bad {
		return
	}
	l = c.subst(l)
	if l.isConst() {
		if l.c.Sign() > 0 {
			c.bad = true
		}
		return
	}
	l = l.tighten()
	k := linPartKey(l)
	nk := linPartKey(l.neg())
	for i, q := range c.ineq {
		qk := linPartKey(q)
		if qk == k {
			if q.c.Cmp(l.c) >= 0 {
				return
			}
			n := append([]*Lin(nil), c.ineq...)
			n[i] = l
			c.ineq = n
			if c.infeasibleWith(l) {
				c.bad = true
			}
			c.checkPair(l)
			return
		}
		if qk == nk {
			s := new(big.Rat).Add(q.c, l.c)
			if s.Sign() > 0 {
				c.bad = true
				return
			}
		}
	}
	c.ineq = append(append([]*Lin(nil), c.ineq...), l)
	if c.infeasibleWith(l) {
		c.bad = true
		return
	}
	c.checkPair(l)
}

// checkPair turns l<=0 and -l<=0 into an equality.
func (c *Cons) checkPair(l *Lin) {
	nk := linPartKey(l.neg())
	for i, q := range c.ineq {
		if linPartKey(q) == nk && new(big.Rat).Add(q.c, l.c).Sign() == 0 {
			n := append([]*Lin(nil), c.ineq[:i]...)
			for _, r := range c.ineq[i+1:] {
				if r != l {
					n = append(n, r)
				}
			}
			c.ineq = n
			c.addEq(l)
			return
		}
	}
	// single atom intrinsic: a<=0 with a nonneg
	if len(l.t) == 1 {
		for _, q := range intrinsic(l.t[0].a, termLin(l.t[0].a)) {
			if linPartKey(q) == nk && new(big.Rat).Add(q.c, l.c).Sign() == 0 {
				c.addEq(l)
				return
			}
		}
	}
}

// component returns the inequalities (with intrinsic bounds) connected to l.
func (c *Cons) component(l *Lin) []*Lin {
	atoms := map[*Term]bool{}
	for _, m := range l.t {
		atoms[m.a] = true
	}
	used := make([]bool, len(c.ineq))
	for ch := true; ch; {
		ch = false
		for i, q := range c.ineq {
			if used[i] {
				continue
			}
			hit := false
			for _, m := range q.t {
				if atoms[m.a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, m := range q.t {
					atoms[m.a] = true
				}
			}
		}
	}
	var r []*Lin
	for i, q := range c.ineq {
		if used[i] {
			r = append(r, q)
		}
	}
	var as []*Term
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		r = append(r, intrinsic(a, termLin(a))...)
	}
	return r
}

func (c *Cons) infeasibleWith(l *Lin) bool {
	return fmInfeasible(c.component(l))
}

var fmCache = map[string]bool{}

// fmInfeasible decides by Fourier-Motzkin elimination (with integer
// tightening) that the inequalities have no integer solution. false means
// "not shown".
func fmInfeasible(in []*Lin) bool {
	ks := make([]string, len(in))
	for i, q := range in {
		ks[i] = q.key()
	}
	sort.Strings(ks)
	key := strings.Join(ks, ";")
	if r, ok := fmCache[key]; ok {
		return r
	}
	r := fmRun(in)
	fmCache[key] = r
	return r
}

func fmRun(in []*Lin) bool {
	cur := map[string]*Lin{}
	add := func(q *Lin) bool {
		q = q.tighten()
		if q.isConst() {
			return q.c.Sign() > 0
		}
		k := linPartKey(q)
		if o, ok := cur[k]; ok && o.c.Cmp(q.c) >= 0 {
			return false
		}
		cur[k] = q
		return false
	}
	for _, q := range in {
		if add(q) {
			return true
		}
	}
	for {
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, q := range cur {
			for _, m := range q.t {
				if m.k.Sign() > 0 {
					pos[m.a]++
				} else {
					neg[m.a]++
				}
			}
		}
		var best *Term
		bc := 0
		for _, mm := range []map[*Term]int{pos, neg} {
			for a := range mm {
				c := pos[a] * neg[a]
				if best == nil || c < bc || (c == bc && a.id < best.id) {
					best, bc = a, c
				}
			}
		}
		if best == nil {
			return false
		}
		if bc > 400 {
			return false
		}
		var P, N []*Lin
		old := cur
		cur = map[string]*Lin{}
		for _, q := range old {
			k := q.coef(best)
			if k == nil {
				if add(q) {
					return true
				}
			} else if k.Sign() > 0 {
				P = append(P, q)
			} else {
				N = append(N, q)
			}
		}
		for _, p := range P {
			for _, n := range N {
				kp, kn := p.coef(best), n.coef(best)
				r := p.scale(new(big.Rat).Neg(kn)).addScaled(n, kp)
				if add(r) {
					return true
				}
			}
		}
		if len(cur) > 1500 {
			return false
		}
	}
}

// entailsLe: does the state imply l <= 0 ?
func (c *Cons) entailsLe(l *Lin) bool {
	if c.bad {
		return true
	}
	l = c.subst(l)
	if l.isConst() {
		return l.c.Sign() <= 0
	}
	n := linInt(1).sub(l.tighten()) // l >= 1
	in := append(c.component(n), n)
	return fmInfeasible(in)
}

func (c *Cons) entailsEq(l *Lin) bool {
	if c.bad {
		return true
	}
	l = c.subst(l)
	if l.isConst() {
		return l.c.Sign() == 0
	}
	return c.entailsLe(l) && c.entailsLe(l.neg())
}

// excludesEq: does the state imply l != 0 ?
func (c *Cons) excludesEq(l *Lin) bool {
	if c.bad {
		return true
	}
	l = c.subst(l)
	if l.isConst() {
		return l.c.Sign() != 0
	}
	if l.tightenEq() == nil {
		return true
	}
	t := l
	in := append(c.component(t), t, t.neg())
	return fmInfeasible(in)
}

// feasible full check over everything (used after bulk operations).
func (c *Cons) feasible() bool {
	if c.bad {
		return false
	}
	return true
}

// project removes every atom for which keep is false. Equalities are
// eliminated exactly; inequalities mentioning a removed atom are eliminated by
// Fourier-Motzkin when cheap, else dropped (a weaker state).
func (c *Cons) project(keep func(*Term) bool) *Cons {
	r := &Cons{bad: c.bad}
	if c.bad {
		return r
	}
	// re-solve with removed atoms as preferred pivots
	rows := make([]*Lin, 0, len(c.eqs))
	for _, q := range c.eqs {
		rows = append(rows, termLin(q.p).sub(q.e))
	}
	ineq := append([]*Lin(nil), c.ineq...)
	// intrinsic bounds of removed atoms that occur in ineqs/eqs matter too
	seen := map[*Term]bool{}
	note := func(l *Lin) {
		for _, m := range l.t {
			if !keep(m.a) && !seen[m.a] {
				seen[m.a] = true
				ineq = append(ineq, intrinsic(m.a, termLin(m.a))...)
			}
		}
	}
	for _, q := range rows {
		note(q)
	}
	for _, q := range append([]*Lin(nil), ineq...) {
		note(q)
	}
	for {
		// find row with a removed atom; prefer unit coefficient
		ri := -1
		var at *Term
		for i, q := range rows {
			for _, m := range q.t {
				if !keep(m.a) {
					if ri < 0 || (m.k.IsInt() && m.k.Num().IsInt64() && (m.k.Num().Int64() == 1 || m.k.Num().Int64() == -1)) {
						ri, at = i, m.a
					}
				}
			}
		}
		if ri < 0 {
			break
		}
		q := rows[ri]
		k := q.coef(at)
		e := q.replace(at, linInt(0)).scale(new(big.Rat).Neg(new(big.Rat).Inv(k)))
		rows = append(rows[:ri:ri], rows[ri+1:]...)
		for i := range rows {
			rows[i] = rows[i].replace(at, e)
		}
		for i := range ineq {
			ineq[i] = ineq[i].replace(at, e)
		}
	}
	for _, q := range rows {
		r.addEq(q)
	}
	// eliminate remaining removed atoms from inequalities
	for {
		cnt := map[*Term][2]int{}
		for _, q := range ineq {
			for _, m := range q.t {
				if !keep(m.a) {
					x := cnt[m.a]
					if m.k.Sign() > 0 {
						x[0]++
					} else {
						x[1]++
					}
					cnt[m.a] = x
				}
			}
		}
		var best *Term
		bc := 0
		for a, x := range cnt {
			v := x[0] * x[1]
			if best == nil || v < bc || (v == bc && a.id < best.id) {
				best, bc = a, v
			}
		}
		if best == nil {
			break
		}
		var P, N, O []*Lin
		for _, q := range ineq {
			k := q.coef(best)
			if k == nil {
				O = append(O, q)
			} else if k.Sign() > 0 {
				P = append(P, q)
			} else {
				N = append(N, q)
			}
		}
		if bc <= 24 {
			for _, p := range P {
				for _, n := range N {
					x := p.scale(new(big.Rat).Neg(n.coef(best))).addScaled(n, p.coef(best)).tighten()
					if !x.isConst() {
						O = append(O, x)
					}
				}
			}
		}
		ineq = O
	}
	for _, q := range ineq {
		// drop what intrinsic bounds already give
		if len(q.t) == 1 {
			red := false
			for _, in := range intrinsic(q.t[0].a, termLin(q.t[0].a)) {
				if linPartKey(in.tighten()) == linPartKey(q.tighten()) && in.tighten().c.Cmp(q.tighten().c) >= 0 {
					red = true
				}
			}
			if red {
				continue
			}
		}
		r.addLe(q)
	}
	return r
}

// affineHull intersects the equality spaces of a and b.
func affineHull(a, b *Cons) []*Lin {
	var rows []*Lin // rows of a then of b
	for _, q := range a.eqs {
		rows = append(rows, termLin(q.p).sub(q.e))
	}
	na := len(rows)
	for _, q := range b.eqs {
		rows = append(rows, termLin(q.p).sub(q.e))
	}
	if na == 0 || len(rows) == na {
		return nil
	}
	// find u with sum_{i<na} u_i row_i = sum_{i>=na} v_i row_i.
	// Gaussian elimination over rows tracking the combination of a-rows.
	type tr struct {
		l *Lin // current combined row (a part minus b part)
		w *Lin // contribution of a-rows
	}
	var ts []tr
	for i, r := range rows {
		if i < na {
			ts = append(ts, tr{r, r})
		} else {
			ts = append(ts, tr{r, linInt(0)})
		}
	}
	zero := func(l *Lin) bool { return len(l.t) == 0 && l.c.Sign() == 0 }
	var res []*Lin
	for len(ts) > 0 {
		// rows with atoms first, constant rows last
		ci := 0
		for i := range ts {
			if len(ts[i].l.t) > 0 {
				ci = i
				break
			}
		}
		cur := ts[ci]
		ts = append(append([]tr(nil), ts[:ci]...), ts[ci+1:]...)
		if zero(cur.l) {
			if !zero(cur.w) {
				res = append(res, cur.w)
			}
			continue
		}
		if len(cur.l.t) == 0 { // constant row: eliminate the constant from others
			for i := range ts {
				if ts[i].l.c.Sign() != 0 && len(ts[i].l.t) == 0 {
					f := new(big.Rat).Neg(new(big.Rat).Quo(ts[i].l.c, cur.l.c))
					ts[i] = tr{ts[i].l.addScaled(cur.l, f), ts[i].w.addScaled(cur.w, f)}
				}
			}
			continue
		}
		p := cur.l.t[0].a
		pk := cur.l.t[0].k
		for i := range ts {
			if k := ts[i].l.coef(p); k != nil {
				f := new(big.Rat).Neg(new(big.Rat).Quo(k, pk))
				ts[i] = tr{ts[i].l.addScaled(cur.l, f), ts[i].w.addScaled(cur.w, f)}
			}
		}
	}
	return res
}
