package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed uninterpreted term. Arguments are terms; an integer
// argument is wrapped as a "lin" term.
type Term struct {
	id   int
	op   string
	s    string
	args []*Term
	lin  *Lin
	key  string
	// attributes fixed at creation
	nonneg bool // integer atom known to be >= 0
	i64    bool // integer atom known to fit in int64
	lo, hi *big.Rat
}

var (
	termTab   = map[string]*Term{}
	termCount = 0
)

func mk(op, s string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(strconv.Quote(s))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, s: s, args: args, key: k}
	termTab[k] = t
	return t
}

func mkLin(l *Lin) *Term {
	if a := l.single(); a != nil {
		return a
	}
	k := "lin|" + l.key()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: "lin", lin: l, key: k}
	termTab[k] = t
	return t
}

var freshCount = 0

// fresh makes a new symbol; name is only for display.
func fresh(op, name string) *Term {
	freshCount++
	return mk(op, fmt.Sprintf("%s#%d", name, freshCount))
}

func (t *Term) String() string {
	switch t.op {
	case "lin":
		return t.lin.String()
	case "str":
		return strconv.Quote(t.s)
	}
	if len(t.args) == 0 {
		if t.s != "" {
			return t.s
		}
		return t.op
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	n := t.op
	if t.s != "" {
		n += ":" + t.s
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// atoms collects every leaf/integer atom the term is built from.
func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, a := range t.args {
		a.walk(f)
	}
	if t.lin != nil {
		for _, m := range t.lin.t {
			m.a.walk(f)
		}
	}
}

// rebuild maps sub-terms bottom-up; f returns nil to keep.
type subst struct {
	m    map[*Term]V // atom -> replacement (VNum or VTerm)
	memo map[*Term]*Term
}

func newSubst() *subst { return &subst{m: map[*Term]V{}, memo: map[*Term]*Term{}} }

func (s *subst) term(t *Term) *Term {
	if r, ok := s.memo[t]; ok {
		return r
	}
	var r *Term
	if v, ok := s.m[t]; ok {
		switch v := v.(type) {
		case VNum:
			r = mkLin(v.l)
		case VTerm:
			r = v.t
		default:
			r = t
		}
	} else if t.op == "lin" {
		r = mkLin(s.linear(t.lin))
	} else if len(t.args) > 0 {
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = s.term(a)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			r = mk(t.op, t.s, na...)
			r.nonneg, r.i64, r.lo, r.hi = t.nonneg, t.i64, t.lo, t.hi
		} else {
			r = t
		}
	} else {
		r = t
	}
	s.memo[t] = r
	return r
}

func (s *subst) linear(l *Lin) *Lin {
	r := linConst(l.c)
	ch := false
	for _, m := range l.t {
		n := s.term(m.a)
		if n != m.a {
			ch = true
		}
		r = r.addScaled(termLin(n), m.k)
	}
	if !ch {
		return l
	}
	return r
}

// ---------- linear expressions ----------

type mono struct {
	a *Term
	k *big.Rat
}

type Lin struct {
	c  *big.Rat
	t  []mono // sorted by atom id, no zero coefficients
	ky string
}

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)
var ratMinus = big.NewRat(-1, 1)

func linConst(c *big.Rat) *Lin { return &Lin{c: c} }
func linInt(i int64) *Lin      { return &Lin{c: big.NewRat(i, 1)} }
func linAtom(a *Term) *Lin {
	return termLin(a)
}

// termLin views an integer-valued term as a linear expression.
func termLin(a *Term) *Lin {
	if a.op == "lin" {
		return a.lin
	}
	return &Lin{c: ratZero, t: []mono{{a, ratOne}}}
}

func (l *Lin) single() *Term {
	if l.c.Sign() == 0 && len(l.t) == 1 && l.t[0].k.Cmp(ratOne) == 0 {
		return l.t[0].a
	}
	return nil
}

func (l *Lin) isConst() bool { return len(l.t) == 0 }

func (l *Lin) int64() (int64, bool) {
	if len(l.t) == 0 && l.c.IsInt() && l.c.Num().IsInt64() {
		return l.c.Num().Int64(), true
	}
	return 0, false
}

func (l *Lin) key() string {
	if l.ky == "" {
		var sb strings.Builder
		for _, m := range l.t {
			sb.WriteString(m.k.RatString())
			sb.WriteByte('*')
			sb.WriteString(strconv.Itoa(m.a.id))
			sb.WriteByte('+')
		}
		sb.WriteString(l.c.RatString())
		l.ky = sb.String()
	}
	return l.ky
}

func (l *Lin) String() string {
	var sb strings.Builder
	for i, m := range l.t {
		k := m.k
		switch {
		case k.Cmp(ratOne) == 0:
			if i > 0 {
				sb.WriteString("+")
			}
		case k.Cmp(ratMinus) == 0:
			sb.WriteString("-")
		default:
			if i > 0 && k.Sign() > 0 {
				sb.WriteString("+")
			}
			sb.WriteString(k.RatString() + "*")
		}
		sb.WriteString(m.a.String())
	}
	if len(l.t) == 0 {
		return l.c.RatString()
	}
	if l.c.Sign() > 0 {
		sb.WriteString("+" + l.c.RatString())
	} else if l.c.Sign() < 0 {
		sb.WriteString(l.c.RatString())
	}
	return sb.String()
}

func (l *Lin) addScaled(o *Lin, k *big.Rat) *Lin {
	if k.Sign() == 0 || (len(o.t) == 0 && o.c.Sign() == 0) {
		return l
	}
	r := &Lin{c: new(big.Rat).Add(l.c, new(big.Rat).Mul(o.c, k))}
	i, j := 0, 0
	for i < len(l.t) || j < len(o.t) {
		switch {
		case j >= len(o.t) || (i < len(l.t) && l.t[i].a.id < o.t[j].a.id):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || l.t[i].a.id > o.t[j].a.id:
			r.t = append(r.t, mono{o.t[j].a, new(big.Rat).Mul(o.t[j].k, k)})
			j++
		default:
			s := new(big.Rat).Add(l.t[i].k, new(big.Rat).Mul(o.t[j].k, k))
			if s.Sign() != 0 {
				r.t = append(r.t, mono{l.t[i].a, s})
			}
			i++
			j++
		}
	}
	return r
}

func (l *Lin) add(o *Lin) *Lin { return l.addScaled(o, ratOne) }
func (l *Lin) sub(o *Lin) *Lin { return l.addScaled(o, ratMinus) }
func (l *Lin) addInt(i int64) *Lin {
	return l.addScaled(linInt(i), ratOne)
}
func (l *Lin) scale(k *big.Rat) *Lin { return linInt(0).addScaled(l, k) }
func (l *Lin) neg() *Lin             { return l.scale(ratMinus) }

func (l *Lin) coef(a *Term) *big.Rat {
	i := sort.Search(len(l.t), func(i int) bool { return l.t[i].a.id >= a.id })
	if i < len(l.t) && l.t[i].a == a {
		return l.t[i].k
	}
	return nil
}

// replace substitutes atom a by e.
func (l *Lin) replace(a *Term, e *Lin) *Lin {
	k := l.coef(a)
	if k == nil {
		return l
	}
	r := l.addScaled(termLin(a), new(big.Rat).Neg(k))
	return r.addScaled(e, k)
}

// tighten scales to coprime integer coefficients and floors the constant
// (for a constraint l <= 0 over integers).
func (l *Lin) tighten() *Lin {
	if len(l.t) == 0 {
		return l
	}
	den := big.NewInt(1)
	for _, m := range l.t {
		g := new(big.Int).GCD(nil, nil, den, m.k.Denom())
		den = new(big.Int).Mul(den, new(big.Int).Quo(m.k.Denom(), g))
	}
	num := new(big.Int)
	for _, m := range l.t {
		v := new(big.Int).Mul(m.k.Num(), new(big.Int).Quo(den, m.k.Denom()))
		num.GCD(nil, nil, num, new(big.Int).Abs(v))
	}
	f := new(big.Rat).SetFrac(den, num)
	if f.Cmp(ratOne) == 0 && l.c.IsInt() {
		return l
	}
	r := l.scale(f)
	if !r.c.IsInt() {
		// c + sum <= 0 with integer sum: sum <= floor(-c)  => c' = -floor(-c) = ceil(c)
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(r.c.Num(), r.c.Denom(), m)
		if m.Sign() != 0 {
			q.Add(q, big.NewInt(1))
		}
		r = &Lin{c: new(big.Rat).SetInt(q), t: r.t}
	}
	return r
}

// ---------- values ----------

type V interface{}

type ObjID int

type VNum struct{ l *Lin }
type VBool struct{ b *B }
type VTerm struct{ t *Term } // strings, floats and other opaque scalars
type VPtr struct {           // o == 0: nil
	o    ObjID
	path string
	idx  *Lin
}
type VIface struct { // t == nil: nil interface
	t types.Type
	v V
}
type VIfaceSym struct{ t *Term } // interface of unknown dynamic type
type VErr struct{ t *Term }      // error value; nil-ness is a fact unless the term is a known non-nil error
type VSlice struct {             // o == 0: nil slice
	o        ObjID
	off, len *Lin
}
type VMap struct{ o ObjID } // smap.Map or builtin map; o == 0: nil map
type VShard struct {
	o   ObjID
	idx *Term
}
type VMapView struct {
	o   ObjID
	idx *Term
}
type VFunc struct { // fn == nil: nil func
	fn *types.Signature
	f  interface{} // *ssa.Function or *ssa.Builtin
	b  []V
}
type VTuple struct{ e []V }
type VIter struct{ o ObjID }
type VStruct struct{ f map[string]V }
type VSum struct { // a pointer to an object made in a loop, described by its contents
	typ  types.Type
	site string
	pos  token.Pos
	f    map[string]V
}
type VAny struct{ why string } // unknown value of a kind the analysis does not track

// B is a boolean value: a constant, a linear comparison or an uninterpreted atom.
type B struct {
	k   byte // 'c' const, 'l' lin<=0, 'e' lin==0, 'a' atom
	c   bool
	l   *Lin
	t   *Term
	neg bool // for 'e' and 'a'
}

var bTrue = &B{k: 'c', c: true}
var bFalse = &B{k: 'c', c: false}

func bConst(c bool) *B {
	if c {
		return bTrue
	}
	return bFalse
}

func bLe(l *Lin) *B { // l <= 0
	if l.isConst() {
		return bConst(l.c.Sign() <= 0)
	}
	return &B{k: 'l', l: l.tighten()}
}
func bEq(l *Lin) *B {
	if l.isConst() {
		return bConst(l.c.Sign() == 0)
	}
	return &B{k: 'e', l: l}
}
func bAtom(t *Term) *B { return &B{k: 'a', t: t} }

func (b *B) not() *B {
	switch b.k {
	case 'c':
		return bConst(!b.c)
	case 'l': // !(l<=0) = l>=1 = 1-l<=0
		return bLe(linInt(1).sub(b.l))
	default:
		n := *b
		n.neg = !n.neg
		return &n
	}
}

func (b *B) String() string {
	n := ""
	if b.neg {
		n = "!"
	}
	switch b.k {
	case 'c':
		return fmt.Sprint(b.c)
	case 'l':
		return b.l.String() + "<=0"
	case 'e':
		return n + "(" + b.l.String() + "==0)"
	}
	return n + b.t.String()
}

func strTerm(s string) *Term { return mk("str", s) }
func (t *Term) isStr() bool  { return t.op == "str" }

func symStr(name string) *Term { return fresh("ssym", name) }
func symFlt(name string) *Term { return fresh("fsym", name) }
func symInt(name string) *Term { return fresh("isym", name) }

func symNat(name string) *Term {
	t := fresh("isym", name)
	t.nonneg = true
	return t
}

// strLen gives the byte length of a string term.
func strLen(t *Term) *Lin {
	switch t.op {
	case "str":
		return linInt(int64(len(t.s)))
	case "concat":
		r := linInt(0)
		for _, a := range t.args {
			r = r.add(strLen(a))
		}
		return r
	case "sub": // substring of an object/str: args: base, off, len
		return termLin(t.args[2])
	}
	a := mk("len", "", t)
	a.nonneg = true
	return termLin(a)
}

func concat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		parts := []*Term{t}
		if t.op == "concat" {
			parts = t.args
		}
		for _, p := range parts {
			if p.isStr() && p.s == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].isStr() && p.isStr() {
				out[n-1] = strTerm(out[n-1].s + p.s)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return strTerm("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("concat", "", out...)
}
