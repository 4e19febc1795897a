package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Linear reasoning about lengths, counts and offsets of the path-sensitive interpreter: the facts of
// a path as linear inequalities over opaque terms.

// intTerm strips conversions that keep every value.
func intTerm(v *fv) *fv {
	for v != nil && v.op == "conv" && (v.s == "int" || v.s == "int64") {
		v = v.a[0]
	}
	return v
}

func (f *flow) lin(v *fv, atoms map[*fv]*Term) *Lin {
	v = intTerm(v)
	if k, ok := v.int(); ok {
		return linInt(k)
	}
	if v.op == "sum" {
		r := linInt(0)
		cs := strings.Fields(v.s)
		for i, a := range v.a {
			var c int64
			fmt.Sscan(cs[i], &c)
			r = r.addScaled(f.lin(a, atoms), big.NewRat(c, 1))
		}
		return r
	}
	t := mk("fvn", fmt.Sprint(v.id))
	atoms[v] = t
	return termLin(t)
}

func intLike(v *fv) bool {
	switch v.op {
	case "len", "cap", "sum", "atoi", "atoibad":
		return true
	}
	if _, ok := v.int(); ok {
		return true
	}
	return v.t != nil && isBasic(v.t, types.IsInteger)
}

// linearFacts turns what the path knows into linear constraints.
func (f *flow) linearFacts(st *fst, more ...*fv) (*Cons, map[*fv]*Term) {
	atoms := map[*fv]*Term{}
	c := &Cons{}
	le := func(x, y *fv, k int64) { // x <= y + k
		c.addLe(f.lin(x, atoms).addScaled(f.lin(y, atoms), ratMinus).addScaled(linInt(k), ratMinus))
	}
	eq := func(x, y *fv) {
		c.addEq(f.lin(x, atoms).addScaled(f.lin(y, atoms), ratMinus))
	}
	for k, b := range st.facts {
		switch {
		case k.op == "lt":
			x, y := k.a[0], k.a[1]
			// an unsigned comparison with a constant bounds both sides
			if x.op == "conv" && x.s == "uint" || x.op == "conv" && x.s == "uint64" {
				if n, ok := y.int(); ok && b && n >= 0 {
					le(f.num(0), x.a[0], 0)
					le(x.a[0], y, -1)
				}
				continue
			}
			if y.op == "conv" && y.s == "uint" || y.op == "conv" && y.s == "uint64" {
				if n, ok := x.int(); ok && !b && n >= 0 {
					le(f.num(0), y.a[0], 0)
					le(y.a[0], x, 0)
				}
				continue
			}
			if b {
				le(x, y, -1)
			} else {
				le(y, x, 0)
			}
		case k.op == "eq" && b && (intLike(k.a[0]) || intLike(k.a[1])):
			eq(k.a[0], k.a[1])
		case k.op == "app" && b && (k.s == "bytes.HasSuffix" || k.s == "strings.HasSuffix" || k.s == "bytes.HasPrefix" || k.s == "strings.HasPrefix") && len(k.a) == 2:
			le(f.length(st, k.a[1]), f.length(st, k.a[0]), 0)
		case k.op == "app" && b && k.s == "bytes.Equal" && len(k.a) == 2:
			eq(f.length(st, k.a[0]), f.length(st, k.a[1]))
		case k.op == "eq" && b && (k.a[0].op == "conv" || k.a[1].op == "conv"):
			// equal texts have equal lengths
			x, y := k.a[0], k.a[1]
			if x.op == "conv" && (x.s == "string" || x.s == "[]byte") || y.op == "conv" && (y.s == "string" || y.s == "[]byte") {
				eq(f.length(st, x), f.length(st, y))
			}
		}
	}
	for _, v := range more {
		if v != nil {
			f.lin(v, atoms)
		}
	}
	// what the terms themselves say, until nothing is added
	done := map[*fv]bool{}
	for again := true; again; {
		again = false
		for v := range atoms {
			if done[v] {
				continue
			}
			done[v], again = true, true
			switch {
			case v.op == "len":
				le(f.num(0), v, 0)
			case v.op == "cap":
				le(f.num(0), v, 0)
				le(f.length(st, v.a[0]), v, 0)
			case v.op == "app" && v.s == "min":
				for _, a := range v.a {
					le(v, a, 0)
				}
			case v.op == "app" && v.s == "max":
				for _, a := range v.a {
					le(a, v, 0)
				}
			case v.t != nil && isBasic(v.t, types.IsUnsigned):
				le(f.num(0), v, 0)
			}
			break
		}
	}
	// a length that is known not to be one of its lowest values is above them
	for v := range atoms {
		for i := int64(0); i < 4; i++ {
			b, has := st.facts[f.cmp(token.EQL, v, f.num(i))]
			if !has || b {
				continue
			}
			if c.entailsLe(linInt(i).addScaled(f.lin(v, atoms), ratMinus)) {
				le(f.num(i+1), v, 0)
			}
		}
	}
	return c, atoms
}

// entails: the facts of the path imply x <= y + k.
func (f *flow) entails(st *fst, x, y *fv, k int64) bool {
	d := f.sum(token.SUB, intTerm(x), intTerm(y), nil)
	if n, ok := d.int(); ok {
		return n <= k
	}
	c, atoms := f.linearFacts(st, x, y)
	return c.entailsLe(f.lin(x, atoms).addScaled(f.lin(y, atoms), ratMinus).addScaled(linInt(k), ratMinus))
}

// inside checks 0 <= lo <= hi <= n in linear mode and goes on with the case that it holds.
func (f *flow) inside(st *fst, in ssa.Instruction, what string, steps ...*fv) {
	for i := 0; i+1 < len(steps); i++ {
		x, y := steps[i], steps[i+1]
		ok := f.entails(st, x, y, 0)
		if f.onBound != nil {
			why := ""
			if !ok {
				why = fmt.Sprintf("%s: %s <= %s is not known", what, clean(x), clean(y))
			}
			f.onBound(st, in, ok, why, x, y)
		}
		if !ok {
			f.assume(st, f.cmp(token.LSS, y, x), false)
		}
	}
}

// cutSlice is b[lo:hi], with slices of slices and of converted texts brought into one form.
func (f *flow) cutSlice(b, lo, hi *fv, t types.Type) *fv {
	if b.op == "conv" && (b.s == "string" || b.s == "[]byte") && b.a[0].op != "const" {
		return f.mk("conv", b.s, b.t, f.cutSlice(b.a[0], lo, hi, nil))
	}
	if b.op == "slice" {
		off := b.a[1]
		if hi != nil {
			hi = f.sum(token.ADD, off, hi, nil)
		} else {
			hi = b.a[2]
		}
		return f.cutSlice(b.a[0], f.sum(token.ADD, off, lo, nil), hi, t)
	}
	if k, ok := lo.int(); ok && k == 0 && hi == nil {
		return b
	}
	return f.mk("slice", "", t, b, lo, hi)
}
