package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) globalCell(st *State, g *ssa.Global) ObjID {
	if v, ok := st.glob[g]; ok {
		return v.(VPtr).o
	}
	o := st.newObj(kStruct, derefType(g.Type()), "global", g.Pos())
	st.glob[g] = VPtr{o: o.id}
	t := derefType(g.Type())
	o.f[""] = e.globalValue(st, g, t)
	if sv, ok := o.f[""].(VStruct); ok {
		delete(o.f, "")
		for k, v := range sv.f {
			o.f[k] = v
		}
	}
	return o.id
}

func (e *Engine) newKS(st *State) VMap {
	if st.ks != 0 {
		return VMap{st.ks}
	}
	m := st.newObj(kMap, e.roles.mapT, "keyspace", token.NoPos)
	m.smap, m.isKS, m.open, m.class = true, true, true, "ks"
	m.home = &Home{}
	c := symNat("keys")
	m.card, m.card0 = termLin(c), termLin(c)
	st.ks = m.id
	return VMap{m.id}
}

func (e *Engine) globalValue(st *State, g *ssa.Global, t types.Type) V {
	inDS := g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/datastruct")
	if inDS {
		if e.roles.isSmap(t) {
			return e.newKS(st)
		}
		if s := structOf(namedOf(t)); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if e.roles.isSmap(s.Field(i).Type()) {
					if _, ok := t.(*types.Pointer); !ok {
						return VStruct{map[string]V{s.Field(i).Name(): e.newKS(st)}}
					}
					o := st.newObj(kStruct, namedOf(t), "cache", token.NoPos)
					o.home = &Home{}
					o.f[s.Field(i).Name()] = e.newKS(st)
					return VPtr{o: o.id}
				}
			}
		}
	}
	if init := e.roles.globalInit(g); init != nil {
		switch v := init.(type) {
		case *ssa.Const:
			return e.constV(t, v.Value)
		case *ssa.Call:
			if c := v.Call.StaticCallee(); c != nil && isErrorType(t) && (c.String() == "errors.New" || c.String() == "fmt.Errorf") {
				msg := ""
				if k, ok := v.Call.Args[0].(*ssa.Const); ok {
					msg = constant.StringVal(k.Value)
				}
				return VErr{mk("errglobal", g.String(), strTerm(msg))}
			}
		}
	} else if len(e.roles.stores[g]) == 0 && !isErrorType(t) {
		if _, ok := t.Underlying().(*types.Basic); ok {
			return e.zero(t)
		}
	}
	if isErrorType(t) {
		return VErr{mk("errext", g.String())}
	}
	return e.freshOf(st, t, "global "+g.Name())
}

func set1(st *State, in ssa.Value, v V) []*State {
	st.top().env[in] = v
	return []*State{st}
}

// step executes one non-control instruction.
func (e *Engine) step(st *State, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.Alloc:
		return set1(st, in, e.alloc(st, derefType(in.Type()), in.Pos()))
	case *ssa.BinOp:
		return e.binop(st, in)
	case *ssa.Call:
		return e.doCall(st, in, in)
	case *ssa.ChangeType:
		return set1(st, in, e.val(st, in.X))
	case *ssa.ChangeInterface:
		return set1(st, in, e.val(st, in.X))
	case *ssa.Convert:
		return e.convert(st, in)
	case *ssa.Defer:
		fr := st.top()
		d := deferred{com: in.Common()}
		if in.Call.IsInvoke() {
			d.args = append(d.args, e.val(st, in.Call.Value))
		} else {
			d.fn = e.val(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.val(st, a))
		}
		fr.defers = append(fr.defers, d)
		return []*State{st}
	case *ssa.RunDefers:
		return e.runDefers(st, in)
	case *ssa.Extract:
		t := e.val(st, in.Tuple)
		if tv, ok := t.(VTuple); ok && in.Index < len(tv.e) {
			return set1(st, in, tv.e[in.Index])
		}
		return set1(st, in, e.freshOf(st, in.Type(), "extract"))
	case *ssa.Field:
		x := e.val(st, in.X)
		name := in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()
		if sv, ok := x.(VStruct); ok {
			if v, ok := sv.f[name]; ok {
				return set1(st, in, v)
			}
		}
		return set1(st, in, e.freshOf(st, in.Type(), "field "+name))
	case *ssa.FieldAddr:
		return e.fieldAddr(st, in)
	case *ssa.Go:
		st.note(Note{kind: "go", pos: in.Pos()})
		return []*State{st}
	case *ssa.Index:
		x, i := e.val(st, in.X), e.val(st, in.Index)
		if xt, ok := x.(VTerm); ok {
			if n, ok := i.(VNum); ok {
				return e.bounds(st, n.l, strLen(xt.t), in.Pos(), func(s *State) []*State {
					return set1(s, in, byteAt(s, xt.t, n.l))
				})
			}
		}
		return set1(st, in, e.freshOf(st, in.Type(), "index"))
	case *ssa.IndexAddr:
		return e.indexAddr(st, in)
	case *ssa.Lookup:
		return e.lookup(st, in)
	case *ssa.MakeChan:
		return set1(st, in, VAny{"chan"})
	case *ssa.MakeClosure:
		f := VFunc{f: in.Fn}
		for _, b := range in.Bindings {
			f.b = append(f.b, e.val(st, b))
		}
		return set1(st, in, f)
	case *ssa.MakeInterface:
		return set1(st, in, e.makeIface(st, in.X.Type(), e.val(st, in.X)))
	case *ssa.MakeMap:
		o := st.newObj(kMap, in.Type(), "map", in.Pos())
		o.card, o.card0 = linInt(0), linInt(0)
		return set1(st, in, VMap{o.id})
	case *ssa.MakeSlice:
		return e.makeSlice(st, in)
	case *ssa.MapUpdate:
		return e.mapUpdate(st, in)
	case *ssa.Next:
		return e.next(st, in)
	case *ssa.Range:
		return e.rangeInstr(st, in)
	case *ssa.Select:
		return set1(st, in, e.freshOf(st, in.Type(), "select"))
	case *ssa.Send:
		return []*State{st}
	case *ssa.Slice:
		return e.slice(st, in)
	case *ssa.SliceToArrayPointer:
		return set1(st, in, VAny{"array"})
	case *ssa.Store:
		av := e.val(st, in.Addr)
		if p, ok := av.(VPtr); ok && p.o != 0 && st.obj(p.o) != nil && st.obj(p.o).kind == kSeg {
			var out []*State
			for _, s := range e.focus(st, p.o, p.idx) {
				np := e.val(s, in.Addr).(VPtr)
				np.path = p.path
				out = append(out, e.store(s, np, e.val(s, in.Val), in.Val.Type(), in.Pos())...)
			}
			return out
		}
		return e.store(st, av, e.val(st, in.Val), in.Val.Type(), in.Pos())
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.UnOp:
		return e.unop(st, in)
	}
	e.undecided(in.Pos(), st, "instruction %T not modelled", in)
	if v, ok := in.(ssa.Value); ok {
		return set1(st, v, VAny{"?"})
	}
	return []*State{st}
}

func byteAt(st *State, t *Term, i *Lin) V {
	if t.isStr() {
		if k, ok := st.cons.subst(i).int64(); ok && k >= 0 && k < int64(len(t.s)) {
			return VNum{linInt(int64(t.s[k]))}
		}
	}
	a := mk("byteat", "", t, mkLin(st.cons.subst(i)))
	a.lo, a.hi = big.NewRat(0, 1), big.NewRat(255, 1)
	return VNum{termLin(a)}
}

func (e *Engine) makeIface(st *State, t types.Type, v V) V {
	if ve, ok := v.(VErr); ok {
		return ve
	}
	if types.IsInterface(t) {
		return v
	}
	if _, ok := v.(VAny); ok && implementsError(t) {
		return VErr{mk("errnew", t.String())}
	}
	if implementsError(t) {
		return VErr{mk("errnew", t.String())}
	}
	return VIface{t, v}
}

func implementsError(t types.Type) bool {
	it := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, it)
}

func (e *Engine) alloc(st *State, t types.Type, pos token.Pos) V {
	if at, ok := t.Underlying().(*types.Array); ok {
		if e.roles.shardT != nil && ptrTo(at.Elem(), e.roles.shardT) {
			return VPtr{o: e.newSmap(st, linInt(at.Len()), pos)}
		}
		o := st.newObj(kSlice, types.NewSlice(at.Elem()), "array", pos)
		o.n = linInt(at.Len())
		o.zero = e.zero(at.Elem())
		return VPtr{o: o.id}
	}
	if sameNamed(t, e.roles.zslT) {
		o := st.newObj(kZsl, t, "zsl", pos)
		o.card, o.card0 = linInt(0), linInt(0)
		return VPtr{o: o.id}
	}
	if e.roles.shardT != nil && sameNamed(t, e.roles.shardT) {
		o := st.newObj(kStruct, t, "shard", pos)
		o.f[e.roles.itemsF] = VMap{}
		return VPtr{o: o.id}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "strings.Builder", "bytes.Buffer":
			o := st.newObj(kBuf, t, "buf", pos)
			return VPtr{o: o.id}
		}
	}
	o := st.newObj(kStruct, t, "alloc", pos)
	z := e.zero(t)
	if sv, ok := z.(VStruct); ok {
		e.flatten(o, "", sv)
	} else {
		o.f[""] = z
	}
	return VPtr{o: o.id}
}

func (e *Engine) flatten(o *Obj, path string, sv VStruct) {
	for k, v := range sv.f {
		if s2, ok := v.(VStruct); ok {
			e.flatten(o, joinPath(path, k), s2)
			continue
		}
		o.f[joinPath(path, k)] = v
	}
}

func (e *Engine) newSmap(st *State, n *Lin, pos token.Pos) ObjID {
	o := st.newObj(kMap, e.roles.mapT, "smap", pos)
	o.smap = true
	o.card, o.card0 = linInt(0), linInt(0)
	o.n = n
	o.inits = linInt(0)
	return o.id
}

func (e *Engine) makeSlice(st *State, in *ssa.MakeSlice) []*State {
	lv, ok := e.val(st, in.Len).(VNum)
	if !ok {
		lv = VNum{termLin(symNat("makelen"))}
	}
	if e.roles.isSmap(in.Type()) {
		return set1(st, in, VMap{e.newSmap(st, lv.l, in.Pos())})
	}
	st.note(Note{kind: "make", pos: in.Pos(), l: []*Lin{lv.l}, s: in.Type().String()})
	e.hook("make", st, in, lv.l)
	mkS := func(s *State) []*State {
		o := s.newObj(kSlice, in.Type(), "make", in.Pos())
		o.n = lv.l
		o.zero = e.zero(in.Type().Underlying().(*types.Slice).Elem())
		return set1(s, in, VSlice{o.id, linInt(0), lv.l})
	}
	neg := bLe(lv.l.addInt(1)) // len <= -1
	if v, known := st.decide(neg); known {
		if v {
			return e.doPanic(st, "make", in.Pos(), "negative length")
		}
		return mkS(st)
	}
	bad := st.clone()
	var out []*State
	for _, s := range bad.assume(neg) {
		out = append(out, e.doPanic(s, "make", in.Pos(), "makeslice: len %s may be negative", lv.l)...)
	}
	for _, s := range st.assume(neg.not()) {
		out = append(out, mkS(s)...)
	}
	return out
}

// bounds continues with f where 0 <= i < n, and panics elsewhere.
func (e *Engine) bounds(st *State, i, n *Lin, pos token.Pos, f func(*State) []*State) []*State {
	e.boundsSeen++
	lo := bLe(i.neg())            // i >= 0
	hi := bLe(i.sub(n).addInt(1)) // i <= n-1
	var out []*State
	cur := []*State{st}
	for _, c := range []*B{lo, hi} {
		var nx []*State
		for _, s := range cur {
			if v, known := s.decide(c); known {
				if v {
					nx = append(nx, s)
				} else {
					out = append(out, e.doPanic(s, "index", pos, "index %s out of range for length %s", s.cons.subst(i), s.cons.subst(n))...)
				}
				continue
			}
			b := s.clone()
			for _, x := range b.assume(c.not()) {
				out = append(out, e.doPanic(x, "index", pos, "index %s may be out of range for length %s", i, n)...)
			}
			nx = append(nx, s.assume(c)...)
		}
		cur = nx
	}
	for _, s := range cur {
		out = append(out, f(s)...)
	}
	return out
}

func (e *Engine) fieldAddr(st *State, in *ssa.FieldAddr) []*State {
	x := e.val(st, in.X)
	stt := derefType(in.X.Type()).Underlying().(*types.Struct)
	name := stt.Field(in.Field).Name()
	p, ok := x.(VPtr)
	if !ok {
		if sh, ok := x.(VShard); ok {
			return set1(st, in, VPtr{o: sh.o, path: "items", idx: termLin(sh.idx)})
		}
		return set1(st, in, VAny{"field of unknown"})
	}
	if p.o == 0 {
		return e.doPanic(st, "nil", in.Pos(), "nil pointer dereference (field %s)", name)
	}
	o := st.obj(p.o)
	if o != nil && o.kind == kSeg {
		var out []*State
		for _, s := range e.focus(st, p.o, p.idx) {
			np, ok := e.val(s, in.X).(VPtr)
			if !ok {
				continue
			}
			s.top().env[in] = VPtr{o: np.o, path: name}
			out = append(out, s)
		}
		return out
	}
	return set1(st, in, VPtr{o: p.o, path: joinPath(p.path, name), idx: p.idx})
}

func (e *Engine) indexAddr(st *State, in *ssa.IndexAddr) []*State {
	x, iv := e.val(st, in.X), e.val(st, in.Index)
	i, ok := iv.(VNum)
	if !ok {
		i = VNum{termLin(symInt("idx"))}
	}
	switch x := x.(type) {
	case VMap:
		if x.o == 0 {
			return e.doPanic(st, "index", in.Pos(), "index of nil map of shards")
		}
		return e.shardAddr(st, in, x.o, i.l)
	case VSlice:
		if x.o == 0 {
			return e.doPanic(st, "index", in.Pos(), "index of an empty slice")
		}
		return e.bounds(st, i.l, x.len, in.Pos(), func(s *State) []*State {
			return set1(s, in, VPtr{o: x.o, idx: x.off.add(i.l)})
		})
	case VPtr:
		if x.o == 0 {
			return e.doPanic(st, "nil", in.Pos(), "nil array pointer")
		}
		o := st.obj(x.o)
		if o != nil && o.kind == kMap {
			return e.shardAddr(st, in, x.o, i.l)
		}
		if o != nil && o.kind == kSlice {
			return e.bounds(st, i.l, o.n, in.Pos(), func(s *State) []*State {
				return set1(s, in, VPtr{o: x.o, idx: i.l})
			})
		}
	case VAny:
		if strings.HasPrefix(x.why, "index internals") {
			return set1(st, in, VAny{x.why})
		}
	}
	st.note(Note{kind: "blind-index", pos: in.Pos()})
	e.hook("blind-index", st, in, nil)
	return set1(st, in, VAny{"element of unknown"})
}

func (e *Engine) shardAddr(st *State, in *ssa.IndexAddr, o ObjID, i *Lin) []*State {
	ob := st.obj(o)
	n := ob.n
	if ob.inits == nil {
		// a complete map: compare with the number of shards every map is made with
		idx := st.cons.subst(i)
		if a := idx.single(); a != nil && a.hi != nil && a.lo != nil && a.lo.Sign() >= 0 && e.roles.shards > 0 && a.hi.Cmp(big.NewRat(e.roles.shards-1, 1)) <= 0 {
			return set1(st, in, VPtr{o: o, path: "shard", idx: i})
		}
		if k, ok := idx.int64(); ok && k >= 0 && k < e.roles.shards {
			return set1(st, in, VPtr{o: o, path: "shard", idx: i})
		}
		n = termLin(e.roles.shardAtom)
	}
	return e.bounds(st, i, n, in.Pos(), func(s *State) []*State {
		return set1(s, in, VPtr{o: o, path: "shard", idx: i})
	})
}

func (e *Engine) unop(st *State, in *ssa.UnOp) []*State {
	x := e.val(st, in.X)
	switch in.Op {
	case token.MUL:
		if p, ok := x.(VPtr); ok && p.o != 0 && st.obj(p.o) != nil && st.obj(p.o).kind == kSeg {
			var out []*State
			for _, s := range e.focus(st, p.o, p.idx) {
				np := e.val(s, in.X).(VPtr)
				out = append(out, e.load(s, np, in.Type(), in)...)
			}
			return out
		}
		return e.load(st, x, in.Type(), in)
	case token.NOT:
		if b, ok := x.(VBool); ok {
			return set1(st, in, VBool{b.b.not()})
		}
	case token.SUB:
		if n, ok := x.(VNum); ok {
			return e.intResult(st, in, in.Type(), n.l.neg(), in.Pos())
		}
		if t, ok := x.(VTerm); ok {
			return set1(st, in, VTerm{mk("fneg", "", t.t)})
		}
	case token.XOR:
		if n, ok := x.(VNum); ok {
			return set1(st, in, VNum{linInt(-1).sub(n.l)})
		}
	case token.ARROW:
		return set1(st, in, e.freshOf(st, in.Type(), "recv"))
	}
	return set1(st, in, e.freshOf(st, in.Type(), "unop"))
}

var two64 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 64))

// intResult stores an integer result; results of int64 arithmetic fork into
// the exact and the two wrapped cases.
func (e *Engine) intResult(st *State, in ssa.Value, t types.Type, l *Lin, pos token.Pos) []*State {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Int64 {
		if ok && b.Kind() == types.Uint32 && l.isConst() {
			return set1(st, in, VNum{l})
		}
		return set1(st, in, VNum{l})
	}
	if c, ok := l.int64(); ok {
		return set1(st, in, VNum{linInt(c)})
	}
	over := bLe(linConst(maxI64).addInt(1).sub(l))  // l >= max+1
	under := bLe(l.sub(linConst(minI64)).addInt(1)) // l <= min-1
	var out []*State
	wrap := func(c *B, d *big.Rat) {
		if v, known := st.decide(c); known && !v {
			return
		}
		w := st.clone()
		for _, s := range w.assume(c) {
			s.wrapped = true
			s.wraps = append(s.wraps, pos)
			s.choose("%s: the int64 result %s wraps around", e.p.pos(pos), l)
			s.top().env[in] = VNum{l.addScaled(linConst(two64), d)}
			out = append(out, s)
		}
	}
	wrap(over, ratMinus)
	wrap(under, ratOne)
	cur := []*State{st}
	for _, c := range []*B{over, under} {
		var nx []*State
		for _, s := range cur {
			nx = append(nx, s.assume(c.not())...)
		}
		cur = nx
	}
	for _, s := range cur {
		s.top().env[in] = VNum{l}
		out = append(out, s)
	}
	return out
}

func (e *Engine) binop(st *State, in *ssa.BinOp) []*State {
	x, y := e.val(st, in.X), e.val(st, in.Y)
	nx, okx := x.(VNum)
	ny, oky := y.(VNum)
	if okx && oky {
		a, b := nx.l, ny.l
		switch in.Op {
		case token.ADD:
			return e.intResult(st, in, in.Type(), a.add(b), in.Pos())
		case token.SUB:
			return e.intResult(st, in, in.Type(), a.sub(b), in.Pos())
		case token.MUL:
			if a.isConst() {
				return e.intResult(st, in, in.Type(), b.scale(a.c), in.Pos())
			}
			if b.isConst() {
				return e.intResult(st, in, in.Type(), a.scale(b.c), in.Pos())
			}
			return set1(st, in, e.opTerm(st, "mul", a, b, in.Type()))
		case token.EQL:
			return set1(st, in, VBool{bEq(a.sub(b))})
		case token.NEQ:
			return set1(st, in, VBool{bEq(a.sub(b)).not()})
		case token.LEQ:
			return set1(st, in, VBool{bLe(a.sub(b))})
		case token.LSS:
			return set1(st, in, VBool{bLe(a.sub(b).addInt(1))})
		case token.GEQ:
			return set1(st, in, VBool{bLe(b.sub(a))})
		case token.GTR:
			return set1(st, in, VBool{bLe(b.sub(a).addInt(1))})
		case token.QUO:
			return e.quo(st, in, a, b)
		case token.REM:
			return e.rem(st, in, a, b)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			return set1(st, in, e.bitop(st, in.Op, a, b, in.Type()))
		}
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		b := e.equal(st, x, y)
		if in.Op == token.NEQ {
			b = b.not()
		}
		return set1(st, in, VBool{b})
	case token.ADD:
		if tx, ok := x.(VTerm); ok {
			if ty, ok := y.(VTerm); ok {
				if isBasic(in.Type(), types.IsString) {
					return set1(st, in, VTerm{concat(tx.t, ty.t)})
				}
				return set1(st, in, VTerm{fop("fadd", tx.t, ty.t)})
			}
		}
	case token.SUB, token.MUL, token.QUO:
		if tx, ok := x.(VTerm); ok {
			if ty, ok := y.(VTerm); ok {
				return set1(st, in, VTerm{fop("f"+in.Op.String(), tx.t, ty.t)})
			}
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		tx, okx := x.(VTerm)
		ty, oky := y.(VTerm)
		if okx && oky {
			a, b := tx.t, ty.t
			if in.Op == token.GTR || in.Op == token.GEQ {
				a, b = b, a
			}
			op := "flt"
			if isBasic(in.X.Type(), types.IsString) {
				op = "slt"
				if a.isStr() && b.isStr() {
					if in.Op == token.LSS || in.Op == token.GTR {
						return set1(st, in, VBool{bConst(a.s < b.s)})
					}
					return set1(st, in, VBool{bConst(a.s <= b.s)})
				}
			}
			if in.Op == token.LSS || in.Op == token.GTR {
				return set1(st, in, VBool{bAtom(mk(op, "", a, b))})
			}
			return set1(st, in, VBool{bAtom(mk(strings.Replace(op, "lt", "le", 1), "", a, b))})
		}
	}
	return set1(st, in, e.freshOf(st, in.Type(), "binop"))
}

func fop(op string, a, b *Term) *Term {
	if op == "fadd" {
		if a.op == "fconst" && a.s == "0" {
			return b
		}
		if b.op == "fconst" && b.s == "0" {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mk(op, "", a, b)
}

func (e *Engine) opTerm(st *State, op string, a, b *Lin, t types.Type) V {
	x := mk(op, "", mkLin(st.cons.subst(a)), mkLin(st.cons.subst(b)))
	if bt, ok := t.Underlying().(*types.Basic); ok {
		setIntRange(x, bt)
	}
	return VNum{termLin(x)}
}

func (e *Engine) quo(st *State, in *ssa.BinOp, a, b *Lin) []*State {
	k, ok := st.cons.subst(b).int64()
	if ok && k == 0 {
		return e.doPanic(st, "div", in.Pos(), "division by zero")
	}
	if !ok {
		if !st.cons.excludesEq(b) {
			bad := st.clone()
			bad.cons.addEq(b)
			var out []*State
			if !bad.cons.bad {
				out = e.doPanic(bad, "div", in.Pos(), "division by %s, possibly zero", b)
			}
			return append(out, set1(st, in, e.opTerm(st, "quo", a, b, in.Type()))...)
		}
		return set1(st, in, e.opTerm(st, "quo", a, b, in.Type()))
	}
	if c, ok := st.cons.subst(a).int64(); ok {
		return set1(st, in, VNum{linInt(c / k)})
	}
	q := e.opTerm(st, "quo", a, b, in.Type()).(VNum)
	if k > 0 && st.cons.entailsLe(a.neg()) {
		// k*q <= a <= k*q + k-1
		kq := q.l.scale(big.NewRat(k, 1))
		st.cons.addLe(kq.sub(a))
		st.cons.addLe(a.sub(kq).addInt(-(k - 1)))
	}
	return set1(st, in, q)
}

func (e *Engine) rem(st *State, in *ssa.BinOp, a, b *Lin) []*State {
	k, ok := st.cons.subst(b).int64()
	if ok && k == 0 {
		return e.doPanic(st, "div", in.Pos(), "division by zero")
	}
	if !ok {
		if !st.cons.excludesEq(b) {
			bad := st.clone()
			bad.cons.addEq(b)
			var out []*State
			if !bad.cons.bad {
				out = e.doPanic(bad, "div", in.Pos(), "modulo by %s, possibly zero", b)
			}
			r := e.opTerm(st, "mod", a, b, in.Type()).(VNum)
			return append(out, set1(st, in, r)...)
		}
		return set1(st, in, e.opTerm(st, "mod", a, b, in.Type()))
	}
	if c, ok := st.cons.subst(a).int64(); ok {
		return set1(st, in, VNum{linInt(c % k)})
	}
	unsigned := isBasic(in.X.Type(), types.IsUnsigned)
	r := mk("mod", "", mkLin(st.cons.subst(a)), mkLin(linInt(k)))
	if k < 0 {
		k = -k
	}
	if unsigned || st.cons.entailsLe(a.neg()) {
		r.lo, r.hi = big.NewRat(0, 1), big.NewRat(k-1, 1)
		if !unsigned {
			// a = k*q + r
			q := mk("quo", "", mkLin(st.cons.subst(a)), mkLin(linInt(k)))
			q.nonneg = true
			st.cons.addEq(a.sub(termLin(q).scale(big.NewRat(k, 1))).sub(termLin(r)))
		}
	}
	return set1(st, in, VNum{termLin(r)})
}

func (e *Engine) bitop(st *State, op token.Token, a, b *Lin, t types.Type) V {
	ca, oka := st.cons.subst(a).int64()
	cb, okb := st.cons.subst(b).int64()
	if oka && okb {
		switch op {
		case token.AND:
			return VNum{linInt(ca & cb)}
		case token.OR:
			return VNum{linInt(ca | cb)}
		case token.XOR:
			return VNum{linInt(ca ^ cb)}
		case token.SHL:
			if cb < 62 {
				return VNum{linInt(ca << uint(cb))}
			}
		case token.SHR:
			if cb < 63 {
				return VNum{linInt(ca >> uint(cb))}
			}
		case token.AND_NOT:
			return VNum{linInt(ca &^ cb)}
		}
	}
	n := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
	ta := st.cons.subst(a)
	if op == token.AND && okb {
		// (x | k) & m with known bits
		if x := ta.single(); x != nil && x.op == "or" && len(x.args) == 2 {
			if k, ok := termLin(x.args[1]).int64(); ok {
				if k&cb == cb && cb != 0 && cb&(cb-1) == 0 {
					return VNum{linInt(cb)}
				}
				if k&cb == 0 {
					return e.bitop(st, op, termLin(x.args[0]), b, t)
				}
			}
		}
	}
	r := e.opTerm(st, n, a, b, t).(VNum)
	if op == token.AND && okb && cb >= 0 {
		if x := r.l.single(); x != nil {
			x.lo, x.hi = big.NewRat(0, 1), big.NewRat(cb, 1)
		}
	}
	return r
}

// equal compares two values of the same static type.
func (e *Engine) equal(st *State, x, y V) *B {
	switch a := x.(type) {
	case VTerm:
		if b, ok := y.(VTerm); ok {
			return eqTerm(a.t, b.t)
		}
	case VBool:
		if b, ok := y.(VBool); ok {
			if b.b.k == 'c' {
				if b.b.c {
					return a.b
				}
				return a.b.not()
			}
			if a.b.k == 'c' {
				if a.b.c {
					return b.b
				}
				return b.b.not()
			}
		}
	case VPtr:
		if b, ok := y.(VPtr); ok {
			if a.o == 0 || b.o == 0 {
				return bConst(a.o == b.o)
			}
			if a.o != b.o || a.path != b.path {
				return bFalse
			}
			if a.idx != nil && b.idx != nil {
				return bEq(a.idx.sub(b.idx))
			}
			return bTrue
		}
	case VSlice:
		if b, ok := y.(VSlice); ok {
			if b.o == 0 {
				return bConst(a.o == 0)
			}
			if a.o == 0 {
				return bConst(b.o == 0)
			}
		}
	case VMap:
		if b, ok := y.(VMap); ok {
			return bConst(a.o == b.o)
		}
	case VMapView:
		if b, ok := y.(VMap); ok && b.o == 0 {
			return bFalse
		}
	case VShard:
		if b, ok := y.(VPtr); ok && b.o == 0 {
			return bFalse
		}
	case VFunc:
		if b, ok := y.(VFunc); ok {
			if a.f == nil || b.f == nil {
				return bConst((a.f == nil) == (b.f == nil))
			}
		}
	case VIface:
		switch b := y.(type) {
		case VIface:
			if a.t == nil || b.t == nil {
				return bConst(a.t == nil && b.t == nil)
			}
			if !types.Identical(a.t, b.t) {
				return bFalse
			}
			switch a.v.(type) {
			case VNum:
				if bn, ok := b.v.(VNum); ok {
					return bEq(a.v.(VNum).l.sub(bn.l))
				}
			}
			return e.equal(st, a.v, b.v)
		case VIfaceSym:
			if a.t == nil {
				return e.symNil(b.t)
			}
		case VErr:
			if a.t == nil {
				return errNil(b.t)
			}
			return bFalse
		}
	case VErr:
		switch b := y.(type) {
		case VErr:
			ga, gb := a.t.op != "errsym", b.t.op != "errsym"
			if a.t == b.t {
				if a.t.op == "errnew" {
					return bAtom(fresh("bsym", "erreq"))
				}
				return bTrue
			}
			if ga && gb {
				return bFalse
			}
			return eqTerm(a.t, b.t)
		case VIface:
			if b.t == nil {
				return errNil(a.t)
			}
			return bFalse
		case VPtr:
			if b.o == 0 {
				return errNil(a.t)
			}
		}
	case VIfaceSym:
		switch b := y.(type) {
		case VIface:
			if b.t == nil {
				return e.symNil(a.t)
			}
		case VIfaceSym:
			if a.t == b.t {
				return bTrue
			}
		}
	}
	if _, ok := x.(VIface); !ok {
		switch y.(type) {
		case VIface, VErr:
			switch x.(type) {
			case VErr, VIfaceSym:
			default:
			}
		}
	}
	return bAtom(fresh("bsym", "cmp"))
}

func errNil(t *Term) *B {
	if t.op != "errsym" {
		return bFalse
	}
	return bAtom(mk("isnil", "", t))
}

func (e *Engine) symNil(t *Term) *B {
	switch t.op {
	case "ksval", "hval", "kinfo":
		return bFalse
	}
	return bAtom(mk("isnil", "", t))
}

func (e *Engine) convert(st *State, in *ssa.Convert) []*State {
	x := e.val(st, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	switch v := x.(type) {
	case VNum:
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			// narrowing of values known to fit, or widening
			if fits(st, v.l, tb) {
				return set1(st, in, v)
			}
			if intBits(tb) >= intBits(fb) {
				st.note(Note{kind: "conv", pos: in.Pos(), l: []*Lin{v.l}, s: tb.Name()})
				return set1(st, in, v)
			}
			return set1(st, in, e.opTerm(st, "conv"+tb.Name(), v.l, linInt(0), in.Type()))
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			return set1(st, in, VTerm{mk("i2f", "", mkLin(v.l))})
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			return set1(st, in, VTerm{mk("runestr", "", mkLin(v.l))})
		}
	case VTerm:
		if tb != nil && fb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return set1(st, in, v)
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			if fb != nil && fb.Kind() == tb.Kind() {
				return set1(st, in, v)
			}
			return set1(st, in, VTerm{mk("fconv", tb.Name(), v.t)})
		}
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			a := mk("f2i", "", v.t)
			return set1(st, in, VNum{termLin(a)})
		}
		if sl, ok := to.(*types.Slice); ok && isBasic(sl.Elem(), types.IsInteger) { // []byte(s)
			o := st.newObj(kSlice, in.Type(), "bytes", in.Pos())
			o.n = strLen(v.t)
			o.srcT = v.t
			return set1(st, in, VSlice{o.id, linInt(0), o.n})
		}
	case VSlice:
		if tb != nil && tb.Info()&types.IsString != 0 { // string(bytes)
			return set1(st, in, VTerm{bytesTerm(st, v)})
		}
		return set1(st, in, v)
	}
	return set1(st, in, e.freshOf(st, in.Type(), "convert"))
}

// bytesTerm is the string with the bytes of v.
func bytesTerm(st *State, v VSlice) *Term {
	if v.o == 0 {
		return strTerm("")
	}
	o := st.obj(v.o)
	base := o.srcT
	if base == nil {
		return symStr("bytes")
	}
	off, ln := st.cons.subst(v.off), st.cons.subst(v.len)
	if k, ok := off.int64(); ok && k == 0 && st.cons.entailsEq(ln.sub(strLen(base))) {
		return base
	}
	return subTerm(base, off, ln)
}

func subTerm(base *Term, off, ln *Lin) *Term {
	if base.isStr() {
		a, ok1 := off.int64()
		n, ok2 := ln.int64()
		if ok1 && ok2 && a >= 0 && n >= 0 && a+n <= int64(len(base.s)) {
			return strTerm(base.s[a : a+n])
		}
	}
	if n, ok := ln.int64(); ok && n == 0 {
		return strTerm("")
	}
	if base.op == "sub" {
		return mk("sub", "", base.args[0], mkLin(termLin(base.args[1]).add(off)), mkLin(ln))
	}
	return mk("sub", "", base, mkLin(off), mkLin(ln))
}

func intBits(b *types.Basic) int {
	if b == nil {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func fits(st *State, l *Lin, b *types.Basic) bool {
	bits := intBits(b)
	var lo, hi *big.Rat
	if b.Info()&types.IsUnsigned != 0 {
		lo = big.NewRat(0, 1)
		hi = new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
	} else {
		hi = new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)), big.NewInt(1)))
		lo = new(big.Rat).SetInt(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1))))
	}
	if l.isConst() {
		return l.c.Cmp(lo) >= 0 && l.c.Cmp(hi) <= 0
	}
	return st.cons.entailsLe(linConst(lo).sub(l)) && st.cons.entailsLe(l.sub(linConst(hi)))
}

func (e *Engine) slice(st *State, in *ssa.Slice) []*State {
	x := e.val(st, in.X)
	get := func(v ssa.Value, def *Lin) *Lin {
		if v == nil {
			return def
		}
		if n, ok := e.val(st, v).(VNum); ok {
			return n.l
		}
		return termLin(symInt("slice"))
	}
	switch x := x.(type) {
	case VPtr: // array
		if x.o == 0 {
			break
		}
		o := st.obj(x.o)
		if o.kind == kMap {
			return set1(st, in, VMap{o.id})
		}
		if o.kind == kSlice {
			lo, hi := get(in.Low, linInt(0)), get(in.High, o.n)
			return e.sliceCheck(st, lo, hi, o.n, in.Pos(), func(s *State) []*State {
				return set1(s, in, VSlice{o.id, lo, hi.sub(lo)})
			})
		}
	case VSlice:
		lo, hi := get(in.Low, linInt(0)), get(in.High, x.len)
		capl := x.len
		if x.o != 0 {
			if o := st.obj(x.o); o != nil && o.n != nil && in.High != nil {
				capl = x.len // stay within the length: the analysis does not model spare capacity
			}
		}
		return e.sliceCheck(st, lo, hi, capl, in.Pos(), func(s *State) []*State {
			if x.o == 0 {
				return set1(s, in, x)
			}
			return set1(s, in, VSlice{x.o, x.off.add(lo), hi.sub(lo)})
		})
	case VTerm:
		n := strLen(x.t)
		lo, hi := get(in.Low, linInt(0)), get(in.High, n)
		return e.sliceCheck(st, lo, hi, n, in.Pos(), func(s *State) []*State {
			return set1(s, in, VTerm{subTerm(x.t, s.cons.subst(lo), s.cons.subst(hi.sub(lo)))})
		})
	case VMap:
		return set1(st, in, x)
	}
	e.hook("blind-index", st, in, nil)
	return set1(st, in, e.freshOf(st, in.Type(), "slice"))
}

func (e *Engine) sliceCheck(st *State, lo, hi, n *Lin, pos token.Pos, f func(*State) []*State) []*State {
	e.boundsSeen++
	cs := []*B{bLe(lo.neg()), bLe(lo.sub(hi)), bLe(hi.sub(n))}
	cur := []*State{st}
	var out []*State
	for _, c := range cs {
		var nx []*State
		for _, s := range cur {
			if v, known := s.decide(c); known {
				if v {
					nx = append(nx, s)
				} else {
					out = append(out, e.doPanic(s, "index", pos, "slice bounds out of range [%s:%s] of %s", lo, hi, n)...)
				}
				continue
			}
			b := s.clone()
			for _, y := range b.assume(c.not()) {
				out = append(out, e.doPanic(y, "index", pos, "slice bounds [%s:%s] may be out of range of %s", lo, hi, n)...)
			}
			nx = append(nx, s.assume(c)...)
		}
		cur = nx
	}
	for _, s := range cur {
		out = append(out, f(s)...)
	}
	return out
}

// substIface replaces an interface symbol by a concrete interface everywhere.
func (st *State) substIface(t *Term, v V) {
	var rep func(x V) V
	rep = func(x V) V {
		switch y := x.(type) {
		case VIfaceSym:
			if y.t == t {
				return v
			}
		case VTuple:
			n := VTuple{make([]V, len(y.e))}
			for i := range y.e {
				n.e[i] = rep(y.e[i])
			}
			return n
		case VStruct:
			n := VStruct{map[string]V{}}
			for k, z := range y.f {
				n.f[k] = rep(z)
			}
			return n
		}
		return x
	}
	st.mapValues(rep)
}

// mapValues rewrites every value held in registers and memory.
func (st *State) mapValues(rep func(V) V) {
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = rep(v)
		}
		for i := range f.defers {
			d := f.defers[i]
			na := make([]V, len(d.args))
			for j := range d.args {
				na[j] = rep(d.args[j])
			}
			f.defers[i].args = na
			if d.fn != nil {
				f.defers[i].fn = rep(d.fn)
			}
		}
	}
	for i := range st.ret {
		st.ret[i] = rep(st.ret[i])
	}
	ids := make([]ObjID, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	for _, id := range ids {
		o := st.heap[id]
		var m *Obj
		get := func() *Obj {
			if m == nil {
				m = st.mut(id)
			}
			return m
		}
		for k, v := range o.f {
			if n := rep(v); !sameV(n, v) {
				get().f[k] = n
			}
		}
		for k, v := range o.ex {
			if n := rep(v); !sameV(n, v) {
				get().ex[k] = n
			}
		}
		for i, p := range o.pend {
			if n := rep(p.v); !sameV(n, p.v) {
				get().pend[i].v = n
			}
		}
		for i, en := range o.ents {
			if en.v != nil {
				if n := rep(en.v); !sameV(n, en.v) {
					get().ents[i].v = n
				}
			}
		}
		if o.prev != nil {
			if n := rep(o.prev); !sameV(n, o.prev) {
				get().prev = n
			}
		}
		if o.next != nil {
			if n := rep(o.next); !sameV(n, o.next) {
				get().next = n
			}
		}
	}
}

func sameV(a, b V) bool {
	switch x := a.(type) {
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x == y
	case VIfaceSym:
		y, ok := b.(VIfaceSym)
		return ok && x == y
	case VTerm:
		y, ok := b.(VTerm)
		return ok && x == y
	case VNum:
		y, ok := b.(VNum)
		return ok && x == y
	case VBool:
		y, ok := b.(VBool)
		return ok && x == y
	case VErr:
		y, ok := b.(VErr)
		return ok && x == y
	case VIter:
		y, ok := b.(VIter)
		return ok && x == y
	case VMap:
		y, ok := b.(VMap)
		return ok && x == y
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x == y
	case VShard:
		y, ok := b.(VShard)
		return ok && x == y
	case VMapView:
		y, ok := b.(VMapView)
		return ok && x == y
	case VAny:
		y, ok := b.(VAny)
		return ok && x == y
	case VIface:
		y, ok := b.(VIface)
		return ok && x.t == y.t && (x.t == nil || sameV(x.v, y.v))
	}
	return false
}

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	x := e.val(st, in.X)
	T := in.AssertedType
	yes := func(s *State, v V) *State {
		if in.CommaOk {
			s.top().env[in] = VTuple{[]V{v, VBool{bTrue}}}
		} else {
			s.top().env[in] = v
		}
		return s
	}
	no := func(s *State) []*State {
		if in.CommaOk {
			s.top().env[in] = VTuple{[]V{e.zero(T), VBool{bFalse}}}
			return []*State{s}
		}
		return e.doPanic(s, "assert", in.Pos(), "interface conversion to %s fails", types.TypeString(T, nil))
	}
	e.assertsSeen++
	switch v := x.(type) {
	case VIface:
		if v.t == nil {
			return no(st)
		}
		if types.IsInterface(T) {
			if it := T.Underlying().(*types.Interface); types.Implements(v.t, it) {
				return []*State{yes(st, v)}
			}
			return no(st)
		}
		if types.Identical(v.t, T) {
			return []*State{yes(st, v.v)}
		}
		return no(st)
	case VErr:
		if isErrorType(T) || types.IsInterface(T) {
			return []*State{yes(st, v)}
		}
		if isBasic(T, types.IsString|types.IsInteger|types.IsFloat) {
			return no(st)
		}
		b := st.clone()
		return append(no(b), yes(st, e.freshOf(st, T, "errval")))
	case VIfaceSym:
		return e.assertSym(st, v.t, T, yes, no)
	}
	b := st.clone()
	return append(no(b), yes(st, e.freshOf(st, T, "assert")))
}

// assertSym decides a type assertion on a stored value.
func (e *Engine) assertSym(st *State, t *Term, T types.Type, yes func(*State, V) *State, no func(*State) []*State) []*State {
	switch t.op {
	case "ksval":
		key := t.args[0]
		k := e.roles.kindOfType(T)
		kd := mk("kind", "", key)
		if k == "" {
			return no(st)
		}
		var out []*State
		b := eqTerm(kd, strTerm(k))
		v, known := st.decide(b)
		if !known || !v {
			bad := st
			if !known {
				bad = st.clone()
				for _, s := range bad.assume(b.not()) {
					out = append(out, no(s)...)
				}
			} else {
				return no(bad)
			}
		}
		if !known {
			ss := st.assume(b)
			if len(ss) == 0 {
				return out
			}
		}
		cv := e.materialise(st, key, k)
		st.substIface(t, VIface{T, cv})
		return append(out, yes(st, cv))
	case "hval":
		for _, x := range []types.Type{types.Typ[types.String], types.Typ[types.Int64], types.Typ[types.Float64]} {
			if types.Identical(x, T) {
				var out []*State
				dt := mk("dyn", "", t)
				b := eqTerm(dt, strTerm(T.String()))
				v, known := st.decide(b)
				if known && !v {
					return no(st)
				}
				if !known {
					// the last remaining alternative is certain
					nt := st.clone()
					rem := 0
					for _, s := range nt.assume(b.not()) {
						for _, y := range []string{"string", "int64", "float64"} {
							if y == T.String() {
								continue
							}
							if fv, ok := s.facts[eqTerm(dt, strTerm(y)).t]; !ok || fv {
								rem++
							}
						}
						if rem > 0 {
							out = append(out, no(s)...)
						}
					}
					st.assume(b)
				}
				var cv V
				switch T.String() {
				case "string":
					cv = VTerm{mk("strval", "", t)}
				case "int64":
					a := mk("intval", "", t)
					a.i64 = true
					cv = VNum{termLin(a)}
				default:
					cv = VTerm{mk("fltval", "", t)}
				}
				st.substIface(t, VIface{T, cv})
				return append(out, yes(st, cv))
			}
		}
		return no(st)
	}
	b := st.clone()
	dt := mk("dyn", "", t)
	at := eqTerm(dt, strTerm(types.TypeString(T, nil)))
	var out []*State
	if v, known := st.decide(at); known {
		if !v {
			return no(st)
		}
	} else {
		for _, s := range b.assume(at.not()) {
			out = append(out, no(s)...)
		}
		st.assume(at)
	}
	var cv V
	if types.IsInterface(T) {
		cv = VIfaceSym{t}
	} else {
		cv = e.freshOf(st, T, "assert")
		st.substIface(t, VIface{T, cv})
	}
	return append(out, yes(st, cv))
}

func (e *Engine) runDefers(st *State, in *ssa.RunDefers) []*State {
	cur := []*State{st}
	n := len(st.top().defers)
	for k := n - 1; k >= 0; k-- {
		var nx []*State
		for _, s := range cur {
			if s.panic != nil {
				nx = append(nx, s)
				continue
			}
			d := s.top().defers[k]
			s.top().defers = s.top().defers[:k]
			fv, ok := d.fn.(VFunc)
			if !ok || d.com.IsInvoke() {
				nx = append(nx, s)
				continue
			}
			if f, ok := fv.f.(*ssa.Function); ok {
				if f.Blocks == nil || !e.inModule(f) {
					nx = append(nx, s)
					continue
				}
				for _, r := range e.call(s, f, d.args, fv.b, in) {
					nx = append(nx, r)
				}
			} else {
				nx = append(nx, s)
			}
		}
		cur = nx
	}
	return cur
}

func (e *Engine) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		// wrappers and bound methods: judge by the package of the object
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func (e *Engine) hook(kind string, st *State, in ssa.Instruction, l *Lin) {
	if e.onEvent != nil {
		e.onEvent(Ev{kind: kind, st: st, in: in, pos: in.Pos(), l: l})
	}
}

// Ev is reported to the rules while the analysis runs.
type Ev struct {
	kind string
	st   *State
	in   ssa.Instruction
	pos  token.Pos
	l    *Lin
	key  *Term
	v    V
	obj  ObjID
	s    string
	ks   bool
}

func (e *Engine) emit(ev Ev) {
	if e.onEvent != nil {
		e.onEvent(ev)
	}
}

var _ = fmt.Sprint
