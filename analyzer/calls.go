package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) doCall(st *State, in ssa.CallInstruction, res ssa.Value) []*State {
	com := in.Common()
	e.callSites++
	if com.IsInvoke() {
		recv := e.val(st, com.Value)
		var args []V
		for _, a := range com.Args {
			args = append(args, e.val(st, a))
		}
		return e.invoke(st, in, res, recv, com.Method, args)
	}
	var args []V
	for _, a := range com.Args {
		args = append(args, e.val(st, a))
	}
	switch f := com.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(st, in, res, f.Name(), args)
	case *ssa.Function:
		return e.callFn(st, in, res, f, args, nil)
	case *ssa.MakeClosure:
		fv := e.val(st, f)
		if v, ok := fv.(VFunc); ok {
			return e.callFn(st, in, res, v.f.(*ssa.Function), args, v.b)
		}
	}
	fv := e.val(st, com.Value)
	if v, ok := fv.(VFunc); ok {
		if v.f == nil {
			return e.doPanic(st, "nil", in.Pos(), "call of a nil function")
		}
		switch f := v.f.(type) {
		case *ssa.Function:
			return e.callFn(st, in, res, f, args, v.b)
		case *ssa.Builtin:
			return e.builtin(st, in, res, f.Name(), args)
		}
	}
	if va, ok := fv.(VAny); ok && strings.HasPrefix(va.why, "callback") {
		if e.onCallback != nil {
			return e.onCallback(e, st, in, res, args)
		}
		e.emit(Ev{kind: "callback", st: st, in: in, pos: in.Pos(), s: va.why, v: VTuple{args}})
		r := e.freshOf(st, com.Signature().Results(), "cb")
		if com.Signature().Results().Len() == 1 {
			r = r.(VTuple).e[0]
		}
		st.cbLast = r
		return set1(st, res, r)
	}
	e.undecided(in.Pos(), st, "call of an unknown function value")
	return e.setFresh(st, res, com.Signature().Results(), "call")
}

func (e *Engine) setFresh(st *State, res ssa.Value, rt *types.Tuple, name string) []*State {
	if res == nil {
		return []*State{st}
	}
	switch rt.Len() {
	case 0:
		return []*State{st}
	case 1:
		return set1(st, res, e.freshOf(st, rt.At(0).Type(), name))
	}
	return set1(st, res, e.freshOf(st, rt, name))
}

func (e *Engine) setRes(st *State, res ssa.Value, vs ...V) *State {
	if res == nil {
		return st
	}
	if len(vs) == 1 {
		st.top().env[res] = vs[0]
	} else {
		st.top().env[res] = VTuple{append([]V(nil), vs...)}
	}
	return st
}

func (e *Engine) callFn(st *State, in ssa.CallInstruction, res ssa.Value, f *ssa.Function, args []V, bind []V) []*State {
	if e.onCall != nil {
		if ss, ok := e.onCall(e, st, in, f, args); ok {
			return ss
		}
	}
	if f.Blocks == nil || !e.inModule(f) {
		return e.external(st, in, res, f, args)
	}
	if f.Synthetic != "" && strings.HasPrefix(f.Synthetic, "bound method") {
		// inline the wrapper
	}
	if e.roles.isZslMethod(f) {
		if ss, ok := e.zslOp(st, in, res, f, args); ok {
			return ss
		}
	}
	if f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && ptrTo(f.Signature.Results().At(0).Type(), e.roles.zslT) && e.isZslCtor(f) {
		o := st.newObj(kZsl, e.roles.zslT, "zsl", in.Pos())
		o.card, o.card0 = linInt(0), linInt(0)
		return []*State{e.setRes(st, res, VPtr{o: o.id})}
	}
	if e.roles.pureScalar(f) {
		var ts []*Term
		okAll := true
		for _, a := range args {
			t, ok := keyTerm(a)
			if !ok {
				okAll = false
			}
			ts = append(ts, t)
		}
		if okAll {
			t := mk("uf", fnName(f), ts...)
			if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok {
				setIntRange(t, b)
			}
			return []*State{e.setRes(st, res, VNum{termLin(t)})}
		}
	}
	n := 0
	for _, fr := range st.frames {
		if fr.fn == f {
			n++
		}
	}
	if n > 0 {
		if e.recHook != nil {
			if r := e.recHook(e, st, in, f, args); r != nil {
				return r
			}
		}
		if n > 3 {
			e.undecided(in.Pos(), st, "recursion of %s", fnName(f))
			return e.setFresh(st, res, f.Signature.Results(), "rec")
		}
	}
	var out []*State
	for _, r := range e.call(st, f, args, bind, in) {
		if r.panic != nil {
			if len(r.frames) > 0 {
				r.frames = r.frames[:len(r.frames)-1]
			}
			out = append(out, r)
			continue
		}
		if res != nil {
			if len(r.ret) == 1 {
				r.top().env[res] = r.ret[0]
			} else if len(r.ret) > 1 {
				r.top().env[res] = VTuple{r.ret}
			}
		}
		r.ret = nil
		out = append(out, r)
	}
	return out
}

// isZslCtor: returns a newly allocated index (its allocation is in the function
// and it is not a method).
func (e *Engine) isZslCtor(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && sameNamed(derefType(a.Type()), e.roles.zslT) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) builtin(st *State, in ssa.CallInstruction, res ssa.Value, name string, args []V) []*State {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case VSlice:
			return []*State{e.setRes(st, res, VNum{x.len})}
		case VTerm:
			return []*State{e.setRes(st, res, VNum{strLen(x.t)})}
		case VMap:
			if x.o == 0 {
				return []*State{e.setRes(st, res, VNum{linInt(0)})}
			}
			o := st.obj(x.o)
			if o.smap {
				if o.inits != nil {
					return []*State{e.setRes(st, res, VNum{o.n})}
				}
				return []*State{e.setRes(st, res, VNum{termLin(e.roles.shardAtom)})}
			}
			return []*State{e.setRes(st, res, VNum{o.card})}
		case VMapView:
			o := st.obj(x.o)
			c := symNat("shardlen")
			st.cons.addLe(termLin(c).sub(o.card))
			return []*State{e.setRes(st, res, VNum{termLin(c)})}
		case VPtr:
			if o := st.obj(x.o); o != nil && o.kind == kSlice {
				return []*State{e.setRes(st, res, VNum{o.n})}
			}
		}
		return []*State{e.setRes(st, res, VNum{termLin(symNat("len"))})}
	case "append":
		return e.appendB(st, in, res, args)
	case "copy":
		e.copyB(st, in, args)
		n := symNat("copied")
		return []*State{e.setRes(st, res, VNum{termLin(n)})}
	case "delete":
		return e.mapDelete(st, args[0], args[1], in.Pos())
	case "panic":
		return e.doPanic(st, "explicit", in.Pos(), "explicit panic")
	case "recover":
		return []*State{e.setRes(st, res, VIface{})}
	case "print", "println", "close":
		return []*State{st}
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(VNum)
			b, ok2 := args[1].(VNum)
			if ok1 && ok2 {
				le := bLe(a.l.sub(b.l))
				var out []*State
				o := st.clone()
				for _, s := range st.assume(le) {
					v := a
					if name == "max" {
						v = b
					}
					out = append(out, e.setRes(s, res, v))
				}
				for _, s := range o.assume(le.not()) {
					v := b
					if name == "max" {
						v = a
					}
					out = append(out, e.setRes(s, res, v))
				}
				return out
			}
		}
	case "clear":
		e.undecided(in.Pos(), st, "clear")
	case "ssa:wrapnilchk":
		return []*State{e.setRes(st, res, args[0])}
	}
	return e.setFresh(st, res, in.Common().Signature().Results(), name)
}

// appendB: append(s, t...) ; t may be a string.
func (e *Engine) appendB(st *State, in ssa.CallInstruction, res ssa.Value, args []V) []*State {
	s, ok := args[0].(VSlice)
	if !ok {
		return []*State{e.setRes(st, res, e.freshOf(st, res.Type(), "append"))}
	}
	var add VSlice
	switch t := args[1].(type) {
	case VSlice:
		add = t
	case VTerm:
		o := st.newObj(kSlice, types.NewSlice(types.Typ[types.Byte]), "bytes", in.Pos())
		o.n, o.srcT = strLen(t.t), t.t
		add = VSlice{o.id, linInt(0), o.n}
	default:
		return []*State{e.setRes(st, res, e.freshOf(st, res.Type(), "append"))}
	}
	if add.o == 0 {
		return []*State{e.setRes(st, res, s)}
	}
	ao := st.obj(add.o)
	if e.onEvent != nil && len(ao.ex) == 1 && st.cons.entailsEq(add.len.addInt(-1)) && entails0(st, add.off) {
		e.emit(Ev{kind: "append", st: st, pos: in.Pos(), v: ao.ex[0]})
	}
	// appending to nothing copies
	if s.o == 0 || entails0(st, s.len) {
		if s.o == 0 && entails0(st, add.len) {
			return []*State{e.setRes(st, res, s)}
		}
		n := st.newObj(kSlice, res.Type(), "append", in.Pos())
		n.n = add.len
		e.copyElems(st, n, linInt(0), add, ao)
		return []*State{e.setRes(st, res, VSlice{n.id, linInt(0), add.len})}
	}
	so := st.obj(s.o)
	id := s.o
	base := s.off
	if so.home != nil || so.args || so.srcT != nil || !st.cons.entailsEq(s.off.add(s.len).sub(so.n)) {
		n := st.newObj(kSlice, res.Type(), "append", in.Pos())
		n.n = s.len
		e.copyElems(st, n, linInt(0), s, so)
		id, base = n.id, linInt(0)
	}
	o := st.mut(id)
	at := base.add(s.len)
	o.n = at.add(add.len)
	if o.srcT != nil || ao.srcT != nil {
		// byte slices: keep the text
		if o.srcT != nil && ao.srcT != nil && entails0(st, base) {
			o.srcT = concat(o.srcT, bytesTerm(st, add))
		} else {
			o.srcT = symStr("bytes")
		}
	} else {
		e.copyElems(st, o, at, add, ao)
	}
	return []*State{e.setRes(st, res, VSlice{id, base, s.len.add(add.len)})}
}

func entails0(st *State, l *Lin) bool { return st.cons.entailsEq(l) }

// copyElems writes the elements of add (backed by ao) into n from position at.
func (e *Engine) copyElems(st *State, n *Obj, at *Lin, add VSlice, ao *Obj) {
	if ao.srcT != nil {
		n.srcT = bytesTerm(st, add)
		return
	}
	if k, ok := st.cons.subst(add.len).int64(); ok && k <= 16 {
		off := st.cons.subst(add.off)
		if ao.args {
			for i := int64(0); i < k; i++ {
				e.setElem(st, n.id, at.addInt(i), "", VTerm{mk("arg", "", mkLin(st.cons.subst(off.addInt(i))))})
			}
			return
		}
		if c, ok := off.int64(); ok {
			all := true
			for i := int64(0); i < k; i++ {
				v, ok := ao.ex[c+i]
				if !ok {
					if len(ao.tmpl) == 0 && len(ao.pend) == 0 && ao.zero != nil {
						v = ao.zero
					} else {
						all = false
						break
					}
				}
				e.setElem(st, n.id, at.addInt(i), "", v)
			}
			if all {
				return
			}
		} else if k == 1 {
			for i := len(ao.pend) - 1; i >= 0; i-- {
				if st.cons.entailsEq(ao.pend[i].idx.sub(off)) {
					e.setElem(st, n.id, at, "", ao.pend[i].v)
					return
				}
			}
		}
	}
	// general case: element at+j is element off+j of the source
	d := add.off.sub(at) // source index = target index + d
	n = st.mut(n.id)
	if entails0(st, at) && entails0(st, add.off) && len(n.ex) == 0 && len(n.pend) == 0 && len(n.tmpl) == 0 {
		if ao.args {
			n.tmpl = append(n.tmpl, tmplEl{v: VTerm{mk("arg", "", mkLin(termLin(jVar)))}})
			return
		}
		n.ex = map[int64]V{}
		for k, v := range ao.ex {
			n.ex[k] = v
		}
		n.pend = append([]pendEl(nil), ao.pend...)
		n.tmpl = append([]tmplEl(nil), ao.tmpl...)
		n.zero = ao.zero
		return
	}
	sh := newSubst()
	sh.m[jVar] = VNum{termLin(jVar).add(st.cons.subst(d))}
	if ao.args {
		n.tmpl = addTmpl(n.tmpl, tmplEl{v: VTerm{mk("arg", "", mkLin(termLin(jVar).add(st.cons.subst(d))))}})
		return
	}
	for _, t := range ao.tmpl {
		if t.at == nil {
			n.tmpl = addTmpl(n.tmpl, tmplEl{v: subV(t.v, sh)})
		} else {
			n.tmpl = addTmpl(n.tmpl, tmplEl{v: t.v})
		}
	}
	for _, v := range ao.ex {
		n.tmpl = addTmpl(n.tmpl, tmplEl{v: v})
	}
	for _, p := range ao.pend {
		n.tmpl = addTmpl(n.tmpl, tmplEl{v: p.v})
	}
	if ao.zero != nil && len(ao.tmpl)+len(ao.ex)+len(ao.pend) == 0 {
		n.tmpl = addTmpl(n.tmpl, tmplEl{v: ao.zero})
	}
}

func (e *Engine) copyB(st *State, in ssa.CallInstruction, args []V) {
	d, ok := args[0].(VSlice)
	if !ok || d.o == 0 {
		return
	}
	o := st.mut(d.o)
	switch s := args[1].(type) {
	case VSlice:
		if s.o == 0 {
			return
		}
		so := st.obj(s.o)
		if st.cons.entailsEq(d.len.sub(s.len)) && entails0(st, d.off) && st.cons.entailsEq(o.n.sub(d.len)) {
			o.ex, o.pend, o.tmpl, o.srcT = nil, nil, nil, nil
			e.copyElems(st, o, linInt(0), s, so)
			return
		}
	case VTerm:
		if st.cons.entailsEq(d.len.sub(strLen(s.t))) && entails0(st, d.off) && st.cons.entailsEq(o.n.sub(d.len)) {
			o.srcT = s.t
			return
		}
	}
	o.ex, o.pend = nil, nil
	if o.srcT != nil {
		o.srcT = symStr("bytes")
	} else {
		o.tmpl = []tmplEl{{v: VAny{"copied"}}}
	}
}

func newErr(kind string) VErr { return VErr{mk("errnew", kind)} }

// forkErr continues with the success values on one state and with failure values and an error on another.
func (e *Engine) forkErr(st *State, res ssa.Value, fact *Term, ok func(*State) []V, bad func(*State) []V) []*State {
	var out []*State
	b := st.clone()
	for _, s := range st.assume(bAtom(fact)) {
		out = append(out, e.setRes(s, res, ok(s)...))
	}
	for _, s := range b.assume(bAtom(fact).not()) {
		out = append(out, e.setRes(s, res, bad(s)...))
	}
	return out
}

func iparse(t *Term, bits string) *Term {
	a := mk("iparse", bits, t)
	a.i64 = true
	return a
}

func fmtInt(l *Lin) *Term {
	if k, ok := l.int64(); ok {
		return strTerm(itoa(k))
	}
	if a := l.single(); a != nil && a.op == "cparse" {
		return a.args[0]
	}
	return mk("fmtint", "", mkLin(l))
}

func fmtFlt(t *Term) *Term {
	if t.op == "fcparse" {
		return t.args[0]
	}
	return mk("fmtflt", "", t)
}

func (e *Engine) strArg(st *State, v V) *Term {
	if t, ok := v.(VTerm); ok {
		return st.normTerm(t.t)
	}
	return symStr("s")
}

func (e *Engine) external(st *State, in ssa.CallInstruction, res ssa.Value, f *ssa.Function, args []V) []*State {
	name := f.String()
	one := func(v V) []*State { return []*State{e.setRes(st, res, v)} }
	str := func(i int) *Term { return e.strArg(st, args[i]) }
	switch name {
	case "strconv.Atoi":
		return e.parseInt(st, res, str(0), "10", in.Pos())
	case "strconv.ParseInt":
		base, bits := "?", "64"
		if n, ok := args[1].(VNum); ok {
			if k, ok := n.l.int64(); ok {
				base = itoa(k)
			}
		}
		if n, ok := args[2].(VNum); ok {
			if k, ok := n.l.int64(); ok {
				bits = itoa(k)
			}
		}
		if bits == "0" {
			bits = "64"
		}
		if bits != "64" {
			base += "/" + bits
		}
		return e.parseInt(st, res, str(0), base, in.Pos())
	case "strconv.ParseUint":
		return e.parseInt(st, res, str(0), "u", in.Pos())
	case "strconv.ParseFloat":
		t := str(0)
		bits := "64"
		if n, ok := args[1].(VNum); ok {
			if k, ok := n.l.int64(); ok {
				bits = itoa(k)
			}
		}
		e.emit(Ev{kind: "parse", st: st, in: in, pos: in.Pos(), key: t, s: "float"})
		return e.forkErr(st, res, mk("parseok", "f"+bits, t),
			func(s *State) []V { return []V{VTerm{mk("fparse", bits, t)}, VIface{}} },
			func(s *State) []V { return []V{VTerm{symFlt("badfloat")}, newErr("parsefloat")} })
	case "strconv.ParseBool":
		return e.setFresh(st, res, f.Signature.Results(), "parsebool")
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		if n, ok := args[0].(VNum); ok {
			if len(args) > 1 {
				if b, ok := args[1].(VNum); ok {
					if k, ok := b.l.int64(); !ok || k != 10 {
						return one(VTerm{mk("fmtbase", "", mkLin(st.cons.subst(n.l)), mkLin(b.l))})
					}
				}
			}
			return one(VTerm{fmtInt(st.cons.subst(n.l))})
		}
	case "strconv.FormatFloat":
		if t, ok := args[0].(VTerm); ok {
			fm, ok1 := args[1].(VNum)
			pr, ok2 := args[2].(VNum)
			bt, ok3 := args[3].(VNum)
			if ok1 && ok2 && ok3 {
				a, _ := fm.l.int64()
				b, _ := pr.l.int64()
				c, _ := bt.l.int64()
				if b == -1 && c == 64 && (a == 'g' || a == 'f' || a == 'e' || a == 'G' || a == 'E') {
					if a == 'g' {
						return one(VTerm{fmtFlt(t.t)})
					}
					return one(VTerm{mk("fmtflt"+string(rune(a)), "", t.t)})
				}
			}
			return one(VTerm{mk("fmtfltlossy", "", t.t)})
		}
	case "strings.ToLower":
		return one(VTerm{caseTerm("lower", str(0))})
	case "strings.ToUpper":
		return one(VTerm{caseTerm("upper", str(0))})
	case "strings.EqualFold":
		return one(VBool{eqTerm(caseTerm("lower", str(0)), caseTerm("lower", str(1)))})
	case "strings.TrimSpace":
		return one(VTerm{mk("trim", "", str(0))})
	case "strings.TrimPrefix", "strings.TrimSuffix":
		t, p := str(0), str(1)
		has := mk("haspre", strings.TrimPrefix(name, "strings.Trim"), t, p)
		var out []*State
		b := st.clone()
		for _, s := range st.assume(bAtom(has)) {
			s.cons.addLe(strLen(p).sub(strLen(t)))
			r := subTerm(t, strLen(p), strLen(t).sub(strLen(p)))
			if strings.HasSuffix(name, "Suffix") {
				r = subTerm(t, linInt(0), strLen(t).sub(strLen(p)))
			}
			if !s.cons.bad {
				if eq := eqTerm(r, t); eq.k == 'a' && p.isStr() && p.s != "" {
					s.setFact(eq.t, false)
				}
				out = append(out, e.setRes(s, res, VTerm{r}))
			}
		}
		for _, s := range b.assume(bAtom(has).not()) {
			out = append(out, e.setRes(s, res, VTerm{t}))
		}
		return out
	case "strings.HasPrefix", "strings.HasSuffix":
		return one(VBool{bAtom(mk("haspre", strings.TrimPrefix(name, "strings.Has"), str(0), str(1)))})
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		return one(VBool{bAtom(fresh("bsym", "contains"))})
	case "math.Inf":
		if n, ok := args[0].(VNum); ok {
			if k, ok := n.l.int64(); ok {
				t := mk("fconst", "-Inf")
				if k >= 0 {
					t = mk("fconst", "+Inf")
				}
				return one(VTerm{t})
			}
		}
	case "math.IsNaN":
		if t, ok := args[0].(VTerm); ok {
			if t.t.op == "fconst" {
				return one(VBool{bFalse})
			}
			return one(VBool{bAtom(mk("isnan", "", t.t))})
		}
	case "math.IsInf":
		if t, ok := args[0].(VTerm); ok {
			return one(VBool{bAtom(mk("isinf", "", t.t))})
		}
	case "errors.New", "fmt.Errorf", "errors.Join":
		msg := "fixed"
		switch {
		case name == "errors.New":
			if t := st.normTerm(str(0)); !t.isStr() && t.op != "fmtint" && t.op != "fmtflt" {
				msg = "client"
			} else if t.isStr() {
				msg = "fixed:" + t.s
			}
		case name == "fmt.Errorf":
			t, _ := e.format(st, args)
			if t.isStr() {
				msg = "fixed:" + t.s
			}
			t.walk(func(x *Term) {
				switch x.op {
				case "concat", "str", "fmtint", "fmtflt", "lin", "uf", "iparse":
				default:
					if isStrTerm(x) {
						msg = "client"
					}
				}
			})
		}
		return one(VErr{mk("errnew", e.p.pos(in.Pos()), strTerm(msg))})
	case "errors.Is":
		return one(VBool{e.equal(st, args[0], args[1])})
	case "errors.Unwrap":
		return one(VErr{fresh("errsym", "unwrap")})
	case "github.com/yusank/glob.Compile", "github.com/yusank/glob.MustCompile":
		if strings.HasSuffix(name, "MustCompile") {
			bad := st.clone()
			t := str(0)
			var out []*State
			for _, s := range bad.assume(bAtom(mk("globok", "", t)).not()) {
				out = append(out, e.doPanic(s, "explicit", in.Pos(), "glob.MustCompile panics on an invalid pattern")...)
			}
			for _, s := range st.assume(bAtom(mk("globok", "", t))) {
				out = append(out, e.setRes(s, res, VIfaceSym{mk("glob", "", t)}))
			}
			return out
		}
		t := str(0)
		return e.forkErr(st, res, mk("globok", "", t),
			func(s *State) []V { return []V{VIfaceSym{mk("glob", "", t)}, VIface{}} },
			func(s *State) []V { return []V{VIface{}, newErr("glob")} })
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if name == "fmt.Sprintf" {
			if t, ok := e.format(st, args); ok {
				return one(VTerm{t})
			}
		} else if name == "fmt.Sprint" {
			if t, ok := e.format(st, append([]V{VTerm{strTerm("%v")}}, args...)); ok {
				return one(VTerm{t})
			}
		}
		e.emit(Ev{kind: "sprintf", st: st, in: in, pos: in.Pos()})
		return one(VTerm{symStr("sprintf")})
	case "io.ReadFull":
		return e.readFull(st, in, res, args)
	case "io.ReadAtLeast":
		return e.setFresh(st, res, f.Signature.Results(), "readatleast")
	case "bytes.NewBuffer", "bytes.NewBufferString":
		o := st.newObj(kBuf, derefType(f.Signature.Results().At(0).Type()), "buf", in.Pos())
		switch a := args[0].(type) {
		case VSlice:
			if a.o != 0 {
				o.parts = []*Term{bytesTerm(st, a)}
			}
		case VTerm:
			o.parts = []*Term{a.t}
		}
		return one(VPtr{o: o.id})
	case "sort.Strings", "sort.Slice", "sort.SliceStable":
		if s, ok := args[0].(VSlice); ok && s.o != 0 {
			o := st.mut(s.o)
			for _, k := range sortedExKeys(o.ex) {
				o.tmpl = addTmpl(o.tmpl, tmplEl{v: o.ex[k]})
			}
			for _, p := range o.pend {
				o.tmpl = addTmpl(o.tmpl, tmplEl{v: p.v})
			}
			o.ex, o.pend = nil, nil
		}
		return []*State{st}
	}
	if f.Signature.Recv() != nil && len(args) > 0 {
		if p, ok := args[0].(VPtr); ok && p.o != 0 {
			if o := st.obj(p.o); o != nil && o.kind == kBuf {
				return e.bufOp(st, in, res, f, p.o, args)
			}
		}
	}
	if name == "strings.Clone" {
		return one(args[0])
	}
	if t := e.textFun(st, name, args); t != nil {
		return one(VTerm{t})
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	e.emit(Ev{kind: "ext", st: st, in: in, pos: in.Pos(), s: name, v: VTuple{args}})
	switch pkg {
	case "strings", "strconv", "fmt", "log", "math", "errors", "unicode", "unicode/utf8", "time", "context", "math/rand", "bytes", "sort", "os", "io", "sync", "sync/atomic", "runtime", "math/bits", "bufio", "reflect", "log/slog":
	default:
		e.undecided(in.Pos(), st, "call of %s is not modelled", name)
	}
	return e.setFresh(st, res, f.Signature.Results(), f.Name())
}

// textFun is the result of a library function that alters a text.
func (e *Engine) textFun(st *State, name string, args []V) *Term {
	switch name {
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc",
		"strings.Title", "strings.ToTitle", "strings.ToValidUTF8", "strings.Replace", "strings.ReplaceAll", "strings.Map",
		"strconv.Quote", "strconv.QuoteToASCII", "html.EscapeString", "url.QueryEscape":
	default:
		return nil
	}
	var as []*Term
	for _, a := range args {
		switch x := a.(type) {
		case VTerm:
			as = append(as, st.normTerm(x.t))
		case VNum:
			as = append(as, mkLin(st.cons.subst(x.l)))
		default:
			as = append(as, fresh("osym", "fun"))
		}
	}
	return mk("sfun", name, as...)
}

// format evaluates a call of the Sprintf family with a constant format and
// plain verbs; ok is false when the exact text is not known.
func (e *Engine) format(st *State, args []V) (*Term, bool) {
	unknown := symStr("sprintf")
	if len(args) == 0 {
		return unknown, false
	}
	ft, ok := args[0].(VTerm)
	if !ok {
		return unknown, false
	}
	fs := st.normTerm(ft.t)
	if !fs.isStr() {
		return fs, false
	}
	var ops []V
	if len(args) > 1 {
		sl, ok := args[1].(VSlice)
		if !ok {
			return unknown, false
		}
		if sl.o != 0 {
			o := st.obj(sl.o)
			n, ok1 := st.cons.subst(sl.len).int64()
			off, ok2 := st.cons.subst(sl.off).int64()
			if o == nil || !ok1 || !ok2 || n > 16 {
				return unknown, false
			}
			for i := int64(0); i < n; i++ {
				ops = append(ops, o.ex[off+i])
			}
		}
	}
	var parts []*Term
	exact := true
	f := fs.s
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, strTerm(f))
			break
		}
		parts = append(parts, strTerm(f[:i]))
		f = f[i+1:]
		if f == "" {
			return unknown, false
		}
		verb := f[0]
		f = f[1:]
		if verb == '%' {
			parts = append(parts, strTerm("%"))
			continue
		}
		if len(ops) == 0 {
			return unknown, false
		}
		v := ops[0]
		ops = ops[1:]
		if iv, ok := v.(VIface); ok {
			v = iv.v
		}
		switch x := v.(type) {
		case VNum:
			if verb == 'd' || verb == 'v' {
				parts = append(parts, fmtInt(st.cons.subst(x.l)))
				continue
			}
			return unknown, false
		case VTerm:
			t := st.normTerm(x.t)
			if isStrTerm(t) && (verb == 's' || verb == 'v') {
				parts = append(parts, t)
				continue
			}
			if verb == 'q' || !isStrTerm(t) {
				parts = append(parts, mk("uf", "quoted", t))
				exact = false
				continue
			}
			return unknown, false
		case VErr:
			if x.t.op == "errglobal" && len(x.t.args) == 1 {
				parts = append(parts, x.t.args[0])
			} else if x.t.op == "errnew" && len(x.t.args) == 1 && x.t.args[0].s == "client" {
				parts = append(parts, symStr("errtext"))
				exact = false
			} else {
				parts = append(parts, mk("uf", "errtext", x.t))
				exact = false
			}
			continue
		}
		return unknown, false
	}
	if len(ops) > 0 {
		return unknown, false
	}
	return concat(parts...), exact
}

func itoa(k int64) string { return big.NewInt(k).String() }

func caseTerm(op string, t *Term) *Term {
	if t.isStr() {
		if op == "lower" {
			return strTerm(strings.ToLower(t.s))
		}
		return strTerm(strings.ToUpper(t.s))
	}
	if t.op == op {
		return t
	}
	return mk(op, "", t)
}

func (e *Engine) parseInt(st *State, res ssa.Value, t *Term, base string, pos token.Pos) []*State {
	e.emit(Ev{kind: "parse", st: st, pos: pos, key: t, s: "int"})
	if t.op == "fmtint" && base == "10" {
		return []*State{e.setRes(st, res, VNum{termLin(t.args[0])}, VIface{})}
	}
	return e.forkErr(st, res, mk("parseok", "i"+base, t),
		func(s *State) []V { return []V{VNum{termLin(iparse(t, base))}, VIface{}} },
		func(s *State) []V {
			a := symInt("badint")
			a.i64 = true
			return []V{VNum{termLin(a)}, newErr("parseint")}
		})
}

func (e *Engine) bufOp(st *State, in ssa.CallInstruction, res ssa.Value, f *ssa.Function, id ObjID, args []V) []*State {
	o := st.mut(id)
	tup := func(n *Lin) []*State {
		rs := f.Signature.Results()
		switch rs.Len() {
		case 2:
			return []*State{e.setRes(st, res, VNum{n}, VIface{})}
		case 1:
			return []*State{e.setRes(st, res, VIface{})}
		}
		return []*State{st}
	}
	add := func(t *Term) {
		o.parts = append(o.parts, t)
	}
	switch f.Name() {
	case "WriteString":
		t := e.strArg(st, args[1])
		add(t)
		return tup(strLen(t))
	case "Write":
		if s, ok := args[1].(VSlice); ok {
			t := bytesTerm(st, s)
			add(t)
			return tup(strLen(t))
		}
		add(symStr("bytes"))
		return tup(termLin(symNat("written")))
	case "WriteByte":
		if n, ok := args[1].(VNum); ok {
			if k, ok := n.l.int64(); ok {
				add(strTerm(string([]byte{byte(k)})))
				return tup(linInt(1))
			}
			add(mk("bytestr", "", mkLin(n.l)))
			return tup(linInt(1))
		}
	case "WriteRune":
		add(symStr("rune"))
		return tup(termLin(symNat("written")))
	case "Grow":
		if n, ok := args[1].(VNum); ok {
			if v, known := st.decide(bLe(n.l.addInt(1))); known && !v {
				return []*State{st}
			} else if known {
				return e.doPanic(st, "make", in.Pos(), "negative count for Grow")
			}
			bad := st.clone()
			var out []*State
			for _, s := range bad.assume(bLe(n.l.addInt(1))) {
				out = append(out, e.doPanic(s, "make", in.Pos(), "count for Grow may be negative")...)
			}
			return append(out, st.assume(bLe(n.l.addInt(1)).not())...)
		}
		return []*State{st}
	case "String":
		return []*State{e.setRes(st, res, VTerm{concat(o.parts...)})}
	case "Bytes":
		t := concat(o.parts...)
		n := st.newObj(kSlice, types.NewSlice(types.Typ[types.Byte]), "bytes", in.Pos())
		n.n, n.srcT = strLen(t), t
		return []*State{e.setRes(st, res, VSlice{n.id, linInt(0), n.n})}
	case "Len":
		return []*State{e.setRes(st, res, VNum{strLen(concat(o.parts...))})}
	case "Reset":
		o.parts = nil
		return []*State{st}
	}
	return e.setFresh(st, res, f.Signature.Results(), f.Name())
}

func (e *Engine) invoke(st *State, in ssa.CallInstruction, res ssa.Value, recv V, m *types.Func, args []V) []*State {
	switch r := recv.(type) {
	case VIface:
		if r.t == nil {
			return e.doPanic(st, "nil", in.Pos(), "method %s of a nil interface", m.Name())
		}
		if f := e.p.SSA.LookupMethod(r.t, m.Pkg(), m.Name()); f != nil {
			return e.callFn(st, in, res, f, append([]V{r.v}, args...), nil)
		}
	case VErr:
		if m.Name() == "Error" {
			if r.t.op == "errsym" {
				if v, known := st.decide(errNil(r.t)); known && v {
					return e.doPanic(st, "nil", in.Pos(), "Error() of a nil error")
				}
			}
			if r.t.op == "errglobal" && len(r.t.args) == 1 {
				return []*State{e.setRes(st, res, VTerm{r.t.args[0]})}
			}
			return []*State{e.setRes(st, res, VTerm{mk("errtext", "", r.t)})}
		}
	case VIfaceSym:
		if r.t.op == "reader" {
			return e.readerOp(st, in, res, r.t, m, args)
		}
		if r.t.op == "glob" {
			return []*State{e.setRes(st, res, VBool{bAtom(mk("globmatch", "", r.t, e.strArg(st, args[0])))})}
		}
	}
	e.emit(Ev{kind: "invoke", st: st, in: in, pos: in.Pos(), s: m.FullName()})
	return e.setFresh(st, res, m.Type().(*types.Signature).Results(), m.Name())
}

// ---------- ordered index as an abstract multiset ----------

// zfind finds out whether member mem is in the index.
func (e *Engine) zfind(st *State, zid ObjID, mem *Term, pos token.Pos) []pres {
	mem = st.normTerm(mem)
	z := st.obj(zid)
	for i, x := range z.zents {
		if st.sameTerm(x.mem, mem) {
			return []pres{{st, x.in, i}}
		}
		if v, known := st.decide(eqTerm(st.normTerm(x.mem), mem)); known && v {
			return []pres{{st, x.in, i}}
		}
	}
	var out []pres
	cur := []*State{st}
	for i := range z.zents {
		var nx []*State
		for _, s := range cur {
			b := eqTerm(s.normTerm(s.obj(zid).zents[i].mem), mem)
			if v, known := s.decide(b); known {
				if v {
					out = append(out, pres{s, s.obj(zid).zents[i].in, i})
				} else {
					nx = append(nx, s)
				}
				continue
			}
			q := s.clone()
			for _, x := range q.assume(b) {
				out = append(out, pres{x, x.obj(zid).zents[i].in, i})
			}
			nx = append(nx, s.assume(b.not())...)
		}
		cur = nx
	}
	for _, s := range cur {
		zz := s.mut(zid)
		if !zz.open {
			zz.zents = append(zz.zents, zent{mem: mem, in: false, in0: false, have: true})
			out = append(out, pres{s, false, len(zz.zents) - 1})
			continue
		}
		// initially the index and the lookup table hold the same members
		if zz.peer != 0 && s.obj(zz.peer) != nil {
			m := s.obj(zz.peer)
			done := false
			for _, en := range m.ents {
				if s.sameTerm(en.key, mem) && en.have {
					zz = s.mut(zid)
					if en.in0 {
						e.zslNode(s, zid, mem, true)
						out = append(out, pres{s, true, len(s.obj(zid).zents) - 1})
					} else {
						zz.zents = append(zz.zents, zent{mem: mem, in: false, in0: false, have: true})
						out = append(out, pres{s, false, len(zz.zents) - 1})
					}
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		p := s.clone()
		pz := p.mut(zid)
		p.cons.addLe(linInt(1).sub(pz.card))
		if !p.cons.bad {
			e.zslNode(p, zid, mem, true)
			out = append(out, pres{p, true, len(p.obj(zid).zents) - 1})
		}
		zz = s.mut(zid)
		zz.zents = append(zz.zents, zent{mem: mem, in: false, in0: false, have: true})
		out = append(out, pres{s, false, len(zz.zents) - 1})
	}
	return out
}

func (e *Engine) zeffect(st *State, zid ObjID, what string, pos token.Pos) {
	z := st.mut(zid)
	z.dirty = true
	if z.home != nil {
		st.effect(e, Effect{what: what, key: z.home.key, obj: zid, pos: pos})
	}
}

func numArgs(vs []V, want func(V) bool) []V {
	var r []V
	for _, v := range vs {
		if want(v) {
			r = append(r, v)
		}
	}
	return r
}

func (e *Engine) zslOp(st *State, in ssa.CallInstruction, res ssa.Value, f *ssa.Function, args []V) ([]*State, bool) {
	r := e.roles
	p, ok := args[0].(VPtr)
	if !ok {
		e.undecided(in.Pos(), st, "ordered index of unknown identity")
		return e.setFresh(st, res, f.Signature.Results(), f.Name()), true
	}
	if p.o == 0 {
		return e.doPanic(st, "nil", in.Pos(), "nil ordered index"), true
	}
	zid := p.o
	z := st.obj(zid)
	if z == nil || z.kind != kZsl {
		return nil, false
	}
	floats, strs := []*Term{}, []*Term{}
	for i, a := range args[1:] {
		t, ok := a.(VTerm)
		if !ok {
			continue
		}
		if isBasic(f.Params[i+1].Type(), types.IsFloat) {
			floats = append(floats, t.t)
		} else {
			strs = append(strs, t.t)
		}
	}
	pos := in.Pos()
	e.zslOps++
	var opens []V
	for i, a := range args[1:] {
		if isBasic(f.Params[i+1].Type(), types.IsBoolean) {
			opens = append(opens, a)
		}
	}
	if len(floats) == 2 && len(opens) >= 2 && len(strs) == 0 {
		for k := 0; k < 2; k++ {
			e.emit(Ev{kind: "zbound", st: st, pos: pos, obj: zid, key: floats[k], v: opens[k], l: linInt(int64(k))})
		}
	}
	switch f.Name() {
	case "insert":
		if len(floats) != 1 || len(strs) != 1 {
			break
		}
		var out []*State
		for _, q := range e.zfind(st, zid, strs[0], pos) {
			s := q.st
			e.emit(Ev{kind: "zinsert", st: s, pos: pos, key: strs[0], obj: zid, v: VTerm{floats[0]}})
			if q.in {
				e.emit(Ev{kind: "zdup", st: s, pos: pos, key: strs[0], obj: zid})
			}
			n := s.newObj(kStruct, r.znodeT, "znode", pos)
			n.f[r.znVal] = VTerm{strs[0]}
			n.f[r.znScore] = VTerm{floats[0]}
			n.home = s.obj(zid).home
			zz := s.mut(zid)
			zz.zents[q.idx].in, zz.zents[q.idx].node = true, n.id
			zz.zents[q.idx].mod = true
			zz.card = zz.card.addInt(1)
			e.zeffect(s, zid, "index insert", pos)
			out = append(out, e.setRes(s, res, VPtr{o: n.id}))
		}
		return out, true
	case "delete":
		if len(floats) != 1 || len(strs) != 1 {
			break
		}
		var out []*State
		for _, q := range e.zfind(st, zid, strs[0], pos) {
			s := q.st
			if !q.in {
				out = append(out, e.setRes(s, res, VNum{linInt(0)}))
				continue
			}
			node := s.obj(zid).zents[q.idx].node
			sc, _ := s.obj(node).f[r.znScore].(VTerm)
			b := eqTerm(s.normTerm(sc.t), s.normTerm(floats[0]))
			del := func(x *State) {
				zz := x.mut(zid)
				zz.zents[q.idx].in = false
				zz.zents[q.idx].mod = true
				zz.card = zz.card.addInt(-1)
				e.zeffect(x, zid, "index delete", pos)
				for i, a := range args {
					if i > 0 {
						if np, ok := a.(VPtr); ok && np.o != 0 {
							e.store(x, np, VPtr{o: node}, nil, pos)
						}
					}
				}
				out = append(out, e.setRes(x, res, VNum{linInt(1)}))
			}
			if v, known := s.decide(b); known && v {
				del(s)
				continue
			}
			q2 := s.clone()
			for _, x := range s.assume(b) {
				del(x)
			}
			for _, x := range q2.assume(b.not()) {
				out = append(out, e.setRes(x, res, VNum{linInt(0)}))
			}
		}
		return out, true
	case "updateScore":
		if len(floats) != 2 || len(strs) != 1 {
			break
		}
		var out []*State
		for _, q := range e.zfind(st, zid, strs[0], pos) {
			s := q.st
			if !q.in {
				out = append(out, e.setRes(s, res, VPtr{}))
				continue
			}
			node := s.obj(zid).zents[q.idx].node
			sc, _ := s.obj(node).f[r.znScore].(VTerm)
			b := eqTerm(s.normTerm(sc.t), s.normTerm(floats[0]))
			upd := func(x *State) {
				e.emit(Ev{kind: "zinsert", st: x, pos: pos, key: strs[0], obj: zid, v: VTerm{floats[1]}})
				y := x.clone()
				// the node stays where it is
				x.mut(node).f[r.znScore] = VTerm{floats[1]}
				x.mut(zid).zents[q.idx].mod = true
				e.zeffect(x, zid, "index rescore", pos)
				out = append(out, e.setRes(x, res, VPtr{o: node}))
				// or is replaced
				n := y.newObj(kStruct, r.znodeT, "znode", pos)
				n.f[r.znVal] = VTerm{strs[0]}
				n.f[r.znScore] = VTerm{floats[1]}
				n.home = y.obj(zid).home
				y.mut(zid).zents[q.idx].node = n.id
				y.mut(zid).zents[q.idx].mod = true
				e.zeffect(y, zid, "index rescore", pos)
				out = append(out, e.setRes(y, res, VPtr{o: n.id}))
			}
			if v, known := s.decide(b); known && v {
				upd(s)
				continue
			}
			q2 := s.clone()
			for _, x := range s.assume(b) {
				upd(x)
			}
			for _, x := range q2.assume(b.not()) {
				out = append(out, e.setRes(x, res, VPtr{}))
			}
		}
		return out, true
	case "findElementByRank":
		if len(args) == 2 {
			if n, ok := args[1].(VNum); ok {
				var out []*State
				lo, hi := bLe(linInt(1).sub(n.l)), bLe(n.l.sub(z.card))
				cur := []*State{st}
				for _, c := range []*B{lo, hi} {
					var nx []*State
					for _, s := range cur {
						o := s.clone()
						for _, x := range o.assume(c.not()) {
							e.emit(Ev{kind: "rank-miss", st: x, pos: pos, obj: zid, l: n.l, s: map[bool]string{true: "low", false: "high"}[c == lo]})
							out = append(out, e.setRes(x, res, VPtr{}))
						}
						nx = append(nx, s.assume(c)...)
					}
					cur = nx
				}
				for _, s := range cur {
					k := symStr("zmem")
					zz := s.obj(zid)
					for _, x := range zz.zents {
						if !x.in {
							if b := eqTerm(s.normTerm(x.mem), k); b.k == 'a' {
								s.setFact(b.t, false)
							}
						}
					}
					s.mut(zid)
					nid := e.zslNode(s, zid, k, true)
					out = append(out, e.setRes(s, res, VPtr{o: nid}))
				}
				return out, true
			}
		}
	case "rank":
		n := symNat("rank")
		st.cons.addLe(termLin(n).sub(z.card))
		return []*State{e.setRes(st, res, VNum{termLin(n)})}, true
	case "count":
		n := symNat("count")
		st.cons.addLe(termLin(n).sub(z.card))
		return []*State{e.setRes(st, res, VNum{termLin(n)})}, true
	}
	if r.pureZsl(f) {
		return e.setFresh(st, res, f.Signature.Results(), f.Name()), true
	}
	e.undecided(in.Pos(), st, "operation %s changes the ordered index in a way that is not modelled", fnName(f))
	return e.setFresh(st, res, f.Signature.Results(), f.Name()), true
}
