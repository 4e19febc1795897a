package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Issue is something the analysis could not follow, or a rule hit found while executing.
type Issue struct {
	kind  string
	pos   token.Pos
	msg   string
	trail []string
}

type Engine struct {
	p                                                      *Prog
	issues                                                 []Issue
	steps                                                  int
	maxStep                                                int
	roles                                                  *Roles
	onCall                                                 func(e *Engine, st *State, in ssa.CallInstruction, fn *ssa.Function, args []V) ([]*State, bool)
	loopSeq                                                int
	loopHook                                               func(st *State, l *Loop)
	visitedFns                                             map[*ssa.Function]bool
	callSites                                              int
	branches                                               int
	loopsRun                                               int
	depth                                                  int
	aborted, vagueAll                                      bool
	overflow                                               bool // fork on int64 overflow
	peeling                                                int
	sharedStack                                            []map[*Term]bool
	onEvent                                                func(Ev)
	boundsSeen, assertsSeen, materialised, zslOps, effects int
	shardPat                                               map[*Term]token.Pos
	onCallback                                             func(e *Engine, st *State, in ssa.CallInstruction, res ssa.Value, args []V) []*State
	debug, debugKey, noPeel                                bool
	epochSeq                                               int
	recHook                                                func(e *Engine, st *State, in ssa.CallInstruction, fn *ssa.Function, args []V) []*State
}

func newEngine(p *Prog, r *Roles) *Engine {
	return &Engine{p: p, roles: r, maxStep: 400000, visitedFns: map[*ssa.Function]bool{}}
}

func (e *Engine) issue(kind string, pos token.Pos, st *State, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, i := range e.issues {
		if i.kind == kind && i.pos == pos && i.msg == m {
			return
		}
	}
	is := Issue{kind: kind, pos: pos, msg: m}
	if st != nil {
		is.trail = append([]string(nil), st.choices...)
	}
	e.issues = append(e.issues, is)
}

func (e *Engine) undecided(pos token.Pos, st *State, f string, a ...interface{}) {
	e.issue("undecided", pos, st, f, a...)
	if st != nil {
		st.vague = true
	}
}

type item struct {
	st *State
	b  *ssa.BasicBlock
}

// call runs fn to completion. Result states have the callee frame popped and
// ret set, or panic set.
func (e *Engine) call(st *State, fn *ssa.Function, args []V, bind []V, in ssa.Instruction) []*State {
	if len(fn.Blocks) == 0 {
		e.undecided(fn.Pos(), st, "call of %s without a body", fnName(fn))
		return nil
	}
	e.visitedFns[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]V{}, call: in}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			fr.env[fv] = bind[i]
		}
	}
	st.frames = append(st.frames, fr)
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 60 {
		e.undecided(fn.Pos(), st, "call depth exceeded at %s", fnName(fn))
		return nil
	}
	_, _, rets := e.region([]item{{st, fn.Blocks[0]}}, nil)
	return rets
}

func (e *Engine) region(items []item, lp *Loop) (backs []*State, exits []item, rets []*State) {
	for len(items) > 0 {
		it := items[len(items)-1]
		items = items[:len(items)-1]
		if e.aborted {
			return
		}
		outs, rs := e.block(it.st, it.b)
		rets = append(rets, rs...)
		var pending []item
		for _, o := range outs {
			pending = append(pending, o)
		}
		for len(pending) > 0 {
			o := pending[0]
			pending = pending[1:]
			if lp != nil && o.b == lp.header {
				backs = append(backs, o.st)
				continue
			}
			if lp != nil && !lp.in[o.b] {
				exits = append(exits, o)
				continue
			}
			if inner := info(o.b.Parent()).loops[o.b]; inner != nil && (lp == nil || inner != lp) {
				ex, r := e.loop(o.st, inner)
				rets = append(rets, r...)
				pending = append(pending, ex...)
				continue
			}
			items = append(items, o)
		}
	}
	return
}

// edge moves st from block b to succ, evaluating phis.
func (e *Engine) edge(st *State, b, to *ssa.BasicBlock) item {
	pi := -1
	for i, p := range to.Preds {
		if p == b {
			pi = i
			break
		}
	}
	fr := st.top()
	var vals []V
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(st, ph.Edges[pi]))
	}
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
	return item{st, to}
}

type cursor struct {
	st *State
	i  int
}

func (e *Engine) block(st *State, b *ssa.BasicBlock) (outs []item, rets []*State) {
	work := []cursor{{st, 0}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		st := c.st
	instrs:
		for i := c.i; i < len(b.Instrs); i++ {
			e.steps++
			if e.steps > e.maxStep {
				if !e.aborted {
					e.undecided(b.Instrs[i].Pos(), st, "analysis budget exceeded in %s", fnName(b.Parent()))
				}
				e.aborted = true
				return
			}
			in := b.Instrs[i]
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				outs = append(outs, e.edge(st, b, b.Succs[0]))
				break instrs
			case *ssa.If:
				e.branches++
				cv := e.val(st, in.Cond)
				var bb *B
				if vb, ok := cv.(VBool); ok {
					bb = vb.b
				} else {
					bb = bAtom(fresh("bsym", "cond"))
				}
				if v, known := st.decide(bb); known {
					to := b.Succs[1]
					if v {
						to = b.Succs[0]
					}
					// make the decided fact explicit for linear conditions is not needed
					outs = append(outs, e.edge(st, b, to))
					break instrs
				}
				el := st.clone()
				for _, s := range st.assume(bb) {
					s.choose("%s: %s", e.p.pos(condPos(in)), bb.String())
					outs = append(outs, e.edge(s, b, b.Succs[0]))
				}
				for _, s := range el.assume(bb.not()) {
					s.choose("%s: not %s", e.p.pos(condPos(in)), bb.String())
					outs = append(outs, e.edge(s, b, b.Succs[1]))
				}
				break instrs
			case *ssa.Return:
				var r []V
				for _, x := range in.Results {
					r = append(r, e.val(st, x))
				}
				st.ret = r
				st.frames = st.frames[:len(st.frames)-1]
				rets = append(rets, st)
				break instrs
			case *ssa.Panic:
				rets = append(rets, e.doPanic(st, "explicit", in.Pos(), "explicit panic")...)
				break instrs
			default:
				ns := e.step(st, in)
				for k, n := range ns {
					if n.panic != nil {
						rets = append(rets, n)
						continue
					}
					if k == len(ns)-1 && n == st {
						continue
					}
					if k == len(ns)-1 && i+1 <= len(b.Instrs) && n != st {
						work = append(work, cursor{n, i + 1})
						continue
					}
					work = append(work, cursor{n, i + 1})
				}
				if len(ns) > 0 && ns[len(ns)-1] == st && st.panic == nil {
					continue
				}
				break instrs
			}
		}
	}
	return
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	for _, x := range in.Block().Instrs {
		if x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return in.Pos()
}

// doPanic ends the state: every frame is unwound.
func (e *Engine) doPanic(st *State, kind string, pos token.Pos, f string, a ...interface{}) []*State {
	st.panic = &PanicInfo{kind, pos, fmt.Sprintf(f, a...)}
	if len(st.frames) > 0 {
		st.frames = st.frames[:len(st.frames)-1]
	}
	return []*State{st}
}

// val evaluates an SSA operand.
func (e *Engine) val(st *State, v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constV(v.Type(), v.Value)
	case *ssa.Global:
		return VPtr{o: e.globalCell(st, v)}
	case *ssa.Function:
		return VFunc{f: v}
	case *ssa.Builtin:
		return VFunc{f: v}
	}
	if x, ok := st.top().env[v]; ok {
		return x
	}
	return VAny{"undefined " + v.Name()}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Engine) constV(t types.Type, c constant.Value) V {
	if c == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{bConst(constant.BoolVal(c))}
		case u.Info()&types.IsString != 0:
			return VTerm{strTerm(constant.StringVal(c))}
		case u.Info()&types.IsInteger != 0:
			r := new(big.Rat)
			if i, ok := new(big.Int).SetString(c.ExactString(), 10); ok {
				r.SetInt(i)
			}
			return VNum{linConst(r)}
		case u.Info()&types.IsFloat != 0:
			return VTerm{mk("fconst", c.ExactString())}
		}
	case *types.Interface:
		return VIface{}
	}
	return VAny{"const " + c.String()}
}

// zero value of a type
func (e *Engine) zero(t types.Type) V {
	if e.roles.isSmap(t) {
		return VMap{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{bFalse}
		case u.Info()&types.IsString != 0:
			return VTerm{strTerm("")}
		case u.Info()&types.IsInteger != 0:
			return VNum{linInt(0)}
		case u.Info()&types.IsFloat != 0:
			return VTerm{mk("fconst", "0")}
		case u.Kind() == types.UnsafePointer:
			return VPtr{}
		case u.Kind() == types.UntypedNil:
			return VPtr{}
		}
	case *types.Pointer:
		return VPtr{}
	case *types.Slice:
		return VSlice{off: linInt(0), len: linInt(0)}
	case *types.Map:
		return VMap{}
	case *types.Interface:
		return VIface{}
	case *types.Signature:
		return VFunc{}
	case *types.Struct:
		f := map[string]V{}
		for i := 0; i < u.NumFields(); i++ {
			f[u.Field(i).Name()] = e.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Chan:
		return VAny{"chan"}
	case *types.Array:
		return VAny{"array"}
	case *types.Tuple:
		r := VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.e = append(r.e, e.zero(u.At(i).Type()))
		}
		return r
	}
	return VAny{"zero " + t.String()}
}

// freshOf makes an unconstrained value of a type.
func (e *Engine) freshOf(st *State, t types.Type, name string) V {
	if isErrorType(t) {
		return VErr{fresh("errsym", name)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{bAtom(fresh("bsym", name))}
		case u.Info()&types.IsString != 0:
			return VTerm{symStr(name)}
		case u.Info()&types.IsInteger != 0:
			a := symInt(name)
			setIntRange(a, u)
			return VNum{termLin(a)}
		case u.Info()&types.IsFloat != 0:
			return VTerm{symFlt(name)}
		}
	case *types.Interface:
		return VIfaceSym{fresh("iface", name)}
	case *types.Slice:
		o := st.newObj(kSlice, t, "fresh:"+name, token.NoPos)
		n := symNat("len " + name)
		o.n = termLin(n)
		o.tmpl = []tmplEl{{v: VAny{"element of " + name}}}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			o.tmpl = []tmplEl{{v: VTerm{mk("ssym", "$e elem "+name)}}}
		}
		return VSlice{o.id, linInt(0), termLin(n)}
	case *types.Tuple:
		r := VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.e = append(r.e, e.freshOf(st, u.At(i).Type(), name))
		}
		return r
	}
	return VAny{name}
}

func setIntRange(a *Term, u *types.Basic) {
	switch u.Kind() {
	case types.Uint8:
		a.lo, a.hi = big.NewRat(0, 1), big.NewRat(255, 1)
	case types.Uint, types.Uint32, types.Uint64, types.Uint16, types.Uintptr:
		a.nonneg = true
	case types.Int64:
		a.i64 = true
	}
}

// ---------- memory ----------

func joinPath(p, f string) string {
	if p == "" {
		return f
	}
	return p + "." + f
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// load reads a cell. Several states result when the content must be split.
func (e *Engine) load(st *State, pv V, t types.Type, in ssa.Instruction) []*State {
	set := func(s *State, v V) *State {
		s.top().env[in.(ssa.Value)] = v
		return s
	}
	p, ok := pv.(VPtr)
	if !ok {
		return []*State{set(st, e.freshOf(st, t, "load"))}
	}
	if p.o == 0 {
		return e.doPanic(st, "nil", in.Pos(), "nil pointer dereference")
	}
	o := st.obj(p.o)
	if o == nil {
		return []*State{set(st, VAny{"freed"})}
	}
	switch o.kind {
	case kMap:
		switch p.path {
		case "shard":
			return []*State{set(st, VShard{o.id, mkLin(p.idx)})}
		case "items":
			return []*State{set(st, VMapView{o.id, mkLin(p.idx)})}
		}
	case kZsl:
		if p.path == e.roles.zslLen {
			return []*State{set(st, VNum{o.card})}
		}
		if ptrTo(t, e.roles.znodeT) {
			return e.indexEnd(st, in, o.id, p.path, set)
		}
		return []*State{set(st, VAny{"index internals: " + p.path})}
	case kSlice:
		if p.idx != nil {
			return e.elemAt(st, o.id, p.idx, p.path, t, in)
		}
		// whole array load
		return []*State{set(st, VAny{"array value"})}
	}
	if st2, ok := t.Underlying().(*types.Struct); ok && !e.roles.opaqueStruct(t) {
		f := map[string]V{}
		for i := 0; i < st2.NumFields(); i++ {
			n := st2.Field(i).Name()
			if v, ok := o.f[joinPath(p.path, n)]; ok {
				f[n] = v
			} else {
				f[n] = e.zero(st2.Field(i).Type())
			}
		}
		return []*State{set(st, VStruct{f})}
	}
	v, ok := o.f[p.path]
	if !ok {
		if o.sum || o.home != nil || o.site == "global" {
			v = e.freshOf(st, t, o.site+"."+p.path)
		} else {
			v = e.zero(t)
		}
		st.mut(o.id).f[p.path] = v
	}
	return []*State{set(st, v)}
}

// indexEnd is a node read from the ordered index itself: the last one, or one this analysis does not follow.
func (e *Engine) indexEnd(st *State, in ssa.Instruction, zid ObjID, path string, set func(*State, V) *State) []*State {
	if path != "tail" {
		e.undecided(in.Pos(), st, "a command reads the ordered index directly: %s", path)
		return []*State{set(st, VAny{"index internals: " + path})}
	}
	var out []*State
	some := bLe(linInt(1).sub(st.obj(zid).card))
	o := st.clone()
	for _, x := range o.assume(some.not()) {
		out = append(out, set(x, VPtr{}))
	}
	for _, s := range st.assume(some) {
		k := symStr("zmem")
		for _, x := range s.obj(zid).zents {
			if !x.in {
				if b := eqTerm(s.normTerm(x.mem), k); b.k == 'a' {
					s.setFact(b.t, false)
				}
			}
		}
		s.mut(zid)
		out = append(out, set(s, VPtr{o: e.zslNode(s, zid, k, true)}))
	}
	return out
}

// store writes a cell.
func (e *Engine) store(st *State, pv V, v V, t types.Type, pos token.Pos) []*State {
	p, ok := pv.(VPtr)
	if !ok {
		return []*State{st}
	}
	if p.o == 0 {
		return e.doPanic(st, "nil", pos, "nil pointer dereference")
	}
	o := st.mut(p.o)
	if o == nil {
		return []*State{st}
	}
	switch o.kind {
	case kMap:
		if p.path == "shard" {
			e.emit(Ev{kind: "shard-init", st: st, pos: pos, obj: o.id, l: p.idx, v: v})
			if o.inits != nil {
				o.walked(st, p.idx)
			}
			return []*State{st}
		}
		st.note(Note{kind: "shard-write", pos: pos, obj: o.id})
		return []*State{st}
	case kZsl:
		if p.path == e.roles.zslLen {
			if n, ok := v.(VNum); ok {
				o.card = n.l
			}
			st.note(Note{kind: "zsl-length-write", pos: pos, obj: o.id})
		}
		return []*State{st}
	case kSlice:
		if p.idx != nil {
			e.setElem(st, o.id, p.idx, p.path, v)
			if o.home != nil {
				st.effect(e, Effect{what: "slice element", key: o.home.key, obj: o.id, pos: pos})
			}
			return []*State{st}
		}
		if _, ok := v.(VAny); ok {
			return []*State{st}
		}
		return []*State{st}
	}
	if sv, ok := v.(VStruct); ok {
		for k, x := range sv.f {
			o.f[joinPath(p.path, k)] = x
		}
	} else {
		o.f[p.path] = v
	}
	e.adopt(st, o)
	if sameNamed(o.typ, e.roles.nodeT) {
		nv, whole := v, p.path == e.roles.nodeVal
		if sv, ok := v.(VStruct); ok && p.path == "" {
			nv, whole = sv.f[e.roles.nodeVal], true
		}
		if whole {
			e.emit(Ev{kind: "nodeval", st: st, pos: pos, obj: o.id, v: nv})
		}
	}
	if o.site == "global" {
		st.note(Note{kind: "global-write", pos: pos, obj: o.id})
	}
	if o.home != nil {
		st.effect(e, Effect{what: "field " + p.path, key: o.home.key, obj: o.id, pos: pos})
	}
	st.note(Note{kind: "store", pos: pos, obj: o.id, s: p.path, v: v})
	return []*State{st}
}

var jVar = mk("jvar", "$j")

// elemAt reads element idx of a backing store.
func (e *Engine) elemAt(st *State, id ObjID, idx *Lin, path string, t types.Type, in ssa.Instruction) []*State {
	set := func(s *State, v V) *State {
		if path != "" {
			if sv, ok := v.(VStruct); ok {
				v = sv.f[path]
			}
		}
		s.top().env[in.(ssa.Value)] = v
		return s
	}
	o := st.obj(id)
	if o.args {
		a := mk("arg", "", mkLin(st.cons.subst(idx)))
		st.note(Note{kind: "argread", pos: in.Pos(), t: []*Term{a}, l: []*Lin{idx}})
		return []*State{set(st, VTerm{a})}
	}
	if o.srcT != nil {
		a := mk("byteat", "", o.srcT, mkLin(st.cons.subst(idx)))
		a.lo, a.hi = big.NewRat(0, 1), big.NewRat(255, 1)
		return []*State{set(st, VNum{termLin(a)})}
	}
	idx = st.cons.subst(idx)
	if c, ok := idx.int64(); ok {
		if v, ok := o.ex[c]; ok {
			return []*State{set(st, v)}
		}
	}
	for i := len(o.pend) - 1; i >= 0; i-- {
		if st.cons.entailsEq(o.pend[i].idx.sub(idx)) {
			return []*State{set(st, o.pend[i].v)}
		}
		if !st.cons.excludesEq(o.pend[i].idx.sub(idx)) {
			break
		}
	}
	var out []*State
	done := map[string]bool{}
	alt := func(s *State, v V) {
		out = append(out, set(s, v))
	}
	// possibly one of the exactly known elements
	exs := make([]int64, 0, len(o.ex))
	for k := range o.ex {
		exs = append(exs, k)
	}
	sortInt64(exs)
	for _, k := range exs {
		if st.cons.excludesEq(idx.addInt(-k)) {
			continue
		}
		s := st.clone()
		s.cons.addEq(idx.addInt(-k))
		if s.cons.bad {
			continue
		}
		alt(s, o.ex[k])
	}
	for _, p := range o.pend {
		if st.cons.excludesEq(idx.sub(p.idx)) {
			continue
		}
		s := st.clone()
		s.cons.addEq(idx.sub(p.idx))
		if s.cons.bad {
			continue
		}
		alt(s, p.v)
	}
	for _, tv := range o.tmpl {
		if tv.at != nil && st.cons.excludesEq(idx.addInt(-*tv.at)) {
			continue
		}
		k := showV(tv.v)
		if done[k] {
			continue
		}
		done[k] = true
		s := st.clone()
		if tv.at != nil {
			s.cons.addEq(idx.addInt(-*tv.at))
			if s.cons.bad {
				continue
			}
		}
		alt(s, e.instantiate(s, tv.v, idx))
	}
	if len(o.tmpl) == 0 && (o.zero != nil) && !allExact(o) {
		s := st.clone()
		alt(s, o.zero)
	}
	if len(out) == 0 {
		if o.zero != nil {
			return []*State{set(st, o.zero)}
		}
		return []*State{set(st, e.freshOf(st, t, "elem"))}
	}
	return out
}

func allExact(o *Obj) bool {
	n, ok := o.n.int64()
	return ok && int64(len(o.ex)) == n
}

func sortInt64(a []int64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (e *Engine) setElem(st *State, id ObjID, idx *Lin, path string, v V) {
	o := st.mut(id)
	idx = st.cons.subst(idx)
	if path != "" {
		return
	}
	if c, ok := idx.int64(); ok {
		if o.ex == nil {
			o.ex = map[int64]V{}
		}
		o.ex[c] = v
		return
	}
	for i := range o.pend {
		if st.cons.entailsEq(o.pend[i].idx.sub(idx)) {
			o.pend[i].v = v
			return
		}
	}
	// elements that may be the one written are no longer exactly known
	for _, k := range sortedExKeys(o.ex) {
		if !st.cons.excludesEq(idx.addInt(-k)) {
			kk := k
			o.tmpl = addTmpl(o.tmpl, tmplEl{v: o.ex[k], at: &kk})
			delete(o.ex, k)
		}
	}
	o.pend = append(o.pend, pendEl{idx, v})
}

// instantiate turns a template value into the value at index idx, with fresh
// symbols for its existential atoms.
func (e *Engine) instantiate(st *State, tv V, idx *Lin) V {
	sb := newSubst()
	if idx != nil {
		sb.m[jVar] = VNum{idx}
	}
	cp := map[ObjID]ObjID{}
	return e.instV(st, tv, sb, cp)
}

func (e *Engine) exTerm(t *Term, sb *subst) {
	t.walk(func(x *Term) {
		if strings.HasPrefix(x.s, "$e") {
			if _, ok := sb.m[x]; !ok {
				if x.op == "isym" {
					n := fresh("isym", "ex")
					n.nonneg, n.i64 = x.nonneg, x.i64
					sb.m[x] = VNum{termLin(n)}
				} else {
					sb.m[x] = VTerm{fresh(x.op, "ex")}
				}
			}
		}
	})
}

func (e *Engine) instV(st *State, v V, sb *subst, cp map[ObjID]ObjID) V {
	switch x := v.(type) {
	case VNum:
		for _, m := range x.l.t {
			e.exTerm(m.a, sb)
		}
		return VNum{sb.linear(x.l)}
	case VTerm:
		e.exTerm(x.t, sb)
		t := sb.term(x.t)
		if t.op == "fnn" {
			t = t.args[0]
			st.setFact(mk("isnan", "", st.normTerm(t)), false)
		}
		return VTerm{t}
	case VErr:
		e.exTerm(x.t, sb)
		return VErr{sb.term(x.t)}
	case VIfaceSym:
		e.exTerm(x.t, sb)
		return VIfaceSym{sb.term(x.t)}
	case VBool:
		return x
	case VIface:
		if x.t == nil {
			return x
		}
		return VIface{x.t, e.instV(st, x.v, sb, cp)}
	case VSum:
		n := st.newObj(kStruct, x.typ, x.site, x.pos)
		for _, k := range sortedKeys(x.f) {
			fv := e.instV(st, x.f[k], sb, cp)
			st.mut(n.id).f[k] = fv
		}
		return VPtr{o: n.id}
	case VStruct:
		f := map[string]V{}
		for _, k := range sortedKeys(x.f) {
			f[k] = e.instV(st, x.f[k], sb, cp)
		}
		return VStruct{f}
	}
	return v
}

// adopt pairs the empty lookup table and the empty ordered index of a new sorted set.
func (e *Engine) adopt(st *State, o *Obj) {
	r := e.roles
	if o.home != nil || o.typ == nil || !sameNamed(o.typ, r.zsetT) {
		return
	}
	mv, ok1 := o.f[r.zsMap].(VMap)
	zv, ok2 := o.f[r.zsIdx].(VPtr)
	if !ok1 || !ok2 || mv.o == 0 || zv.o == 0 || zv.path != "" {
		return
	}
	m, z := st.obj(mv.o), st.obj(zv.o)
	if m == nil || z == nil || m.kind != kMap || z.kind != kZsl || m.class != "" || !m.smap || m.open || z.open || m.home != nil || len(m.ents) > 0 || len(z.zents) > 0 {
		return
	}
	m, z = st.mut(mv.o), st.mut(zv.o)
	m.class = "zdict"
	m.peer, z.peer = z.id, m.id
	nm := mk("newtbl", fmt.Sprintf("%d", m.id))
	m.list, z.list = nm, nm
}
