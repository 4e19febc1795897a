package main

import (
	"golang.org/x/tools/go/ssa"
)

// Doubly linked lists. A kSeg object stands for len >= 1 consecutive nodes that
// are linked both ways; prev and next are the links of its two ends. A pointer
// to one of its nodes is VPtr{seg, idx}.

// focus splits a segment so that the node at idx becomes an object of its own.
// Every pointer into the segment is redirected.
func (e *Engine) focus(st *State, seg ObjID, idx *Lin) []*State {
	if idx == nil {
		idx = linInt(0)
	}
	var out []*State
	cases := func(s *State, b *B) (yes, no []*State) {
		if v, known := s.decide(b); known {
			if v {
				return []*State{s}, nil
			}
			return nil, []*State{s}
		}
		o := s.clone()
		return s.assume(b), o.assume(b.not())
	}
	ln := st.obj(seg).len
	first, rest := cases(st, bEq(idx))
	fin := func(ss []*State, head bool) {
		for _, s := range ss {
			last, mid := cases(s, bEq(idx.sub(ln).addInt(1)))
			for _, x := range last {
				out = append(out, e.splitSeg(x, seg, idx, head, true)...)
			}
			for _, x := range mid {
				out = append(out, e.splitSeg(x, seg, idx, head, false)...)
			}
		}
	}
	fin(first, true)
	fin(rest, false)
	return out
}

func (e *Engine) segVal(o *Obj, i *Lin) V {
	if o.list != nil && o.at != nil {
		return VTerm{mk("elem", "", o.list, mkLin(o.at.add(i)))}
	}
	return VTerm{symStr("nodeval")}
}

func (e *Engine) splitSeg(st *State, seg ObjID, idx *Lin, head, tail bool) []*State {
	r := e.roles
	o := st.obj(seg)
	if !head {
		st.cons.addLe(linInt(1).sub(idx))
	}
	if !tail {
		st.cons.addLe(idx.addInt(2).sub(o.len))
	}
	if st.cons.bad {
		return nil
	}
	n := st.newObj(kStruct, o.typ, "node", o.pos)
	n.home, n.list, n.fresh = o.home, o.list, o.fresh
	if o.at != nil {
		n.at = st.cons.subst(o.at.add(idx))
	}
	v := e.segVal(o, st.cons.subst(idx))
	if t, ok := v.(VTerm); ok {
		v = VTerm{st.normTerm(t.t)}
	}
	n.f[r.nodeVal] = v
	var L, R *Obj
	if !head {
		L = st.newObj(kSeg, o.typ, o.site, o.pos)
		L.home, L.list, L.fresh, L.len, L.at, L.prev = o.home, o.list, o.fresh, st.cons.subst(idx), o.at, o.prev
		L.next = VPtr{o: n.id}
		n.f[r.nodePrev] = VPtr{o: L.id, idx: L.len.addInt(-1)}
	} else {
		n.f[r.nodePrev] = o.prev
	}
	if !tail {
		R = st.newObj(kSeg, o.typ, o.site, o.pos)
		R.home, R.list, R.fresh, R.len, R.next = o.home, o.list, o.fresh, st.cons.subst(o.len.sub(idx).addInt(-1)), o.next
		if o.at != nil {
			R.at = st.cons.subst(o.at.add(idx).addInt(1))
		}
		R.prev = VPtr{o: n.id}
		n.f[r.nodeNext] = VPtr{o: R.id, idx: linInt(0)}
	} else {
		n.f[r.nodeNext] = o.next
	}
	delete(st.heap, seg)
	// redirect pointers
	cur := []*State{st}
	var ptrs []*Lin
	seen := map[string]bool{}
	st.mapValues(deep(func(v V) V {
		if p, ok := v.(VPtr); ok && p.o == seg {
			i := p.idx
			if i == nil {
				i = linInt(0)
			}
			if !seen[i.key()] {
				seen[i.key()] = true
				ptrs = append(ptrs, i)
			}
		}
		return v
	}))
	for _, p := range ptrs {
		var nx []*State
		for _, s := range cur {
			redirect := func(x *State, f func(VPtr) V) {
				k := p.key()
				x.mapValues(deep(func(v V) V {
					if q, ok := v.(VPtr); ok && q.o == seg {
						i := q.idx
						if i == nil {
							i = linInt(0)
						}
						if i.key() == k {
							return f(q)
						}
					}
					return v
				}))
				nx = append(nx, x)
			}
			try := func(x *State, b []*B, f func(VPtr) V) {
				cs := []*State{x}
				for _, c := range b {
					var n2 []*State
					for _, y := range cs {
						n2 = append(n2, y.assume(c)...)
					}
					cs = n2
				}
				for _, y := range cs {
					redirect(y, f)
				}
			}
			try(s.clone(), []*B{bEq(p.sub(idx))}, func(q VPtr) V { return VPtr{o: n.id, path: q.path} })
			if L != nil {
				try(s.clone(), []*B{bLe(p.sub(idx).addInt(1))}, func(q VPtr) V { return VPtr{o: L.id, path: q.path, idx: p} })
			}
			if R != nil {
				try(s.clone(), []*B{bLe(idx.sub(p).addInt(1))}, func(q VPtr) V {
					return VPtr{o: R.id, path: q.path, idx: s.cons.subst(p.sub(idx).addInt(-1))}
				})
			}
		}
		cur = nx
	}
	return cur
}

// deep applies f to a value and the values inside it.
func deep(f func(V) V) func(V) V {
	var g func(V) V
	g = func(v V) V {
		switch x := v.(type) {
		case VIface:
			if x.t != nil {
				if n := g(x.v); !sameV(n, x.v) {
					return VIface{x.t, n}
				}
			}
			return v
		case VTuple:
			var n []V
			for i, y := range x.e {
				z := g(y)
				if !sameV(z, y) && n == nil {
					n = append([]V(nil), x.e...)
				}
				if n != nil {
					n[i] = z
				}
			}
			if n != nil {
				return VTuple{n}
			}
			return v
		case VFunc:
			var n []V
			for i, y := range x.b {
				z := g(y)
				if !sameV(z, y) && n == nil {
					n = append([]V(nil), x.b...)
				}
				if n != nil {
					n[i] = z
				}
			}
			if n != nil {
				x.b = n
				return x
			}
			return v
		}
		return f(v)
	}
	return g
}

// unitLen and friends describe a segment or a single node.
func (e *Engine) unit(o *Obj) bool {
	return o != nil && (o.kind == kSeg || (o.kind == kStruct && sameNamed(o.typ, e.roles.nodeT)))
}

func unitLen(o *Obj) *Lin {
	if o.kind == kSeg {
		return o.len
	}
	return linInt(1)
}

func (e *Engine) unitNext(o *Obj) (VPtr, bool) {
	var v V
	if o.kind == kSeg {
		v = o.next
	} else {
		v = o.f[e.roles.nodeNext]
	}
	p, ok := v.(VPtr)
	return p, ok
}

func (e *Engine) unitPrev(o *Obj) (VPtr, bool) {
	var v V
	if o.kind == kSeg {
		v = o.prev
	} else {
		v = o.f[e.roles.nodePrev]
	}
	p, ok := v.(VPtr)
	return p, ok
}

// follows: u.next is the first node of w and w.prev is the last node of u.
func (e *Engine) follows(st *State, u, w *Obj) bool {
	n, ok1 := e.unitNext(u)
	p, ok2 := e.unitPrev(w)
	if !ok1 || !ok2 || n.o != w.id || p.o != u.id {
		return false
	}
	if w.kind == kSeg && (n.idx == nil || !st.cons.entailsEq(n.idx)) {
		return false
	}
	if u.kind == kSeg && (p.idx == nil || !st.cons.entailsEq(p.idx.sub(u.len).addInt(1))) {
		return false
	}
	return true
}

// foldLists merges neighbouring units of linked lists into segments.
func (e *Engine) foldLists(st *State, keep func(a, b *Obj) bool) {
	r := e.roles
	for {
		ids := sortedIDs(st)
		merged := false
		for _, id := range ids {
			u := st.obj(id)
			if !e.unit(u) {
				continue
			}
			n, ok := e.unitNext(u)
			if !ok || n.o == 0 || n.o == id {
				continue
			}
			w := st.obj(n.o)
			if !e.unit(w) || !e.follows(st, u, w) {
				continue
			}
			if keep != nil && keep(u, w) {
				continue
			}
			m := st.newObj(kSeg, u.typ, "nodes", u.pos)
			m.fresh = u.fresh && w.fresh
			m.home = u.home
			if m.home == nil {
				m.home = w.home
			}
			m.len = st.cons.subst(unitLen(u).add(unitLen(w)))
			ulist, uat := e.unitPos(st, u)
			wlist, wat := e.unitPos(st, w)
			if ulist != nil && wlist != nil && st.sameTerm(ulist, wlist) && st.cons.entailsEq(uat.add(unitLen(u)).sub(wat)) {
				m.list, m.at = ulist, uat
			}
			if u.kind == kSeg {
				m.prev = u.prev
			} else {
				m.prev = u.f[r.nodePrev]
			}
			if w.kind == kSeg {
				m.next = w.next
			} else {
				m.next = w.f[r.nodeNext]
			}
			ul := unitLen(u)
			uid, wid := u.id, w.id
			delete(st.heap, uid)
			delete(st.heap, wid)
			st.mapValues(deep(func(v V) V {
				p, ok := v.(VPtr)
				if !ok {
					return v
				}
				i := p.idx
				if i == nil {
					i = linInt(0)
				}
				switch p.o {
				case uid:
					return VPtr{o: m.id, idx: i, path: p.path}
				case wid:
					return VPtr{o: m.id, idx: st.cons.subst(ul.add(i)), path: p.path}
				}
				return v
			}))
			merged = true
			break
		}
		if !merged {
			return
		}
	}
}

// unitPos says which stretch of a stored list the unit holds the values of.
func (e *Engine) unitPos(st *State, o *Obj) (*Term, *Lin) {
	if o.kind == kSeg {
		if o.list == nil || o.at == nil {
			return nil, nil
		}
		return o.list, o.at
	}
	v, ok := o.f[e.roles.nodeVal].(VTerm)
	if !ok {
		return nil, nil
	}
	t := st.normTerm(v.t)
	if t.op != "elem" || len(t.args) != 2 {
		return nil, nil
	}
	return t.args[0], termLin(t.args[1])
}

// nodeIntact: the value is the stored element it stood for at the start.
func (e *Engine) nodeIntact(st *State, o *Obj) bool {
	if o.kind == kSeg {
		return true
	}
	v, ok := o.f[e.roles.nodeVal].(VTerm)
	if !ok || o.list == nil || o.at == nil {
		return false
	}
	return st.sameTerm(v.t, mk("elem", "", o.list, mkLin(o.at)))
}

var _ ssa.Value
