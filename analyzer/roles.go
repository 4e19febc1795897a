package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var kindNames = []string{"string", "list", "set", "zset", "hash"}

// Roles identifies the parts of the program the analysis knows about.
type Roles struct {
	p                                                     *Prog
	mapT                                                  *types.Named // sharded map
	shardT                                                *types.Named
	itemsF                                                string
	keyInfo                                               *types.Named
	kiType                                                string // field names of KeyInfo
	kiValue                                               string
	listT, nodeT, setT, hashT, zsetT, zslT, znodeT, dictT *types.Named
	listLen, listHead, listTail                           string
	nodeNext, nodePrev, nodeVal                           string
	setMap, setLen                                        string
	hashMap, hashLen                                      string
	zsMap, zsIdx                                          string
	zslLen                                                string
	znVal, znScore                                        string
	deVal                                                 string
	missing                                               []string
	shards                                                int64
	stores                                                map[*ssa.Global][]*ssa.Store
	pureMemo                                              map[*ssa.Function]int
	shardAtom                                             *Term
	zslMut                                                map[*ssa.Function]bool
}

func structOf(n *types.Named) *types.Struct {
	if n == nil {
		return nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return s
}

func ptrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && n != nil && types.Identical(p.Elem(), n)
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0
}

// fieldBy finds the only field satisfying f, or the preferred name.
func fieldBy(n *types.Named, pref string, f func(t types.Type) bool) string {
	s := structOf(n)
	if s == nil {
		return ""
	}
	var c []string
	for i := 0; i < s.NumFields(); i++ {
		if f(s.Field(i).Type()) {
			if s.Field(i).Name() == pref {
				return pref
			}
			c = append(c, s.Field(i).Name())
		}
	}
	if len(c) == 1 {
		return c[0]
	}
	return ""
}

func newRoles(p *Prog) *Roles {
	r := &Roles{p: p, stores: map[*ssa.Global][]*ssa.Store{}, pureMemo: map[*ssa.Function]int{}}
	need := func(rel, name string) *types.Named {
		n := p.namedType(rel, name)
		if n == nil {
			r.missing = append(r.missing, rel+"."+name)
		}
		return n
	}
	r.mapT = need("lib/shard_map", "Map")
	if r.mapT != nil {
		if sl, ok := r.mapT.Underlying().(*types.Slice); ok {
			if pt, ok := sl.Elem().(*types.Pointer); ok {
				r.shardT, _ = pt.Elem().(*types.Named)
			}
		}
		r.itemsF = fieldBy(r.shardT, "items", func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	}
	ds := "datastruct"
	r.keyInfo = need(ds, "KeyInfo")
	r.kiType = fieldBy(r.keyInfo, "Type", func(t types.Type) bool { return isBasic(t, types.IsString) })
	r.kiValue = fieldBy(r.keyInfo, "Value", func(t types.Type) bool { return types.IsInterface(t) })
	r.listT = need(ds, "List")
	r.nodeT = need(ds, "listNode")
	r.setT = need(ds, "set")
	r.hashT = need(ds, "hashTable")
	r.zsetT = need(ds, "zSet")
	r.zslT = need(ds, "zSkipList")
	r.znodeT = need(ds, "zSkipListNode")
	r.dictT = need(ds, "dictEntry")
	isInt := func(t types.Type) bool { return isBasic(t, types.IsInteger) }
	r.listLen = fieldBy(r.listT, "length", isInt)
	r.listHead = fieldBy(r.listT, "head", func(t types.Type) bool { return ptrTo(t, r.nodeT) })
	r.listTail = fieldBy(r.listT, "tail", func(t types.Type) bool { return ptrTo(t, r.nodeT) })
	r.nodeNext = fieldBy(r.nodeT, "next", func(t types.Type) bool { return ptrTo(t, r.nodeT) })
	r.nodePrev = fieldBy(r.nodeT, "prev", func(t types.Type) bool { return ptrTo(t, r.nodeT) })
	r.nodeVal = fieldBy(r.nodeT, "value", func(t types.Type) bool { return isBasic(t, types.IsString) })
	isMap := func(t types.Type) bool { return r.isSmap(t) }
	r.setMap = fieldBy(r.setT, "m", isMap)
	r.setLen = fieldBy(r.setT, "length", isInt)
	r.hashMap = fieldBy(r.hashT, "table", isMap)
	r.hashLen = fieldBy(r.hashT, "length", isInt)
	r.zsMap = fieldBy(r.zsetT, "m", isMap)
	r.zsIdx = fieldBy(r.zsetT, "zsl", func(t types.Type) bool { return ptrTo(t, r.zslT) })
	r.zslLen = fieldBy(r.zslT, "length", isInt)
	r.znVal = fieldBy(r.znodeT, "value", func(t types.Type) bool { return isBasic(t, types.IsString) })
	r.znScore = fieldBy(r.znodeT, "score", func(t types.Type) bool { return isBasic(t, types.IsFloat) })
	r.deVal = fieldBy(r.dictT, "value", func(t types.Type) bool { return true })
	for n, v := range map[string]string{"Shard items": r.itemsF, "KeyInfo.Type": r.kiType, "KeyInfo.Value": r.kiValue, "List.length": r.listLen,
		"List.head": r.listHead, "List.tail": r.listTail, "listNode.next": r.nodeNext, "listNode.prev": r.nodePrev, "listNode.value": r.nodeVal,
		"set map": r.setMap, "set length": r.setLen, "hash map": r.hashMap, "hash length": r.hashLen, "zSet map": r.zsMap, "zSet index": r.zsIdx,
		"zSkipList.length": r.zslLen, "zSkipListNode.value": r.znVal, "zSkipListNode.score": r.znScore, "dictEntry.value": r.deVal} {
		if v == "" {
			r.missing = append(r.missing, n)
		}
	}
	r.shardAtom = mk("isym", "shards")
	r.shardAtom.nonneg = true
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						r.stores[g] = append(r.stores[g], s)
					}
				}
				if m, ok := in.(*ssa.MakeSlice); ok && r.isSmap(m.Type()) {
					if c, ok := m.Len.(*ssa.Const); ok {
						if n, ok := constant.Int64Val(c.Value); ok {
							if r.shards == 0 || r.shards == n {
								r.shards = n
							} else {
								r.shards = -1
							}
						}
					} else {
						r.shards = -1
					}
				}
				if a, ok := in.(*ssa.Alloc); ok && r.mapT != nil {
					// make with a constant length becomes new [n]T; slice
					if at, ok := derefType(a.Type()).(*types.Array); ok && r.shardT != nil && ptrTo(at.Elem(), r.shardT) {
						if r.shards == 0 || r.shards == at.Len() {
							r.shards = at.Len()
						} else {
							r.shards = -1
						}
					}
				}
			}
		}
	}
	return r
}

func (r *Roles) isSmap(t types.Type) bool {
	if r == nil || r.mapT == nil {
		return false
	}
	return types.Identical(t, r.mapT)
}

func (r *Roles) opaqueStruct(t types.Type) bool { return false }

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func sameNamed(t types.Type, n *types.Named) bool {
	return n != nil && types.Identical(t, n)
}

// kindOfType: which kind of value a dynamic type stands for ("" if none).
func (r *Roles) kindOfType(t types.Type) string {
	switch {
	case isBasic(t, types.IsString):
		return "string"
	case ptrTo(t, r.listT):
		return "list"
	case ptrTo(t, r.setT):
		return "set"
	case ptrTo(t, r.zsetT):
		return "zset"
	case ptrTo(t, r.hashT):
		return "hash"
	}
	return ""
}

func (r *Roles) typeOfKind(k string) types.Type {
	switch k {
	case "string":
		return types.Typ[types.String]
	case "list":
		return types.NewPointer(r.listT)
	case "set":
		return types.NewPointer(r.setT)
	case "zset":
		return types.NewPointer(r.zsetT)
	case "hash":
		return types.NewPointer(r.hashT)
	}
	return nil
}

// isZslMethod: a method of the ordered index, modelled as an abstract operation.
func (r *Roles) isZslMethod(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	return ptrTo(f.Signature.Recv().Type(), r.zslT)
}

// pureScalar: a function over scalars with a loop and without effects, kept
// uninterpreted (the hash function of the sharded map).
func (r *Roles) pureScalar(f *ssa.Function) bool {
	if v, ok := r.pureMemo[f]; ok {
		return v == 1
	}
	r.pureMemo[f] = 2
	ok := func() bool {
		if f.Signature.Results().Len() != 1 || len(f.Params) == 0 || len(f.FreeVars) > 0 {
			return false
		}
		if !isBasic(f.Signature.Results().At(0).Type(), types.IsInteger) {
			return false
		}
		for _, p := range f.Params {
			b, ok := p.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
				return false
			}
		}
		if len(info(f).loops) == 0 {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Send, *ssa.Defer, *ssa.Alloc, *ssa.Panic, *ssa.MakeSlice:
					return false
				case *ssa.UnOp:
					if in.Op.String() == "*" || in.Op.String() == "<-" {
						return false
					}
				case *ssa.Call:
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						continue
					}
					c := in.Call.StaticCallee()
					if c == nil || c.Blocks == nil {
						return false
					}
					for _, b := range c.Blocks {
						for _, x := range b.Instrs {
							switch x.(type) {
							case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Return, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Lookup, *ssa.Index:
							default:
								return false
							}
						}
					}
				}
			}
		}
		return true
	}()
	if ok {
		r.pureMemo[f] = 1
	}
	return ok
}

// globalInit gives the unique value a package variable is initialised with and
// never changed from, nil if there is no such value.
func (r *Roles) globalInit(g *ssa.Global) ssa.Value {
	ss := r.stores[g]
	if len(ss) != 1 {
		return nil
	}
	if !strings.HasPrefix(ss[0].Parent().Name(), "init") {
		return nil
	}
	return ss[0].Val
}

// pureZsl: the method and everything it calls never writes to the index.
func (r *Roles) pureZsl(f *ssa.Function) bool {
	if r.zslMut == nil {
		r.zslMut = map[*ssa.Function]bool{}
		// a function writes if it stores through memory that is not its own allocation
		calls := map[*ssa.Function][]*ssa.Function{}
		for _, g := range r.p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if !localAddr(in.Addr) {
							r.zslMut[g] = true
						}
					case *ssa.MapUpdate:
						r.zslMut[g] = true
					case ssa.CallInstruction:
						if c := in.Common().StaticCallee(); c != nil {
							calls[g] = append(calls[g], c)
						} else if b, ok := in.Common().Value.(*ssa.Builtin); ok {
							if b.Name() == "delete" || b.Name() == "copy" {
								r.zslMut[g] = true
							}
						} else {
							r.zslMut[g] = true
						}
					}
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for g, cs := range calls {
				if r.zslMut[g] {
					continue
				}
				for _, c := range cs {
					if r.zslMut[c] {
						r.zslMut[g] = true
						ch = true
					}
				}
			}
		}
	}
	return !r.zslMut[f]
}

// localAddr: the address belongs to an allocation of the same function.
func localAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X)
	case *ssa.IndexAddr:
		return localAddr(v.X)
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return localAddr(v.X)
	}
	return false
}
