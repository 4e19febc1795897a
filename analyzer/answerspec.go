package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What set and hash commands are defined to do, on the named entries.

type acmd struct {
	kind  string
	mems  int     // named entries
	args  [][]int // shapes: >0 a key, <0 a named entry, 100+ a value, 200 a count
	spec  func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool)
	multi bool // numbers of every kind as values
	all   int  // keys that count although they are not asked for
	fails bool // it may answer an error
	most  int  // elements of a list
	list  func(a *answers, l []*fv, args []*fv, n, m int64) ([]*fv, areply)
}

func (a *answers) shape(s []int) []*fv {
	var out []*fv
	for _, x := range s {
		switch {
		case x == 400:
			out = append(out, a.f.str("Before"))
		case x == 401:
			out = append(out, a.f.str("AFTER"))
		case x >= 500:
			a.score(&out, x-499)
		case x >= 402:
			out = append(out, a.f.str([]string{"NX", "xx", "Incr"}[x-402]))
		case x >= 300:
			a.pattern = a.sym("pattern", types.Typ[types.String])
			out = append(out, a.pattern)
		case x == 201:
			out = append(out, a.f.mk("numtext", "", types.Typ[types.String], a.stop))
		case x >= 200:
			out = append(out, a.f.mk("numtext", "", types.Typ[types.String], a.cnt))
		case x >= 100:
			out = append(out, a.sym(fmt.Sprintf("value %d", x-99), types.Typ[types.String]))
		case x > 0:
			out = append(out, a.keys[x-1])
		default:
			out = append(out, a.mems[-x-1])
		}
	}
	return out
}

func (a *answers) score(out *[]*fv, n int) {
	t := types.Typ[types.Float64]
	*out = append(*out, a.f.mk("numtext", "", types.Typ[types.String], a.sym(fmt.Sprintf("score %d", n), t)))
}

func (w *aworld) has(k, e *fv) bool { return w.keys[k] != nil && w.keys[k].in[e] }

// put makes sure there is a value to put into.
func (w *aworld) put(k *fv, kind string) *acont {
	if w.keys[k] == nil {
		w.keys[k] = &acont{kind: kind, in: map[*fv]bool{}, val: map[*fv]*fv{}}
	}
	return w.keys[k]
}

func (w *aworld) tidy(k *fv) {
	if c := w.keys[k]; c != nil && !c.rest && c.size() == 0 {
		w.keys[k] = nil
	}
}

func num2(n int64) areply { return areply{kind: "int", v: nil, group: int(n)} }

func algebra(op string) func(w *aworld, keys []*fv, e *fv) bool {
	return func(w *aworld, keys []*fv, e *fv) bool {
		r := w.has(keys[0], e)
		for _, k := range keys[1:] {
			switch op {
			case "inter":
				r = r && w.has(k, e)
			case "union":
				r = r || w.has(k, e)
			case "diff":
				r = r && !w.has(k, e)
			}
		}
		return r
	}
}

func aQuery(op string) func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	return func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		r := areply{kind: "array", any: true, group: 1}
		for _, e := range a.mems {
			if algebra(op)(w, args, e) {
				r.elems = append(r.elems, e)
			}
		}
		return r, nil
	}
}

// aStore: the others of the result are not followed.
func aStore(op string) func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	return func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		c := &acont{kind: "set", in: map[*fv]bool{}, val: map[*fv]*fv{}}
		open := false
		for _, k := range args[1:] {
			open = open || w.keys[k] != nil && w.keys[k].rest
		}
		for _, e := range a.mems {
			c.in[e] = algebra(op)(w, args[1:], e)
		}
		n := c.size()
		w.keys[args[0]] = c
		w.tidy(args[0])
		if open {
			return areply{}, map[*fv]bool{args[0]: true}
		}
		return num2(n), nil
	}
}

var acmds = map[string]acmd{
	"sinter":      {kind: "set", mems: 1, args: [][]int{{1}, {1, 2}, {1, 1}, {1, 2, 3}}, spec: aQuery("inter")},
	"sunion":      {kind: "set", mems: 1, args: [][]int{{1}, {1, 2}, {1, 1}, {1, 2, 3}}, spec: aQuery("union")},
	"sdiff":       {kind: "set", mems: 1, args: [][]int{{1}, {1, 2}, {1, 1}, {1, 2, 3}}, spec: aQuery("diff")},
	"sinterstore": {kind: "set", mems: 1, args: [][]int{{1, 2}, {1, 1}, {3, 1, 2}, {1, 1, 2}, {2, 1, 2}, {4, 1, 2, 3}}, spec: aStore("inter")},
	"sunionstore": {kind: "set", mems: 1, args: [][]int{{1, 2}, {1, 1}, {3, 1, 2}, {1, 1, 2}, {2, 1, 2}, {4, 1, 2, 3}}, spec: aStore("union")},
	"sdiffstore":  {kind: "set", mems: 1, args: [][]int{{1, 2}, {1, 1}, {3, 1, 2}, {1, 1, 2}, {2, 1, 2}, {4, 1, 2, 3}}, spec: aStore("diff")},
	"smembers": {kind: "set", mems: 2, args: [][]int{{1}}, spec: func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		return aQuery("")(a, w, args[:1])
	}},
	"sadd": {kind: "set", mems: 3, args: [][]int{{1, -1}, {1, -1, -2}, {1, -1, -1}, {1, -1, -2, -1}}, spec: func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		n, c := int64(0), w.put(args[0], "set")
		for _, e := range args[1:] {
			if !c.in[e] {
				n++
			}
			c.in[e] = true
		}
		return num2(n), nil
	}},
	"srem": {kind: "set", mems: 3, args: [][]int{{1, -1}, {1, -1, -2}, {1, -1, -1}, {1, -1, -2, -1}}, spec: func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		n := int64(0)
		for _, e := range args[1:] {
			if w.has(args[0], e) {
				n++
				w.keys[args[0]].in[e] = false
			}
		}
		w.tidy(args[0])
		return num2(n), nil
	}},
	"smove": {kind: "set", mems: 2, args: [][]int{{1, 2, -1}, {1, 1, -1}}, spec: func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		if !w.has(args[0], args[2]) {
			return num2(0), nil
		}
		w.keys[args[0]].in[args[2]] = false
		w.put(args[1], "set").in[args[2]] = true
		w.tidy(args[0])
		return num2(1), nil
	}},
	"sismember": {kind: "set", mems: 2, args: [][]int{{1, -1}}, spec: aHas},
	"hexists":   {kind: "hash", mems: 2, args: [][]int{{1, -1}}, spec: aHas},
	"scard":     {kind: "set", mems: 2, args: [][]int{{1}}, spec: aLen},
	"hlen":      {kind: "hash", mems: 2, args: [][]int{{1}}, spec: aLen},
	"spop":      {kind: "set", mems: 2, args: [][]int{{1}, {1, 200}}, spec: nil},
	"keys":      {kind: "any", all: 2, fails: true, args: [][]int{{300}}, spec: aKeys},
	"del":       {kind: "any", all: 2, args: [][]int{{1}}, spec: aDel},
	"exists":    {kind: "any", all: 2, args: [][]int{{1}}, spec: aExists},
	"type":      {kind: "any", all: 2, args: [][]int{{1}}, spec: aType},
	"lpush":     {kind: "list", most: 3, mems: 3, args: [][]int{{1, -1}, {1, -1, -2}, {1, -1, -2, -3}}, list: aPush(true)},
	"rpush":     {kind: "list", most: 3, mems: 3, args: [][]int{{1, -1}, {1, -1, -2}, {1, -1, -2, -3}}, list: aPush(false)},
	"lpop":      {kind: "list", most: 5, args: [][]int{{1}, {1, 200}}, list: aPop(true)},
	"rpop":      {kind: "list", most: 5, args: [][]int{{1}, {1, 200}}, list: aPop(false)},
	"llen":      {kind: "list", most: 4, args: [][]int{{1}}, list: aListLen},
	"lrange":    {kind: "list", most: 5, args: [][]int{{1, 200, 201}}, list: aRange},
	"lindex":    {kind: "list", most: 8, args: [][]int{{1, 200}}, list: aIndex},
	"lset":      {kind: "list", most: 6, mems: 1, args: [][]int{{1, 200, -1}}, list: aSet},
	"lrem":      {kind: "list", most: 6, mems: 1, args: [][]int{{1, 200, -1}}, list: aRem},
	"zadd": {kind: "zset", mems: 2, args: [][]int{{1, 500, -1}, {1, 500, -1, 501, -2}, {1, 500, -1, 501, -1}, {1, 402, 500, -1, 501, -2}, {1, 403, 500, -1, 501, -2},
		{1, 404, 500, -1}, {1, 402, 404, 500, -1}, {1, 403, 404, 500, -1}, {1, 404, 500, -1, 501, -1}}},
	"set":     {kind: "string", args: [][]int{{1, 100}}},
	"get":     {kind: "string", args: [][]int{{1}}},
	"append":  {kind: "string", args: [][]int{{1, 100}}},
	"mset":    {kind: "string", args: [][]int{{1, 100}, {1, 100, 2, 101}, {1, 100, 1, 101}, {1, 100, 2, 101, 3, 102}}},
	"mget":    {kind: "string", args: [][]int{{1}, {1, 2}, {1, 2, 1}, {2, 1}, {1, 1, 2}, {1, 2, 3}}},
	"incr":    {kind: "string", args: [][]int{{1}}},
	"decr":    {kind: "string", args: [][]int{{1}}},
	"incrby":  {kind: "string", args: [][]int{{1, 200}}},
	"decrby":  {kind: "string", args: [][]int{{1, 200}}},
	"zincr":   {kind: "zset", mems: 2, args: [][]int{{1, 500, -1}}},
	"zrem":    {kind: "zset", mems: 2, args: [][]int{{1, -1}, {1, -1, -2}, {1, -1, -1}, {1, -1, -2, -1}}},
	"zscore":  {kind: "zset", mems: 2, args: [][]int{{1, -1}}},
	"zrank":   {kind: "zset", mems: 2, args: [][]int{{1, -1}}},
	"zcard":   {kind: "zset", mems: 2, args: [][]int{{1}}},
	"linsert": {kind: "list", most: 5, mems: 2, args: [][]int{{1, 400, -1, -2}, {1, 401, -1, -2}}, list: aInsert},
	"hget": {kind: "hash", mems: 2, multi: true, args: [][]int{{1, -1}}, spec: func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		if !w.has(args[0], args[1]) {
			return areply{kind: "nil"}, nil
		}
		return areply{kind: "bulk", v: a.text(w.keys[args[0]].val[args[1]])}, nil
	}},
	"hmget": {kind: "hash", mems: 2, multi: true, args: [][]int{{1, -1}, {1, -1, -2}, {1, -1, -1}, {1, -1, -2, -1}, {1, -2, -1, -2}}, spec: func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		r := areply{kind: "array"}
		for _, e := range args[1:] {
			if w.has(args[0], e) {
				r.elems = append(r.elems, a.text(w.keys[args[0]].val[e]))
			} else {
				r.elems = append(r.elems, a.f.null())
			}
		}
		return r, nil
	}},
	"hkeys":   {kind: "hash", mems: 1, multi: true, args: [][]int{{1}}, spec: aEach(true, false)},
	"hvals":   {kind: "hash", mems: 1, multi: true, args: [][]int{{1}}, spec: aEach(false, true)},
	"hgetall": {kind: "hash", mems: 1, multi: true, args: [][]int{{1}}, spec: aEach(true, true)},
	"hdel": {kind: "hash", mems: 2, args: [][]int{{1, -1}}, spec: func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		if !w.has(args[0], args[1]) {
			return num2(0), nil
		}
		w.keys[args[0]].in[args[1]] = false
		w.tidy(args[0])
		return num2(1), nil
	}},
	"hincrby":      {kind: "hash", mems: 2, multi: true, fails: true, args: [][]int{{1, -1, 200}}, spec: aHincr(types.Int64)},
	"hincrbyfloat": {kind: "hash", mems: 2, multi: true, fails: true, args: [][]int{{1, -1, 500}}, spec: aHincr(types.Float64)},
	"hset":         {kind: "hash", mems: 3, args: [][]int{{1, -1, 100}, {1, -1, 100, -2, 101}, {1, -1, 100, -1, 101}}, spec: aHset},
	"hmset":        {kind: "hash", mems: 3, args: [][]int{{1, -1, 100}, {1, -1, 100, -2, 101}, {1, -1, 100, -1, 101}}, spec: aHset},
	"hsetnx": {kind: "hash", mems: 2, args: [][]int{{1, -1, 100}}, spec: func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		if w.has(args[0], args[1]) {
			return num2(0), nil
		}
		aHset(a, w, args)
		return num2(1), nil
	}},
}

// aHincr: a counter of one kind of number; a field that holds anything else is refused.
func aHincr(kind types.BasicKind) func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	return func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		t := types.Typ[kind]
		e, d := args[1], args[2].a[0]
		if w.has(args[0], e) {
			v := w.keys[args[0]].val[e]
			if v.op != "iface" || v.t != t {
				return areply{kind: "error"}, nil
			}
			d = a.f.sum(token.ADD, v.a[0], d, t)
		}
		c := w.put(args[0], "hash")
		c.in[e], c.val[e] = true, a.f.mk("iface", t.String(), t, d)
		if kind == types.Float64 {
			return areply{kind: "bulk", v: a.text(c.val[e])}, nil
		}
		return areply{kind: "int", v: d}, nil
	}
}

func aHset(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	c := w.put(args[0], "hash")
	for i := 1; i+1 < len(args); i += 2 {
		c.in[args[i]] = true
		c.val[args[i]] = args[i+1]
	}
	return areply{}, nil
}

// aKeys: the keys that the pattern matches.
func aKeys(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	r := areply{kind: "array", any: true, group: 1}
	for _, k := range a.keys {
		if w.keys[k] != nil && w.match[k] {
			r.elems = append(r.elems, k)
		}
	}
	return r, nil
}

func aDel(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	n := num2(0)
	if w.keys[args[0]] != nil {
		n = num2(1)
	}
	w.keys[args[0]] = nil
	return n, nil
}

func aExists(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	return aDel(a, w.clone(), args)
}

func aType(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	if w.keys[args[0]] == nil {
		return areply{kind: "simple", v: a.f.str("none")}, nil
	}
	return areply{kind: "simple", v: a.sym("type of "+args[0].s, types.Typ[types.String])}, nil
}

func aHas(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	if w.has(args[0], args[1]) {
		return num2(1), nil
	}
	return num2(0), nil
}

func aLen(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	c := w.keys[args[0]]
	switch {
	case c == nil:
		return num2(0), nil
	case c.rest:
		return areply{kind: "int", v: a.sym("length of "+args[0].s, types.Typ[types.Int])}, nil
	}
	return num2(c.size()), nil
}

func aEach(keys, vals bool) func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
	return func(a *answers, w *aworld, args []*fv) (areply, map[*fv]bool) {
		r := areply{kind: "array", any: true}
		for _, b := range []bool{keys, vals} {
			if b {
				r.group++
			}
		}
		for _, e := range a.mems {
			if !w.has(args[0], e) {
				continue
			}
			if keys {
				r.elems = append(r.elems, e)
			}
			if vals {
				r.elems = append(r.elems, a.text(w.keys[args[0]].val[e]))
			}
		}
		return r, nil
	}
}

// worlds are the states a command with these arguments may start in.
func (a *answers) worlds(cmd acmd, args []*fv) []*aworld {
	f := a.f
	var used []*fv
	for i, k := range a.keys {
		if i < cmd.all {
			used = append(used, k)
			continue
		}
		for _, x := range args {
			if x == k {
				used = append(used, k)
				break
			}
		}
	}
	vals := func(i int) []*fv {
		e := a.mems[i]
		mk := func(t types.Type, s string) *fv { return f.mk("iface", t.String(), t, a.sym(s+" of "+e.s, t)) }
		if cmd.kind == "zset" {
			return []*fv{a.sym("score of "+e.s, types.Typ[types.Float64])}
		}
		if cmd.kind != "hash" {
			return []*fv{f.mk("iface", "int", types.Typ[types.Int], f.num(0))}
		}
		r := []*fv{mk(types.Typ[types.String], "text")}
		if cmd.multi && i == 0 {
			r = append(r, mk(types.Typ[types.Int64], "integer"), mk(types.Typ[types.Float64], "number"))
		}
		return r
	}
	conts := func(rest bool) []*acont {
		if cmd.kind == "list" {
			return a.listWorlds(cmd)
		}
		if cmd.kind == "string" {
			return a.textWorlds()
		}
		if cmd.kind == "any" {
			return []*acont{{kind: "any", rest: true, in: map[*fv]bool{}, val: map[*fv]*fv{}}, nil}
		}
		cs := []*acont{{kind: cmd.kind, rest: rest, in: map[*fv]bool{}, val: map[*fv]*fv{}}}
		for i, e := range a.mems {
			var nx []*acont
			for _, c := range cs {
				nx = append(nx, c)
				for _, v := range vals(i) {
					w := (&aworld{keys: map[*fv]*acont{e: c}}).clone().keys[e]
					w.in[e], w.val[e] = true, v
					nx = append(nx, w)
				}
			}
			cs = nx
		}
		if !rest {
			cs = cs[1:] // not empty
		}
		return append(cs, nil)
	}
	var out []*aworld
	for _, rest := range []bool{false, true} {
		if rest && (cmd.kind == "any" || cmd.kind == "list" || cmd.kind == "string") {
			break
		}
		ws := []*aworld{{keys: map[*fv]*acont{}}}
		for _, k := range used {
			var nx []*aworld
			for _, w := range ws {
				for _, c := range conts(rest) {
					x := w.clone()
					x.keys[k] = c
					if c != nil && c.kind == "string" {
						c := *c
						c.items = []*fv{a.sym("text of "+k.s, types.Typ[types.String])}
						x.keys[k] = &c
					}
					nx = append(nx, x.clone())
				}
			}
			ws = nx
		}
		out = append(out, ws...)
	}
	if a.pattern != nil {
		for _, k := range used {
			for _, w := range out {
				x := w.clone()
				x.match[k] = true
				out = append(out, x)
			}
		}
	}
	return out
}

func (w *aworld) String() string {
	var ks []string
	for k, c := range w.keys {
		s := "no " + k.s
		if c != nil {
			var es []string
			for e, b := range c.in {
				if b {
					es = append(es, e.s)
				}
			}
			if c.rest {
				es = append(es, "others")
			}
			if c.kind == "list" {
				for _, e := range c.items {
					es = append(es, e.s)
				}
			} else {
				sort.Strings(es)
			}
			s = k.s + " holding " + strings.Join(es, ", ")
			if c.kind == "any" {
				s = k.s
			}
			if w.match[k] {
				s += " (which matches)"
			}
		}
		ks = append(ks, s)
	}
	sort.Strings(ks)
	return strings.Join(ks, "; ")
}

// answered analyses the commands of one kind.
func answered(c *ctx, kinds map[string]bool, want map[string]bool, missing bool) {
	r := newRoles(c.p)
	if len(r.missing) > 0 {
		c.undecided("not found: %s", strings.Join(r.missing, ", "))
		return
	}
	regs, _ := c.p.registrations()
	done := 0
	for _, g := range regs {
		cmd, ok := acmds[g.name]
		if !ok || !kinds[cmd.kind] && !kinds[g.name] {
			continue
		}
		a := &answers{c: c, r: r, want: want, name: g.name, fn: g.fn, said: map[string]bool{}, seen: map[string]int{}}
		done++
		a.run(cmd, missing)
		for k, n := range a.seen {
			c.count(k, n)
		}
	}
	c.count("commands followed to the end", done)
	if done == 0 {
		c.undecided("no command was found")
	}
}

// tags of the kinds, as the program sets them.
func (a *answers) tags() bool {
	a.kinds = map[string]string{}
	for _, fn := range a.c.p.Funcs {
		for _, b := range fn.Blocks {
			val := map[ssa.Value]string{}
			tag := map[ssa.Value]string{}
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !ptrTo(fa.X.Type(), a.r.keyInfo) {
					continue
				}
				switch structOf(a.r.keyInfo).Field(fa.Field).Name() {
				case a.r.kiType:
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						tag[fa.X] = constant.StringVal(k.Value)
					}
				case a.r.kiValue:
					if m, ok := s.Val.(*ssa.MakeInterface); ok {
						val[fa.X] = a.r.kindOfType(m.X.Type())
					}
				}
			}
			for o, k := range val {
				if t := tag[o]; t != "" && k != "" {
					a.kinds[k] = t
				}
			}
		}
	}
	for k, n := range map[string]string{"set": "KeyTypeSet", "zset": "KeyTypeSortedSet", "hash": "KeyTypeHashTable"} {
		if a.kinds[k] != "" {
			continue
		}
		if c, ok := a.r.keyInfo.Obj().Pkg().Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.String {
			a.kinds[k] = constant.StringVal(c.Val())
		}
	}
	return a.kinds["set"] != "" && a.kinds["hash"] != ""
}

// form is how a number is written when a text is recognised as one.
func (a *answers) floatForm() string {
	form := ""
	for _, fn := range a.c.p.Funcs {
		sig := fn.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isBasic(sig.Params().At(0).Type(), types.IsString) || !types.IsInterface(sig.Results().At(0).Type()) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "strconv.FormatFloat" {
					continue
				}
				var n []int64
				for _, x := range c.Call.Args[1:] {
					if k, ok := x.(*ssa.Const); ok {
						if i, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
							n = append(n, i)
						}
					}
				}
				if len(n) == 3 {
					form = fmt.Sprintf("%c/%d/%d", rune(n[0]), n[1], n[2])
				}
			}
		}
	}
	if form == "" {
		form = "g/-1/64"
	}
	return form
}

func (a *answers) run(cmd acmd, missing bool) {
	f := newFlow(a.c)
	a.f = f
	f.budget = 4000000
	f.linear, f.monotone, f.uniq = true, true, true
	f.stable = func(*fv) bool { return true }
	f.onCall, f.onLoad, f.onIf, f.onInstr, f.onBuiltin, f.apart = a.onCall, a.onLoad, a.onIf, a.onInstr, a.onBuiltin, a.apart
	defer func() {
		a.seen["abstract steps"] += f.steps
		for _, s := range uniq(f.stuck) {
			a.vague("%s", s)
		}
		if x := recover(); x != nil {
			s, ok := x.(flowStop)
			if !ok {
				panic(x)
			}
			a.vague("%s", s.why)
		}
	}()
	if len(a.fn.Params) != 1 || fstructOf2(a.fn.Params[0].Type()) == nil {
		a.vague("the command's arguments were not found")
		return
	}
	if !a.tags() {
		a.vague("the kinds of values were not found")
		return
	}
	a.form = a.floatForm()
	str := types.Typ[types.String]
	for _, n := range []string{"key A", "key B", "key C", "key D"} {
		a.keys = append(a.keys, a.sym(n, str))
	}
	for _, n := range []string{"e", "x", "y"}[:cmd.mems] {
		a.mems = append(a.mems, a.sym(n, str))
	}
	a.cnt = a.sym("count", types.Typ[types.Int])
	a.stop = a.sym("stop", types.Typ[types.Int])
	a.lists, a.zsets, a.texts = cmd.kind == "list", cmd.kind == "zset", cmd.kind == "string"
	f.eachRound = a.zsets
	a.ks = f.mk("smap", "keyspace", a.r.mapT)
	for _, sh := range cmd.args {
		args := a.shape(sh)
		for _, w := range a.worlds(cmd, args) {
			if missing {
				absent := false
				for _, c := range w.keys {
					absent = absent || c == nil
				}
				if !absent {
					continue
				}
			}
			a.argv = args
			var names []string
			for _, x := range args {
				if x.op == "numtext" {
					x = x.a[0]
				}
				if t, ok := x.text(); ok {
					names = append(names, t)
					continue
				}
				names = append(names, x.s)
			}
			a.what = fmt.Sprintf("%s(%s) with %s", a.name, strings.Join(names, ", "), w)
			st := a.setup(w)
			a.reached = map[[2]int64]bool{}
			outs := f.exec(st, a.fn, []*fv{a.sym("command", a.fn.Params[0].Type())}, nil)
			f.after = nil
			for _, o := range outs {
				if o.st.m["a:dead"] != "" {
					continue
				}
				if o.st.panic != "" {
					if a.lists {
						a.crashed(o.st)
					} else {
						pos := a.c.p.pos(a.fn.Pos())
						if o.st.pos != nil {
							pos = a.c.p.pos(o.st.pos.Pos())
						}
						a.bad(aAnswer, pos, "%s panics: %s%s", a.what, o.st.panic, path(o.st))
					}
					continue
				}
				a.seen["ways to run a command"]++
				a.c.obl()
				if a.lists {
					a.checkList(cmd, w, o.st, o.res)
					continue
				}
				if a.texts {
					a.checkText(cmd, w, o.st, o.res)
					continue
				}
				if a.zsets {
					a.checkZset(cmd, w, o.st, o.res)
					continue
				}
				a.check(cmd, w, o.st, o.res)
			}
			a.seen["starting states"]++
		}
	}
}

func (a *answers) check(cmd acmd, w *aworld, st *fst, res *fv) {
	f := a.f
	at := a.c.p.pos(a.fn.Pos())
	if res == nil || res.op != "tup" || len(res.a) != 2 {
		a.vague("the result is %s", clean(res))
		return
	}
	if st.m["a:vague"] != "" {
		return
	}
	aw, lens, objs, ok := a.final(st, cmd.kind == "any")
	if !ok {
		a.vague("the state after %s is not known", a.what)
		return
	}
	if b, ok := f.truth(st, f.cmp(token.EQL, res.a[1], f.null())); !ok || !b {
		if !ok && !res.a[1].isNil() {
			a.vague("whether %s fails is not known", a.what)
			return
		}
		if !cmd.fails {
			a.bad(aAnswer, at, "%s answers an error%s", a.what, path(st))
			return
		}
		if x := w.clone(); cmd.spec != nil && cmd.kind == "hash" {
			if want, _ := cmd.spec(a, x, a.argv); want.kind != "error" && st.m["a:badnum"] == "" && !a.bounded(st, a.intAt(w)) {
				a.bad(aAnswer, at, "%s answers an error%s", a.what, path(st))
				return
			}
			for _, k := range a.keys {
				a.state(k, w.keys[k], w.keys[k], aw.keys[k], lens[k], false, st, at)
			}
			return
		}
		for _, k := range a.keys {
			if (w.keys[k] == nil) != (aw.keys[k] == nil) || w.keys[k] != nil && w.keys[k].kind != aw.keys[k].kind {
				a.bad(aStored, at, "%s fails, but %s is changed%s", a.what, k.s, path(st))
			}
		}
		return
	}
	got, ok := a.decode(st, res.a[0])
	if !ok {
		a.vague("%s answers %s", a.what, clean(res.a[0]))
		return
	}
	for _, e := range got.elems {
		if e.op == "seqlost" {
			a.bad(aAnswer, at, "%s: an element of the answer is overwritten by the next one%s", a.what, path(st))
			return
		}
		if e.op == "unkseq" {
			a.vague("%s answers %s", a.what, clean(e))
			return
		}
	}
	for i, k := range a.keys {
		for _, l := range a.keys[:i] {
			if objs[k] != nil && objs[k] == objs[l] {
				a.bad(aShared, at, "%s: %s and %s hold the same value afterwards%s", a.what, k.s, l.s, path(st))
				return
			}
		}
	}
	if cmd.spec == nil {
		a.popped(w, aw, got, st, at)
		return
	}
	x := w.clone()
	want, loose := cmd.spec(a, x, a.argv)
	if want.kind == "error" {
		a.bad(aAnswer, at, "%s is not refused%s", a.what, path(st))
		return
	}
	for _, k := range a.keys {
		a.state(k, w.keys[k], x.keys[k], aw.keys[k], lens[k], loose[k], st, at)
	}
	a.answer(want, got, st, at)
}

// state compares what a key holds.
func (a *answers) state(k *fv, old, want, got *acont, n *fv, loose bool, st *fst, at string) {
	switch {
	case want == nil && got == nil:
		return
	case want == nil:
		if loose {
			break
		}
		if got.size() == 0 && !got.rest {
			a.bad(aEmpty, at, "%s leaves %s with nothing in it%s", a.what, k.s, path(st))
		} else {
			a.bad(aStored, at, "%s: %s holds something afterwards%s", a.what, k.s, path(st))
		}
		return
	case got == nil:
		if want.size() > 0 || want.rest {
			a.bad(aStored, at, "%s: %s is gone afterwards%s", a.what, k.s, path(st))
		}
		return
	case want.kind != got.kind:
		a.bad(aStored, at, "%s: %s is of another kind afterwards%s", a.what, k.s, path(st))
		return
	}
	if want == nil {
		want = &acont{kind: got.kind, in: map[*fv]bool{}}
	}
	for _, e := range a.mems {
		switch {
		case want.in[e] && !got.in[e]:
			a.bad(aStored, at, "%s: %s does not hold %s afterwards%s", a.what, k.s, e.s, path(st))
		case !want.in[e] && got.in[e]:
			a.bad(aStored, at, "%s: %s holds %s afterwards%s", a.what, k.s, e.s, path(st))
		case want.in[e] && want.kind == "hash" && want.val[e] != nil && !(old != nil && want.val[e] == old.val[e] && got.val[e] == want.val[e]) && !a.reads(st, got.val[e], a.text(want.val[e])):
			if v := got.val[e]; v == nil || !plain(v) {
				a.vague("%s: the value of %s is %s", a.what, e.s, clean(v))
				continue
			}
			a.bad(aText, at, "%s: %s of %s reads %s afterwards%s", a.what, e.s, k.s, clean(a.text(got.val[e])), path(st))
		}
	}
	if m, ok := n.int(); ok && !got.rest && m != got.size() {
		a.bad(aSize, at, "%s: %s counts %d entries, but holds %d%s", a.what, k.s, m, got.size(), path(st))
	}
}

// plain: a value that is followed.
func plain(v *fv) bool {
	switch v.op {
	case "sym", "const", "nil", "inttext", "ftext", "intof", "floatof", "iface", "conv", "others", "okey", "oval", "sum", "size", "numtext", "cat":
	default:
		return false
	}
	for _, x := range v.a {
		if x != nil && x.op != "smap" && x.op != "gomap" && !plain(x) {
			return false
		}
	}
	return true
}

func (a *answers) answer(want, got areply, st *fst, at string) {
	f := a.f
	switch want.kind {
	case "":
		return
	case "int":
		v := want.v
		if v == nil {
			v = f.num(int64(want.group))
		}
		if got.kind != "int" {
			a.bad(aAnswer, at, "%s is not answered with an integer%s", a.what, path(st))
			return
		}
		x := bareTerm(got.v)
		if x == v || f.entails(st, x, v, 0) && f.entails(st, v, x, 0) {
			return
		}
		if !plain(x) {
			a.vague("%s answers %s", a.what, clean(x))
			return
		}
		a.bad(aCount, at, "%s answers %s, but %s is due%s", a.what, clean(x), clean(v), path(st))
	case "nil":
		if got.kind != "nil" {
			a.bad(aAnswer, at, "%s is not answered with nil%s", a.what, path(st))
		}
	case "simple":
		if got.kind != "simple" {
			a.bad(aAnswer, at, "%s is not answered with a status%s", a.what, path(st))
		} else if !a.same(st, got.v, want.v) {
			if !plain(got.v) {
				a.vague("%s answers %s", a.what, clean(got.v))
				return
			}
			a.bad(aAnswer, at, "%s answers %s, but %s is due%s", a.what, clean(got.v), clean(want.v), path(st))
		}
	case "bulk":
		if got.kind == "bulk" && a.sameText(st, got.v, want.v) {
			return
		}
		if got.kind == "bulk" && !plain(got.v) {
			a.vague("%s answers %s", a.what, clean(got.v))
			return
		}
		if got.kind == "bulk" {
			a.bad(aText, at, "%s answers %s, but %s is stored%s", a.what, clean(got.v), clean(want.v), path(st))
		} else {
			a.bad(aAnswer, at, "%s is not answered with the value%s", a.what, path(st))
		}
	case "array":
		if len(want.elems) == 0 && got.kind == "nil" {
			return
		}
		if got.kind != "array" {
			a.bad(aAnswer, at, "%s: %s answered%s", a.what, map[bool]string{true: "nil is", false: "no list is"}[got.kind == "nil"], path(st))
			return
		}
		a.list(want, got, st, at)
	}
}

func (a *answers) same(st *fst, x, y *fv) bool {
	x = bareTerm(x)
	if x == y {
		return true
	}
	b, ok := a.f.truth(st, a.f.cmp(token.EQL, x, y))
	return ok && b
}

func (a *answers) list(want, got areply, st *fst, at string) {
	rule := aAnswer
	if want.group == 1 {
		rule = aMembers
	}
	bad := func(e *fv, form string, x ...interface{}) {
		if e != nil && !plain(e) {
			a.vague("%s answers %s", a.what, clean(e))
			return
		}
		a.bad(rule, at, "%s: %s%s", a.what, fmt.Sprintf(form, x...), path(st))
	}
	if !want.any {
		for i, e := range got.elems {
			if e.op == "others" {
				bad(nil, "something else is answered")
				return
			}
			if i >= len(want.elems) {
				bad(e, "more is answered than asked for")
				return
			}
			if !a.same(st, e, want.elems[i]) {
				if !e.isNil() && !want.elems[i].isNil() {
					rule = aText
				}
				bad(e, "element %d is %s, but %s is due", i+1, clean(e), clean(want.elems[i]))
				return
			}
		}
		if len(got.elems) < len(want.elems) {
			bad(nil, "%d elements are answered, but %d are due", len(got.elems), len(want.elems))
		}
		return
	}
	used := make([]bool, len(got.elems))
	for i := 0; i+want.group <= len(want.elems); i += want.group {
		n := 0
		for j := range got.elems {
			if j+want.group > len(got.elems) || used[j] {
				continue
			}
			all := true
			for d := 0; d < want.group; d++ {
				all = all && a.same(st, got.elems[j+d], want.elems[i+d])
			}
			if all {
				n++
				for d := 0; d < want.group; d++ {
					used[j+d] = true
				}
			}
		}
		if n != 1 {
			for j, e := range got.elems {
				if !used[j] && !plain(e) {
					a.vague("%s answers %s", a.what, clean(e))
					return
				}
			}
			var es []string
			for d := 0; d < want.group; d++ {
				es = append(es, clean(want.elems[i+d]))
			}
			if n == 0 {
				for j, e := range got.elems {
					if !used[j] && want.group == 1 && (e.op == "inttext" || e.op == "ftext" || e.op == "const") {
						rule = aText
					}
				}
				bad(nil, "%s is missing from the answer", strings.Join(es, ", "))
			} else {
				bad(nil, "%s is answered %d times", strings.Join(es, ", "), n)
			}
			return
		}
	}
	for j, e := range got.elems {
		if !used[j] && e.op != "others" {
			bad(e, "%s is answered, but is not due", clean(e))
			return
		}
	}
}

// popped: what is taken out is what is answered.
func (a *answers) popped(w, aw *aworld, got areply, st *fst, at string) {
	f := a.f
	k := a.argv[0]
	if w.keys[k] == nil {
		a.answer(areply{kind: "array", any: true, group: 1}, got, st, at)
		return
	}
	if got.kind != "array" && got.kind != "bulk" && got.kind != "nil" {
		a.bad(aAnswer, at, "%s is not answered with members%s", a.what, path(st))
		return
	}
	es := got.elems
	p := int64(0)
	for _, e := range a.mems {
		n := 0
		for _, x := range es {
			if bareTerm(x) == e {
				n++
			}
		}
		was, is := w.has(k, e), aw.has(k, e)
		if aw.keys[k] == nil && w.keys[k].rest && was && n == 0 {
			continue // whether it was the last is not followed
		}
		gone := was && !is
		if gone {
			p++
		}
		switch {
		case n > 1:
			a.bad(aMembers, at, "%s: %s is answered %d times%s", a.what, e.s, n, path(st))
		case gone && n == 0:
			a.bad(aMembers, at, "%s: %s is taken out, but not answered%s", a.what, e.s, path(st))
		case !gone && n == 1:
			a.bad(aMembers, at, "%s: %s is answered, but not taken out%s", a.what, e.s, path(st))
		}
	}
	if w.keys[k].rest {
		return
	}
	size := w.keys[k].size()
	cnt := f.num(1)
	if len(a.argv) > 1 {
		cnt = a.cnt
	}
	if !f.entails(st, f.num(p), cnt, 0) && p > 0 {
		a.bad(aMembers, at, "%s: %d members are taken out%s", a.what, p, path(st))
	}
	if p < size && !f.entails(st, cnt, f.num(p), 0) {
		a.bad(aMembers, at, "%s: only %d members are taken out%s", a.what, p, path(st))
	}
	if c := aw.keys[k]; c != nil && c.size() == 0 {
		a.bad(aEmpty, at, "%s leaves %s with nothing in it%s", a.what, k.s, path(st))
	}
}

// intAt is the integer a counter command adds to.
func (a *answers) intAt(w *aworld) *fv {
	if len(a.argv) < 2 || !w.has(a.argv[0], a.argv[1]) {
		return nil
	}
	v := w.keys[a.argv[0]].val[a.argv[1]]
	if v.op != "iface" || !isBasic(v.t, types.IsNumeric) {
		return nil
	}
	return v.a[0]
}
