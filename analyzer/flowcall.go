package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *flow) callee(p *fpath, c *ssa.CallCommon) (*fv, []*fv) {
	var args []*fv
	if c.IsInvoke() {
		r := f.val(p, c.Value)
		for _, a := range c.Args {
			args = append(args, f.val(p, a))
		}
		m := f.mk("method", c.Method.Name()+" "+c.Value.Type().String(), c.Method.Type(), r)
		return m, args
	}
	for _, a := range c.Args {
		args = append(args, f.val(p, a))
	}
	return f.val(p, c.Value), args
}

func (f *flow) inModule(g *ssa.Function) bool {
	if g == nil || g.Blocks == nil {
		return false
	}
	if g.Pkg == nil {
		return g.Synthetic != ""
	}
	return f.p.ByPath[g.Pkg.Pkg.Path()] == g.Pkg
}

func one(st *fst, r *fv) []fout { return []fout{{st, r}} }

// call runs a call and returns every way it can end.
func (f *flow) call(st *fst, in ssa.CallInstruction, g *fv, args []*fv) []fout {
	sig := in.Common().Signature()
	if g.op == "method" {
		r := g.a[0]
		name := strings.SplitN(g.s, " ", 2)[0]
		if r.isNil() {
			st.panic, st.pos = "nil dereference", in
			return one(st, nil)
		}
		if f.onCall != nil {
			if o, ok := f.onCall(st, in, "invoke:"+name, append([]*fv{r}, args...)); ok {
				return o
			}
		}
		if r.op == "iface" {
			if sel := f.p.SSA.MethodSets.MethodSet(r.t).Lookup(in.Common().Method.Pkg(), name); sel != nil {
				if m := f.p.SSA.MethodValue(sel); m != nil {
					return f.call(st, in, f.fun(m), append([]*fv{r.a[0]}, args...))
				}
			}
		}
		if m := f.onlyImpl(in.Common()); m != nil {
			return f.call(st, in, f.fun(m), append([]*fv{r}, args...))
		}
		return f.extern(st, in, "invoke:"+name, append([]*fv{r}, args...), sig)
	}
	switch g.op {
	case "builtin":
		return f.builtin(st, in, g.s, args, sig)
	case "fn", "clo":
		if f.onCall != nil {
			if o, ok := f.onCall(st, in, g.fn.String(), args); ok {
				return o
			}
		}
		if f.inModule(g.fn) {
			for _, s := range f.stack {
				if s == g.fn {
					f.stuck = append(f.stuck, "recursion in "+fnName(g.fn))
					return one(st, f.results(st, in, sig, args))
				}
			}
			if len(f.stack) > 24 {
				panic(flowStop{"calls too deep"})
			}
			f.sites = append(f.sites, in)
			defer func() { f.sites = f.sites[:len(f.sites)-1] }()
			return f.exec(st, g.fn, args, g.a)
		}
		if g.fn.Object() != nil && g.fn.Object().Pkg() != nil {
			return f.extern(st, in, g.fn.Object().(*types.Func).FullName(), args, sig)
		}
		return f.extern(st, in, g.fn.String(), args, sig)
	}
	if g.isNil() {
		st.panic, st.pos = "call of a nil function", in
		return one(st, nil)
	}
	if f.onDyn != nil {
		if o, ok := f.onDyn(st, in, g, args); ok {
			return o
		}
	}
	for _, a := range args {
		f.share(st, a)
	}
	return one(st, f.results(st, in, sig, append([]*fv{g}, args...)))
}

// onlyImpl is the method of the only type of the module that implements a module interface.
func (f *flow) onlyImpl(c *ssa.CallCommon) *ssa.Function {
	n, ok := c.Value.Type().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || f.p.ByPath[n.Obj().Pkg().Path()] == nil {
		return nil
	}
	it := n.Underlying().(*types.Interface)
	var found *ssa.Function
	k := 0
	for _, sp := range f.p.ByPath {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, x := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(x, it) {
					if sel := f.p.SSA.MethodSets.MethodSet(x).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						found = f.p.SSA.MethodValue(sel)
						k++
					}
					break
				}
			}
		}
	}
	if k == 1 {
		return found
	}
	return nil
}

// results are unknown results of a call.
func (f *flow) results(st *fst, in ssa.Instruction, sig *types.Signature, args []*fv) *fv {
	n := sig.Results().Len()
	r := f.fresh(st, in, "call", nil, args...)
	if n == 1 {
		r.t = sig.Results().At(0).Type()
		return r
	}
	var rs []*fv
	for i := 0; i < n; i++ {
		rs = append(rs, f.mk("res", fmt.Sprint(i), sig.Results().At(i).Type(), r))
	}
	return f.tup(rs...)
}

func (f *flow) builtin(st *fst, in ssa.CallInstruction, name string, args []*fv, sig *types.Signature) []fout {
	if f.onBuiltin != nil {
		if o, ok := f.onBuiltin(st, in, name, args); ok {
			return o
		}
	}
	switch name {
	case "len":
		return one(st, f.length(st, args[0]))
	case "cap":
		return one(st, f.mk("cap", "", nil, args[0]))
	case "append":
		a, b := args[0], args[1]
		if a.op == "obj" {
			if n, ok := f.length(st, a).int(); ok && n == 0 {
				a = f.null()
			}
		}
		if a.op == "slice" && a.a[2] != nil {
			if n, ok := a.a[2].int(); ok && n == 0 {
				a = f.null() // the storage is reused, the content starts anew
			}
		}
		if n, ok := f.length(st, b).int(); ok && n == 0 {
			return one(st, a)
		}
		var elems []*fv
		done := func(r *fv) []fout {
			if f.onAppend != nil {
				f.onAppend(st, in, a, elems, b, r)
			}
			return one(st, r)
		}
		if f.bytesText && isByteSlice(sig.Results().At(0).Type()) {
			v := f.mk("conv", "[]byte", sig.Results().At(0).Type(), f.cat(f.bytesOf(st, in, a), f.bytesOf(st, in, b)))
			if a.isNil() {
				delete(st.m, fmt.Sprintf("inside:%d", v.id)) // a copy
			}
			return one(st, v)
		}
		if b.op == "slice" && b.a[0].op == "obj" {
			// elements given one by one
			if n, ok := f.length(st, b).int(); ok && n <= 4 {
				lo, _ := b.a[1].int()
				r := a
				for i := int64(0); i < n; i++ {
					e := f.load(st, in, f.mk("iaddr", "", nil, b.a[0], f.num(lo+i)), sig.Params().At(0).Type().Underlying().(*types.Slice).Elem())
					r = f.mk("append1", "", nil, r, e)
					elems = append(elems, e)
				}
				return done(r)
			}
		}
		return done(f.mk("append", "", nil, a, b))
	case "copy":
		return one(st, f.copySlice(st, in, args[0], args[1]))
	case "close":
		ch := args[0]
		k := f.mk("closed", "", nil, ch)
		if ch.isNil() || st.heap[k] != nil {
			st.panic, st.pos = "close of closed or nil channel", in
			if f.onCrash != nil && !st.inGo {
				f.onCrash(st, in, st.panic)
			}
			return one(st, nil)
		}
		st.heap[k] = f.bool(true)
		if st.inGo {
			st.trace = append(st.trace, gop{"close", ch, nil, copyM(st.m), in, snap(st)})
		}
		if f.onClose != nil {
			f.onClose(st, in, ch)
		}
		return one(st, f.tup())
	case "recover":
		if w := st.m["!panicking"]; w != "" {
			st.m["!panicking"] = ""
			return one(st, f.mk("iface", "panic", types.Typ[types.String], f.sym("panic")))
		}
		return one(st, f.null())
	case "panic":
		st.panic, st.pos = "panic", in
		return one(st, nil)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "delete", "clear", "print", "println":
		return one(st, f.tup())
	case "min", "max":
		return one(st, f.mk("app", name, nil, args...))
	}
	return one(st, f.results(st, in, sig, args))
}

// bytesOf is the text a byte slice or a string holds.
func (f *flow) bytesOf(st *fst, in ssa.Instruction, v *fv) *fv {
	if v.isNil() {
		return f.str("")
	}
	if v.op == "conv" && (v.s == "[]byte" || v.s == "string") {
		return v.a[0]
	}
	if v.op == "slice" && v.a[0].op == "obj" {
		if n, ok := f.length(st, v).int(); ok && n <= 16 {
			if lo, ok := v.a[1].int(); ok {
				var ps []*fv
				for i := int64(0); i < n; i++ {
					c := f.load(st, in, f.mk("iaddr", "", nil, v.a[0], f.num(lo+i)), types.Typ[types.Byte])
					if k, ok := c.int(); ok {
						ps = append(ps, f.str(string([]byte{byte(k)})))
					} else {
						ps = append(ps, f.mk("char", "", nil, c))
					}
				}
				return f.cat(ps...)
			}
		}
	}
	return v
}

// atLeast: x >= y because of the form of the difference.
func (f *flow) atLeast(x, y *fv) bool {
	d := f.sum(token.SUB, x, y, nil)
	if k, ok := d.int(); ok {
		return k >= 0
	}
	if d.op == "len" {
		return true
	}
	if d.op != "sum" {
		return false
	}
	for i, a := range d.a {
		var c int64
		fmt.Sscan(strings.Fields(d.s)[i], &c)
		if k, ok := a.int(); ok {
			c *= k
		} else if a.op != "len" && a.op != "cap" {
			return false
		}
		if c < 0 {
			return false
		}
	}
	return true
}

// copySlice keeps track of slices that are filled from the front.
func (f *flow) copySlice(st *fst, in ssa.CallInstruction, dst, src *fv) *fv {
	d, off := dst, f.num(0)
	if d.op == "slice" && d.a[2] == nil {
		d, off = d.a[0], d.a[1]
	}
	ld, ls := f.length(st, d), f.length(st, src)
	room := f.sum(token.SUB, ld, off, nil)
	if d.op != "obj" {
		return f.fresh(st, in, "copied", nil, dst, src)
	}
	fill, all := f.mk("fill", "", nil, d), f.mk("content", "", nil, d)
	if !f.atLeast(room, ls) {
		st.heap[all] = f.mk("partcopy", f.ctxName(in), nil, src)
		delete(st.heap, fill)
		return f.fresh(st, in, "copied", nil, dst, src)
	}
	cur := st.heap[fill]
	if cur == nil {
		cur = f.null()
	}
	if st.heap[all] != nil || f.length(st, cur) != off {
		if st.heap[all] != nil && off == f.num(0) && ls == ld {
			st.heap[all] = src
			return ls
		}
		st.heap[all] = f.mk("partcopy", f.ctxName(in), nil, src)
		delete(st.heap, fill)
		return ls
	}
	now := src
	if !cur.isNil() {
		now = f.mk("append", "", nil, cur, src)
	}
	if f.length(st, now) == ld {
		st.heap[all] = now
		delete(st.heap, fill)
	} else {
		st.heap[fill] = now
	}
	return ls
}

// pure library functions: equal arguments give equal results
var pureExt = map[string]bool{
	"strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true, "strings.EqualFold": true, "strconv.Itoa": true,
	"strconv.FormatInt": true, "strings.Repeat": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "bytes.HasSuffix": true, "bytes.Equal": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.Title": true, "strings.Join": true, "bytes.IndexByte": true, "strings.Trim": true,
	"strings.Replace": true, "strings.ReplaceAll": true, "strings.TrimRight": true, "strings.TrimLeft": true, "strconv.FormatUint": true,
	"utf8.RuneCountInString": true, "unicode/utf8.RuneCountInString": true, "strings.Fields": true, "strings.Split": true, "strings.Clone": true,
	"strconv.Quote": true, "strings.Count": true, "strings.Index": true, "strings.ToValidUTF8": true,
}

func (f *flow) textOf(st *fst, o *fv) *fv {
	k := f.mk("text", "", nil, o)
	if v := st.heap[k]; v != nil {
		return v
	}
	if o.op == "obj" {
		return f.str("")
	}
	return f.mk("ld", "", nil, k)
}

func (f *flow) write(st *fst, o *fv, parts ...*fv) {
	k := f.mk("text", "", nil, o)
	st.heap[k] = f.cat(append([]*fv{f.textOf(st, o)}, parts...)...)
}

func (f *flow) extern(st *fst, in ssa.CallInstruction, name string, args []*fv, sig *types.Signature) []fout {
	null := f.null()
	unknown := func() []fout { return one(st, f.results(st, in, sig, args)) }
	arg := func(i int) *fv {
		if i < len(args) {
			return args[i]
		}
		return null
	}
	if pureExt[name] {
		if name == "strings.ToLower" || name == "strings.ToUpper" {
			if s, ok := arg(0).text(); ok {
				if name == "strings.ToLower" {
					return one(st, f.str(strings.ToLower(s)))
				}
				return one(st, f.str(strings.ToUpper(s)))
			}
			if arg(0).op == "app" && arg(0).s == name {
				return one(st, arg(0))
			}
		}
		if name == "strconv.Itoa" || name == "strconv.FormatInt" {
			v := arg(0)
			if name == "strconv.FormatInt" {
				if b, ok := arg(1).int(); !ok || b != 10 {
					return one(st, f.mk("app", name, sig.Results().At(0).Type(), args...))
				}
				for v.op == "conv" && (v.s == "int64" || v.s == "int") {
					v = v.a[0]
				}
			}
			if k, ok := v.int(); ok {
				return one(st, f.str(fmt.Sprint(k)))
			}
			return one(st, f.mk("app", "decimal", sig.Results().At(0).Type(), v))
		}
		if name == "strings.Join" && arg(0).op == "slice" {
			if n, ok := f.length(st, arg(0)).int(); ok && n < 20 {
				var ps []*fv
				for i := int64(0); i < n; i++ {
					if i > 0 {
						ps = append(ps, arg(1))
					}
					ps = append(ps, f.load(st, in, f.iaddr(arg(0), f.num(i), types.Typ[types.String]), types.Typ[types.String]))
				}
				return one(st, f.cat(ps...))
			}
		}
		return one(st, f.mk("app", name, sig.Results().At(0).Type(), args...))
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		e := f.mk("err", f.ctxName(in), nil, args...)
		return one(st, e)
	case "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bufio.NewReader", "bytes.NewBufferString":
		o := f.newObj(st, in, "reader", nil)
		v := arg(0)
		if v.op == "conv" && (v.s == "[]byte" || v.s == "string") {
			v = v.a[0]
		}
		if !v.isNil() {
			st.heap[f.mk("text", "", nil, o)] = v
		}
		if v.op == "obj" {
			if n, ok := f.length(st, v).int(); ok && n == 0 {
				delete(st.heap, f.mk("text", "", nil, o))
			}
		}
		if v.op == "slice" && v.a[2] != nil {
			if n, ok := v.a[2].int(); ok && n == 0 {
				delete(st.heap, f.mk("text", "", nil, o))
			}
		}
		return one(st, o)
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		v := arg(1)
		if f.bytesText {
			v = f.bytesOf(st, in, v)
		}
		if v.op == "conv" && v.s == "[]byte" {
			v = v.a[0]
		}
		f.write(st, arg(0), v)
		return one(st, f.tup(f.length(st, v), null))
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		v := arg(1)
		if k, ok := v.int(); ok {
			if strings.HasSuffix(name, "Byte") {
				v = f.str(string([]byte{byte(k)}))
			} else {
				v = f.str(string(rune(k)))
			}
		} else {
			v = f.mk("char", "", nil, v)
		}
		f.write(st, arg(0), v)
		if strings.HasSuffix(name, "Byte") {
			return one(st, null)
		}
		return one(st, f.tup(f.num(1), null))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(st, f.textOf(st, arg(0)))
	case "(*bytes.Buffer).Bytes":
		v := f.mk("conv", "[]byte", sig.Results().At(0).Type(), f.textOf(st, arg(0)))
		if arg(0).op == "obj" && strings.HasPrefix(arg(0).s, "pooled:") {
			st.m[fmt.Sprintf("inside:%d", v.id)] = fmt.Sprint(arg(0).id)
		}
		return one(st, v)
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		st.heap[f.mk("text", "", nil, arg(0))] = f.str("")
		return one(st, f.tup())
	case "(*sync.Pool).Get":
		if v := f.pooled(st, in); v != nil {
			return one(st, v)
		}
	case "(*sync.Pool).Put":
		if o := arg(1); o != nil {
			if o.op == "iface" {
				o = o.a[0]
			}
			if f.onPut != nil {
				f.onPut(st, in, o)
			}
			st.m["given back"] += fmt.Sprintf("%d,", o.id)
		}
		return one(st, f.tup())
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len", "(*bytes.Reader).Len", "(*strings.Reader).Len":
		return one(st, f.length(st, f.textOf(st, arg(0))))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(st, f.tup())
	case "io.WriteString":
		w := arg(0)
		if w.op == "iface" {
			w = w.a[0]
		}
		f.write(st, w, arg(1))
		return one(st, f.tup(f.length(st, arg(1)), null))
	case "fmt.Sprintf", "fmt.Fprintf":
		i := 0
		if name == "fmt.Fprintf" {
			i = 1
		}
		if t := f.format(st, in, arg(i), arg(i+1)); t != nil {
			if i == 1 {
				w := arg(0)
				if w.op == "iface" {
					w = w.a[0]
				}
				f.write(st, w, t)
				return one(st, f.tup(f.length(st, t), null))
			}
			return one(st, t)
		}
		return unknown()
	case "strconv.AppendInt":
		d := arg(0)
		t := d
		if d.op == "conv" && d.s == "[]byte" {
			t = d.a[0]
		} else if d.isNil() {
			t = f.str("")
		}
		v := arg(1)
		for v.op == "conv" && (v.s == "int64" || v.s == "int") {
			v = v.a[0]
		}
		if k, ok := v.int(); ok {
			return one(st, f.mk("conv", "[]byte", nil, f.cat(t, f.str(fmt.Sprint(k)))))
		}
		return one(st, f.mk("conv", "[]byte", nil, f.cat(t, f.mk("app", "decimal", nil, v))))
	case "errors.Is":
		return one(st, f.cmpErr(arg(0), arg(1)))
	case "bytes.Clone", "slices.Clone":
		return one(st, f.mk("append", "", nil, null, arg(0)))
	case "(*sync.Once).Do":
		q := st.clone()
		var out []fout
		for _, o := range f.call(q, in, arg(1), nil) {
			out = append(out, fout{o.st, f.tup()})
		}
		return append(out, fout{st, f.tup()})
	case "time.AfterFunc":
		f.startGo(st, in, arg(1), nil)
		return unknown()
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		k := f.mk("lock", "", nil, arg(0))
		kind := name[strings.LastIndex(name, ".")+1:]
		switch kind {
		case "Lock", "RLock":
			st.m["lock:"+fmt.Sprint(k.id)] = kind
			f.sync(st)
			st.m["~epoch"] = f.ctxName(in)
			f.forget(st, f.mk("epoch", f.ctxName(in), nil))
		default:
			delete(st.m, "lock:"+fmt.Sprint(k.id))
		}
		return one(st, f.tup())
	case "invoke:Submit", "(*github.com/panjf2000/ants/v2.Pool).Submit":
		// the task is either accepted and run once, or refused
		if len(args) == 2 {
			q := st.clone()
			q.note("%s: pool refuses the task", f.pos(in))
			st.note("%s: pool accepts the task", f.pos(in))
			f.startGo(st, in, arg(1), nil)
			e := f.mk("err", "pool", nil)
			return []fout{{q, e}, {st, null}}
		}
	case "context.WithTimeout", "context.WithDeadline", "context.WithCancel":
		c := f.mk("context", name+"@"+f.ctxName(in), nil, args...)
		return one(st, f.tup(c, f.mk("cancel", "", nil, c)))
	case "invoke:Done":
		return one(st, f.mk("app", "Done", nil, arg(0)))
	case "invoke:Error":
		return one(st, f.mk("app", "Error", types.Typ[types.String], arg(0)))
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		st.panic, st.pos = "process exit", in
		if f.onCrash != nil {
			f.onCrash(st, in, name)
		}
		return one(st, nil)
	case "log.Panic", "log.Panicf", "log.Panicln":
		st.panic, st.pos = name, in
		return one(st, nil)
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "runtime.Gosched":
		f.sync(st)
		return one(st, f.tup())
	}
	for _, a := range args {
		f.share(st, a)
		if a != nil && (a.op == "clo" || a.op == "fn") && f.inModule(a.fn) && !strings.HasPrefix(name, "invoke:") {
			f.stuck = append(f.stuck, "callback given to "+name)
		}
	}
	return unknown()
}

// cmpErr is the test whether an error is a certain one.
func (f *flow) cmpErr(e, k *fv) *fv {
	if e.isNil() {
		return f.bool(false)
	}
	if e.op == "err" && !strings.HasPrefix(e.s, "wrap:") {
		if _, ok := f.cmp(token.EQL, e, k).boolean(); ok {
			return f.cmp(token.EQL, e, k)
		}
	}
	return f.cmpEq(e, k)
}

func (f *flow) cmpEq(x, y *fv) *fv {
	if x == y {
		return f.bool(true)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return f.mk("eq", "", nil, x, y)
}

// format renders a constant format with %d, %s and %v verbs; nil when it has others.
func (f *flow) format(st *fst, in ssa.Instruction, form, args *fv) *fv {
	s, ok := form.text()
	if !ok {
		return nil
	}
	n, ok := int64(0), true
	if !args.isNil() {
		n, ok = f.length(st, args).int()
	}
	if !ok {
		return nil
	}
	any := types.NewInterfaceType(nil, nil)
	next := int64(0)
	var ps []*fv
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			ps = append(ps, f.str(s[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(s) {
			return nil
		}
		if s[i] == '%' {
			ps = append(ps, f.str("%"))
			continue
		}
		if next >= n {
			return nil
		}
		v := f.load(st, in, f.iaddr(args, f.num(next), any), any)
		next++
		if v.op != "iface" {
			return nil
		}
		t, x := v.t, v.a[0]
		switch {
		case s[i] == 'd' && isBasic(t, types.IsInteger), s[i] == 'v' && isBasic(t, types.IsInteger):
			if k, ok := x.int(); ok {
				ps = append(ps, f.str(fmt.Sprint(k)))
			} else {
				ps = append(ps, f.mk("app", "decimal", nil, x))
			}
		case (s[i] == 's' || s[i] == 'v') && isBasic(t, types.IsString):
			ps = append(ps, x)
		case s[i] == 'c' && isBasic(t, types.IsInteger):
			if k, ok := x.int(); ok {
				ps = append(ps, f.str(string(rune(k))))
			} else {
				return nil
			}
		default:
			return nil
		}
	}
	return f.cat(ps...)
}

// pooled is what Get takes from a pool kept in a package variable: an object of the type its New makes, which
// belongs to the caller and holds whatever its last user left in it.
func (f *flow) pooled(st *fst, in ssa.CallInstruction) *fv {
	if len(in.Common().Args) != 1 || in.Parent().Pkg == nil {
		return nil
	}
	g, ok := in.Common().Args[0].(*ssa.Global)
	if !ok || g.Pkg == nil {
		return nil
	}
	var t types.Type
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var stores []*ssa.Store
	at := map[ssa.Value]bool{g: true} // the pool and the literal copied into it
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			stores = append(stores, s)
			if ld, ok := s.Val.(*ssa.UnOp); ok && s.Addr == g {
				at[ld.X] = true
			}
		}
	}
	for _, s := range stores {
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !at[fa.X] {
			continue
		}
		nf, ok := s.Val.(*ssa.Function)
		if !ok {
			return nil
		}
		for _, b := range nf.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			mi, ok := r.Results[0].(*ssa.MakeInterface)
			if !ok || t != nil && !types.Identical(t, mi.X.Type()) {
				return nil
			}
			t = mi.X.Type()
		}
	}
	pt, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	o := f.newObj(st, in, "pooled", pt)
	switch s := pt.Elem().Underlying().(type) {
	case *types.Struct:
		switch pt.Elem().String() {
		case "bytes.Buffer", "strings.Builder":
			st.heap[f.mk("text", "", nil, o)] = f.fresh(st, in, "left", types.Typ[types.String])
		default:
			for i := 0; i < s.NumFields(); i++ {
				st.heap[f.faddr(o, s, i)] = f.fresh(st, in, "left"+s.Field(i).Name(), s.Field(i).Type())
			}
		}
	}
	return f.mk("iface", pt.String(), pt, o)
}
