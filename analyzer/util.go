package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func showV(v V) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case VNum:
		return x.l.String()
	case VBool:
		return x.b.String()
	case VTerm:
		return x.t.String()
	case VPtr:
		if x.o == 0 {
			return "nil"
		}
		s := fmt.Sprintf("&%d", x.o)
		if x.path != "" {
			s += "." + x.path
		}
		if x.idx != nil {
			s += "[" + x.idx.String() + "]"
		}
		return s
	case VIface:
		if x.t == nil {
			return "nil"
		}
		return types.TypeString(x.t, func(*types.Package) string { return "" }) + "(" + showV(x.v) + ")"
	case VIfaceSym:
		return "any:" + x.t.String()
	case VErr:
		return "err:" + x.t.String()
	case VSlice:
		return fmt.Sprintf("slice%d[%s+%s]", x.o, x.off, x.len)
	case VMap:
		return fmt.Sprintf("map%d", x.o)
	case VShard:
		return fmt.Sprintf("map%d/%s", x.o, x.idx)
	case VMapView:
		return fmt.Sprintf("map%d/%s.items", x.o, x.idx)
	case VFunc:
		if x.f == nil {
			return "nilfunc"
		}
		var bs []string
		for _, b := range x.b {
			bs = append(bs, showV(b))
		}
		return fmt.Sprintf("func %v{%s}", x.f.(ssa.Value).Name(), strings.Join(bs, ","))
	case VTuple:
		var bs []string
		for _, b := range x.e {
			bs = append(bs, showV(b))
		}
		return "(" + strings.Join(bs, ", ") + ")"
	case VIter:
		return fmt.Sprintf("iter%d", x.o)
	case VStruct:
		var bs []string
		for _, k := range sortedKeys(x.f) {
			bs = append(bs, k+":"+showV(x.f[k]))
		}
		return "{" + strings.Join(bs, " ") + "}"
	case VSum:
		var bs []string
		for _, k := range sortedKeys(x.f) {
			bs = append(bs, k+":"+showV(x.f[k]))
		}
		return "&sum{" + strings.Join(bs, " ") + "}"
	case VAny:
		return "?" + x.why
	}
	return fmt.Sprintf("%T", v)
}

func (s *State) dump() string {
	var sb strings.Builder
	ids := []int{}
	for id := range s.heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, i := range ids {
		o := s.heap[ObjID(i)]
		if o.site == "global" {
			continue
		}
		fmt.Fprintf(&sb, "  #%d %s", i, o.site)
		if o.home != nil {
			fmt.Fprintf(&sb, " home=%v", o.home.key)
		}
		for _, k := range sortedKeys(o.f) {
			fmt.Fprintf(&sb, " %s=%s", k, showV(o.f[k]))
		}
		if o.n != nil {
			fmt.Fprintf(&sb, " n=%s", o.n)
		}
		for _, k := range sortedExKeys(o.ex) {
			fmt.Fprintf(&sb, " [%d]=%s", k, showV(o.ex[k]))
		}
		for _, p := range o.pend {
			fmt.Fprintf(&sb, " [%s]=%s", p.idx, showV(p.v))
		}
		for _, t := range o.tmpl {
			if t.at != nil {
				fmt.Fprintf(&sb, " [@%d]~%s", *t.at, showV(t.v))
			} else {
				fmt.Fprintf(&sb, " [$j]~%s", showV(t.v))
			}
		}
		if o.card != nil {
			fmt.Fprintf(&sb, " card=%s card0=%v", o.card, o.card0)
		}
		for _, en := range o.ents {
			fmt.Fprintf(&sb, " <%s in=%v in0=%v mod=%v %s>", en.key, en.in, en.in0, en.mod, showV(en.v))
		}
		for _, z := range o.zents {
			fmt.Fprintf(&sb, " <%s in=%v node=%d>", z.mem, z.in, z.node)
		}
		for _, r := range append(append([]V(nil), o.rest...), o.rewRest...) {
			fmt.Fprintf(&sb, " rest=%s", showV(r))
		}
		if o.kind == kSeg {
			fmt.Fprintf(&sb, " len=%s at=%v prev=%s next=%s", o.len, o.at, showV(o.prev), showV(o.next))
		}
		if o.parts != nil {
			fmt.Fprintf(&sb, " text=%s", concat(o.parts...))
		}
		sb.WriteString("\n")
	}
	for _, q := range s.cons.eqs {
		fmt.Fprintf(&sb, "  eq %s = %s\n", q.p, q.e)
	}
	for _, q := range s.cons.ineq {
		fmt.Fprintf(&sb, "  le %s <= 0\n", q)
	}
	var fs []string
	for t, v := range s.facts {
		fs = append(fs, fmt.Sprintf("  %v %s\n", v, t))
	}
	sort.Strings(fs)
	sb.WriteString(strings.Join(fs, ""))
	return sb.String()
}

func sortedExKeys(m map[int64]V) []int64 {
	ks := make([]int64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortInt64(ks)
	return ks
}

// addTmpl adds an alternative unless it is already there.
func addTmpl(ts []tmplEl, t tmplEl) []tmplEl {
	k := showV(t.v)
	for _, x := range ts {
		if showV(x.v) == k && (x.at == nil || (t.at != nil && *x.at == *t.at)) {
			return ts
		}
	}
	if len(ts) >= 10 {
		return []tmplEl{{v: VAny{"many alternatives"}}}
	}
	return append(ts, t)
}

// subV substitutes in a value without touching existential symbols or objects.
func subV(v V, sb *subst) V {
	switch x := v.(type) {
	case VNum:
		return VNum{sb.linear(x.l)}
	case VTerm:
		return VTerm{sb.term(x.t)}
	case VErr:
		return VErr{sb.term(x.t)}
	case VIfaceSym:
		return VIfaceSym{sb.term(x.t)}
	case VIface:
		if x.t == nil {
			return x
		}
		return VIface{x.t, subV(x.v, sb)}
	case VStruct:
		f := map[string]V{}
		for _, k := range sortedKeys(x.f) {
			f[k] = subV(x.f[k], sb)
		}
		return VStruct{f}
	case VSum:
		f := map[string]V{}
		for _, k := range sortedKeys(x.f) {
			f[k] = subV(x.f[k], sb)
		}
		x.f = f
		return x
	}
	return v
}

func sortedIDs(st *State) []ObjID {
	ids := make([]ObjID, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}
