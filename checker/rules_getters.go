package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C25: typed getters

type getter struct {
	name string // Bool, Number, String, List, Map
	kind string
}

var getters = []getter{{"Bool", "BOOL"}, {"Number", "NUMBER"}, {"String", "STRING"}, {"List", "LIST"}, {"Map", "MAP"}}

func (g collRig) getter(t string) string {
	if g.kind == "map" {
		return "Get" + t
	}
	return "Get" + t + "At"
}

// opaqueParse: the number parsed from a text stands for itself.
func (r *Run) opaqueParse() {
	fn := r.e.pkg.Func("ParseNumber")
	num := r.T("Number")
	r.e.hook = func(r *Run, f *ssa.Function, args []Val) ([]Val, bool) {
		if fn == nil || f != fn {
			return nil, false
		}
		x := r.opaqueVal(num, "call:ParseNumber", args...).(*Term)
		r.assume(Not(IsNilAtom(x)))
		return []Val{x}, true
	}
}

// getResult judges what a getter returned for the stored value v.
func (r *Run) getResult(t getter, v, got Val, what string) {
	if r.Decide(r.isNil(got)) {
		r.violation("%s returns nil", what)
	}
	v = r.pick(v)
	isNull := false
	kind := r.e.constInt(t.kind)
	var match bool
	if r.Decide(r.isNil(v)) {
		isNull = true
	} else {
		k := r.intVal(r.m1(v, "Kind"))
		isNull = r.Decide(EqI(k, IntC(kindNULL)))
		match = r.Decide(EqI(k, IntC(kind)))
	}
	switch {
	case isNull:
		switch t.name {
		case "Bool":
			r.iff(r.m1(got, "Boolean"), False, what+" of a missing value")
		case "Number":
			r.same(r.m1(got, "Type"), IntC(r.e.constInt("LONG")), what+" of a missing value: number type")
			r.same(r.m1(got, "Long"), IntC(0), what+" of a missing value")
		case "String":
			r.same(r.m1(got, "Type"), IntC(r.e.constInt("UTF8")), what+" of a missing value: string type")
			r.must(r.strEq(r.m1(got, "String").(*Term), StrC("")), "%s of a missing value is not the empty string", what)
		case "List", "Map":
			r.must(EqI(r.intVal(r.m1(got, "Kind")), IntC(kind)), "%s of a missing value: wrong kind", what)
			r.must(Eq0(r.intVal(r.m1(got, "Len"))), "%s of a missing value is not empty", what)
		}
	case match:
		r.same(got, v, what+" of a stored "+t.kind)
	case t.name == "Bool", t.name == "Number", t.name == "String":
		want := r.callIface("Parse"+map[string]string{"Bool": "Boolean", "Number": "Number", "String": "String"}[t.name], r.m1(v, "String"))
		switch t.name {
		case "Bool":
			r.same(r.m1(r.iface(got), "Boolean"), r.m1(r.iface(want), "Boolean"), what+": parsed text")
		case "Number":
			r.same(got, want, what+": parsed text")
		case "String":
			r.same(r.m1(got, "Type"), r.m1(r.iface(want), "Type"), what+": type of the parsed text")
			a, b := r.m1(got, "String").(*Term), r.m1(r.iface(want), "String").(*Term)
			if !r.st.f.congr(a, b) {
				r.must(r.strEq(a, b), "%s: parsed text", what)
			}
		}
	default:
		r.must(EqI(r.intVal(r.m1(got, "Kind")), IntC(kind)), "%s of another kind: wrong kind", what)
		k := r.intVal(r.m1(v, "Kind"))
		switch {
		case t.name == "List" && r.Decide(EqI(k, IntC(r.e.constInt("MAP")))):
			s, ok := r.pick(r.mAs("Map", v, "Values")).(*SliceV)
			if !ok {
				r.stuck("%s: values", what)
			}
			r.checkSeq(r.m1(got, "Values"), r.seqOf(s), what+" of a stored map")
		case t.name == "Map" && r.Decide(EqI(k, IntC(r.e.constInt("LIST")))):
			s, ok := r.pick(r.mAs("List", v, "Entries")).(*SliceV)
			if !ok {
				r.stuck("%s: entries", what)
			}
			r.nonNilOpaque(s)
			seq := r.seqOf(s)
			if _, ok := v.(*Term); ok { // as it was before anything sorted it
				el := r.sliceElem(s)
				x := App(SOpaque, "call:Entries", s.typ, v)
				seq.at = func(r *Run, i *Term) Val { return elemOf(x, el, i) }
			}
			r.sortedFrom(r.m1(got, "Entries"), what+" of a stored list", seq.n, func(r *Run, i *Term) (Val, Val) {
				x := seq.at(r, i)
				return r.m1(x, "Key"), r.m1(x, "Value")
			})
		default:
			r.must(Eq0(r.intVal(r.m1(got, "Len"))), "%s of a value that is neither a list nor a map is not empty", what)
		}
	}
}

// callIface calls a function and wraps a result of a concrete type.
func (r *Run) callIface(fn string, args ...Val) Val {
	v := r.call(fn, args...)
	if t := r.e.pkg.Func(fn).Signature.Results().At(0).Type(); !types.IsInterface(t) {
		return &IfaceV{t, v}
	}
	return v
}

// mAs calls a method of an interface a value is known to implement.
func (r *Run) mAs(iface string, v Val, name string) Val {
	x, ok := r.pick(v).(*Term)
	if !ok {
		return r.m1(v, name)
	}
	obj, _, _ := types.LookupFieldOrMethod(r.T(iface), false, nil, name)
	if obj == nil {
		r.violation("%s has no method %s", iface, name)
	}
	return r.opaqueVal(obj.(*types.Func).Type().(*types.Signature).Results().At(0).Type(), "call:"+name, x)
}

// nonNilOpaque: the elements of a slice an opaque value returned exist.
func (r *Run) nonNilOpaque(s *SliceV) {
	segs := r.sliceSegs(s)
	if len(segs) == 1 {
		if t, ok := segs[0].body.(*Term); ok && t.sort == SOpaque {
			r.nonNilElems(s)
		}
	}
}

func (e *Engine) constInt(name string) int64 {
	if c, ok := e.tpkg.Scope().Lookup(name).(*types.Const); ok {
		if n, ok := constant.Int64Val(c.Val()); ok {
			return n
		}
	}
	return -1
}

// stored makes a collection of the rig's kind holding v at its only position.
func (r *Run) stored(g collRig, v Val) (l Val, key Val) {
	elem, ctor := "Value", ""
	var k Val = IntC(0)
	switch g.kind {
	case "sparse":
		elem, ctor = "ListItem", "MutableItem"
		k = r.inInt("at")
	case "map":
		elem, ctor = "MapEntry", "ImmutableEntry"
		k = Sym(SStr, "at", types.Typ[types.String])
	}
	x := v
	if ctor != "" {
		x = r.call(ctor, k, v)
	}
	args := []Val{r.sliceLit(r.T(elem), x)}
	if ctor != "" {
		args = append(args, True)
	}
	return r.call(g.ctor, args...), k
}

func checkC25(c *Check) {
	c.rule("a typed getter returns without panicking and never nil: the stored value when its kind matches, otherwise the parse of its text or the converted collection, and the empty default for a missing value")
	c.noPanic = false
	for _, g := range collRigs() {
		g := g
		get := "GetAt"
		if g.kind == "map" {
			get = "Get"
		}
		for _, t := range getters {
			t := t
			m := g.getter(t.name)
			c.obl(g.name+"."+m+" of an arbitrary value", func(r *Run) {
				r.opaqueParse()
				var l, k Val
				switch g.kind {
				case "list":
					l, k = g.mk(r).v, r.inInt("at")
				case "sparse":
					kd := r.newKeyed(sparseRig(), "at")
					l, k = kd.l, kd.key
				default:
					kd := r.newKeyed(mapRig(g.ctor), "at")
					l, k = kd.l, kd.key
				}
				v := r.m1(l, get, k)
				if x, ok := r.pick(v).(*Term); ok && x.sort == SOpaque && !r.Decide(IsNilAtom(x)) {
					r.opaqueEntries(x)
				}
				r.getResult(t, v, r.m1(l, m, k), g.name+"."+m)
			})
			for _, h := range valueRigs() {
				h := h
				if !h.scalar && t.name != "List" && t.name != "Map" {
					continue
				}
				c.obl(g.name+"."+m+" of "+h.name, func(r *Run) {
					r.opaqueParse()
					v := r.build(h, "v·")
					l, k := r.stored(g, v)
					r.same(r.m1(l, get, k), v, g.name+"."+get)
					r.getResult(t, v, r.m1(l, m, k), g.name+"."+m+" of "+h.name)
				})
			}
		}
	}
}

// opaqueEntries: the entries of an arbitrary list exist.
func (r *Run) opaqueEntries(x *Term) {
	if !r.Decide(EqI(kindOf(x), IntC(r.e.constInt("LIST")))) {
		return
	}
	it := r.T("List")
	obj, _, _ := types.LookupFieldOrMethod(it, false, nil, "Entries")
	if obj == nil {
		return
	}
	v := r.opaqueVal(obj.(*types.Func).Type().(*types.Signature).Results().At(0).Type(), "call:Entries", x)
	if s, ok := v.(*SliceV); ok {
		r.nonNilOpaque(s)
	}
}

// ---- C37: copies of maps

// updatable: entries of that type can change after they were made.
func (e *Engine) updatable(t types.Type) bool {
	f := e.prog.LookupMethod(t, e.tpkg, "Update")
	if f == nil {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, ssa.CallInstruction:
				return true
			}
		}
	}
	return false
}

// freshEntry: entry x of a copy was made by the copy or can never change.
func (r *Run) freshEntry(x Val, from int, what string) {
	r.e.obligations++
	x = r.pick(x)
	switch v := x.(type) {
	case *IfaceV:
		if !r.e.updatable(v.dyn) {
			return
		}
		switch p := r.pick(v.v).(type) {
		case *NewV:
			return
		case *PtrV:
			if m := r.st.meta[p.obj]; m != nil && m.fresh && p.obj > from {
				return
			}
		}
		if r.e.forceUnroll {
			r.stuck("%s: entry %s", what, show(x))
		}
		r.violation("%s: the copy holds an entry of its source", what)
	case *Term:
		for _, t := range r.e.implementors("MapEntry") {
			if !r.e.updatable(t) && r.entails(App(SBool, "dyn:"+typeKey(t), nil, v)) {
				return
			}
		}
		if t := r.sortedElem(v); t != nil && r.e.forceUnroll {
			r.stuck("%s: entry %s", what, show(x))
		}
		r.violation("%s: the copy holds the entry %s of its source", what, show(v))
	default:
		r.stuck("%s: entry %s", what, show(x))
	}
}

// implementors: the types of the package implementing one of its interfaces.
func (e *Engine) implementors(name string) []types.Type {
	it, ok := e.typ(name).Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	sc := e.tpkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if types.Implements(t, it) {
				out = append(out, t)
				break
			}
		}
	}
	return out
}

// copyOf judges the copy l of the entries src.
func (r *Run) copyOf(l Val, src *SliceV, sorted bool, from int, what string) {
	seq := r.seqOf(src)
	got, ok := r.pick(r.m1(l, "Entries")).(*SliceV)
	if !ok {
		r.violation("%s: entries %s", what, show(l))
	}
	r.e.obligations++
	if got.obj != 0 && got.obj == src.obj {
		r.violation("%s: the copy uses the storage of its source", what)
	}
	if !sorted {
		r.same(got.len, seq.n, what+": number of entries")
		if r.Decide(Eq0(seq.n)) {
			return
		}
		k := r.index("k", seq.n)
		x, y := r.readElem(got, k), seq.at(r, k)
		r.same(r.m1(x, "Key"), r.m1(y, "Key"), what+": key")
		r.same(r.m1(x, "Value"), r.m1(y, "Value"), what+": value")
		r.freshEntry(x, from, what)
		return
	}
	r.same(got.len, seq.n, what+": number of entries")
	if r.Decide(Eq0(seq.n)) {
		return
	}
	segs := r.sliceSegs(got)
	i := r.index("k", seq.n)
	x := r.segRead(segs, i)
	if t, ok := r.pick(x).(*Term); ok && t.op == "elem" {
		if q, ok := t.args[0].(*Term); ok && q.op == "sorted" {
			if s, ok := q.args[0].(*SeqV); ok {
				x = r.segRead(s.segs, i)
			}
		}
	}
	r.freshEntry(x, from, what)
}

func checkC37(c *Check) {
	c.rule("every entry of a copied map is made by the copy (or has an Update that changes nothing), and its storage is not its source's")
	c.noPanic = false
	for _, fn := range []string{"ImmutableMapCopyOf", "SortedMapCopyOf"} {
		fn := fn
		for _, g := range collRigs() {
			g := g
			if g.kind != "map" {
				continue
			}
			c.obl(fn+"("+g.name+")", func(r *Run) {
				q := g.mk(r)
				from := r.st.next
				r.copyOf(r.call(fn, r.iface(q.v)), q.src, false, from, fn)
			})
		}
		c.obl(fn+"(any map)", func(r *Run) {
			m := r.in("m", r.T("Map")).(*Term)
			r.assume(Not(IsNilAtom(m)))
			s, ok := r.pick(r.m1(m, "Entries")).(*SliceV)
			if !ok {
				r.stuck("entries of a map")
			}
			r.nonNilElems(s)
			from := r.st.next
			r.copyOf(r.call(fn, m), s, false, from, fn)
		})
	}
	for _, g := range collRigs() {
		g := g
		for _, h := range collRigs() {
			h := h
			if h.kind == "map" {
				continue
			}
			m := g.getter("Map")
			c.obl(g.name+"."+m+" of "+h.name, func(r *Run) {
				q, _ := r.coll(h, "v·")
				l, k := r.stored(g, r.iface(q.v))
				from := r.st.next
				r.copyOf(r.m1(l, m, k), q.src, true, from, g.name+"."+m+" of "+h.name)
			})
		}
	}
}
