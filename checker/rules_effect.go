package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- effects: what an operation may write

// argOf builds an arbitrary argument of the given type.
func (r *Run) argOf(name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := r.inSlice(name, u.Elem())
		r.st.meta[s.obj].origin = "the argument " + name
		return s
	case *types.Interface:
		x := Sym(SOpaque, name, t)
		if n, ok := t.(*types.Named); ok {
			switch n.Obj().Name() {
			case "Value":
			default:
				x.non = true
			}
		}
		return x
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && r.e.sinkType(n) != "" {
			id := r.st.newObj(&SinkV{kind: r.e.sinkType(n)}, &Meta{fresh: true, origin: "the output", typ: n})
			return &PtrV{obj: id, typ: t}
		}
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" {
			return r.inBig(name)
		}
	}
	if s := sortOf(t); s != SInt && s != SBool && s != SStr && s != SFloat && s != SOpaque {
		return r.in(name, t)
	}
	x := Sym(sortOf(t), name, t)
	if _, ok := t.Underlying().(*types.Basic); !ok {
		x.non = true
	}
	return x
}

// methodsOf: the exported methods of the dynamic type of v.
func (r *Run) methodsOf(v Val) []*types.Selection {
	t := valType(v)
	if t == nil {
		r.stuck("no type for %s", show(v))
	}
	return r.e.methodsOfType(t)
}

func (e *Engine) methodsOfType(t types.Type) []*types.Selection {
	ms := types.NewMethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if o.Exported() && o.Pkg() == e.tpkg {
			out = append(out, ms.At(i))
		}
	}
	return out
}

// rigType is the dynamic type a rig's constructor yields.
func (e *Engine) rigType(mk func(r *Run) Val) types.Type {
	var t types.Type
	outs := e.Explore(e.start(), nil, func(r *Run) []Val {
		v := r.pick(mk(r))
		if x := valType(v); x != nil {
			t = x
		}
		return nil
	})
	_ = outs
	return t
}

type effectRig struct {
	name string
	mk   func(r *Run) Val
}

func collEffect(names ...string) []effectRig {
	var out []effectRig
	for _, g := range collRigs() {
		g := g
		for _, n := range names {
			if n == g.name {
				out = append(out, effectRig{g.name, func(r *Run) Val {
					q := g.mk(r)
					if m := r.st.meta[q.src.obj]; m != nil {
						m2 := *m
						m2.origin = "the storage of the receiver"
						r.st.meta[q.src.obj] = &m2
					}
					return q.v
				}})
			}
		}
	}
	return out
}

func scalarEffect() []effectRig {
	var out []effectRig
	for _, g := range scalarRigs() {
		g := g
		out = append(out, effectRig{g.name, func(r *Run) Val { v, _ := g.mk(r); return v }})
	}
	return out
}

func entryEffect(names ...string) []effectRig {
	var out []effectRig
	for _, n := range names {
		n := n
		out = append(out, effectRig{n, func(r *Run) Val {
			var k Val = r.inInt("key")
			if strings.HasSuffix(n, "Entry") {
				k = strKey(r)
			}
			return r.call(n, k, r.in("v", r.T("Value")))
		}})
	}
	return out
}

// callMethod calls one method with arbitrary arguments.
func (r *Run) callMethod(v Val, sel *types.Selection) (args []Val, res []Val) {
	sig := sel.Obj().Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		args = append(args, r.argOf(fmt.Sprintf("arg%d", i), p.Type()))
	}
	return args, r.method(v, sel.Obj().Name(), args...)
}

// eachMethod: one obligation per exported method of every rig.
func eachMethod(c *Check, rigs []effectRig, skip func(rig, m string) bool, f func(r *Run, v Val, sel *types.Selection, what string)) {
	for _, g := range rigs {
		g := g
		t := c.e.rigType(g.mk)
		if t == nil {
			c.fail(g.name, "undecided", "the constructor yields no value", "", "", "")
			continue
		}
		for _, sel := range c.e.methodsOfType(t) {
			sel := sel
			if skip != nil && skip(g.name, sel.Obj().Name()) {
				continue
			}
			what := g.name + "." + sel.Obj().Name()
			c.obl(what, func(r *Run) {
				r.fastAppends(Sym(SBool, "fast", types.Typ[types.Bool]))
				f(r, g.mk(r), sel, what)
			})
		}
	}
}

// isSort: part of sort.Interface, which only the sorting constructors use.
func isSort(rig, m string) bool { return m == "Swap" }

func checkC01(c *Check) {
	c.rule("an exported method of an immutable list, map, item, entry or scalar writes only memory it allocated itself or the output it was given, and updates no entry")
	c.noPanic = true
	rigs := append(append(collEffect("ImmutableList", "ImmutableMap"), scalarEffect()...), entryEffect("ImmutableItem", "ImmutableEntry")...)
	eachMethod(c, rigs, isSort, func(r *Run, v Val, sel *types.Selection, what string) {
		w := len(r.st.writes)
		r.callMethod(v, sel)
		r.noOldWrites(w, what)
		r.noUpdates(what)
	})
	for _, g := range []struct{ rig, m string }{{"ImmutableList", "UpdateAt"}, {"ImmutableMap", "Update"}, {"ImmutableItem", "Update"}, {"ImmutableEntry", "Update"}} {
		g := g
		for _, e := range append(collEffect("ImmutableList", "ImmutableMap"), entryEffect("ImmutableItem", "ImmutableEntry")...) {
			e := e
			if e.name != g.rig {
				continue
			}
			c.obl(g.rig+"."+g.m+" reports false", func(r *Run) {
				v := e.mk(r)
				for _, sel := range r.methodsOf(v) {
					if sel.Obj().Name() == g.m {
						_, res := r.callMethod(v, sel)
						r.same(res[0], False, g.rig+"."+g.m)
						r.noEvents(g.rig + "." + g.m)
						return
					}
				}
				r.violation("%s has no method %s", g.rig, g.m)
			})
		}
	}
	structs := func(n string) bool { return n == "PackStruct" || n == "UnpackStruct" }
	eachFunc(c, func(n string) bool { return sorting(n) || structs(n) }, func(r *Run, fn *ssa.Function, args []Val, what string) {
		r.noOldWrites(0, what)
		r.noUpdates(what)
	})
	m := c.e.modAnalysis()
	c.modFunc(m, "PackStruct", func(w modWrite) bool { return false })
	c.modFunc(m, "UnpackStruct", func(w modWrite) bool { return w.r.kind == 'P' && w.r.i == 1 })
}

func (r *Run) noUpdates(what string) {
	r.e.obligations++
	for _, e := range r.st.evs {
		if e.op == "Update" {
			r.violation("%s: calls Update on %s", what, show(e.args[0]))
		}
	}
}

// sorting constructors own the slice they are given and may reorder it.
func sorting(name string) bool {
	switch name {
	case "SparseList", "ImmutableMap", "SortedMap":
		return true
	}
	return false
}

// eachFunc: one obligation per exported function taking values.
func eachFunc(c *Check, skip func(name string) bool, f func(r *Run, fn *ssa.Function, args []Val, what string)) {
	sc := c.e.tpkg.Scope()
	for _, n := range sc.Names() {
		fo, ok := sc.Lookup(n).(*types.Func)
		if !ok || !fo.Exported() {
			continue
		}
		fn := c.e.prog.FuncValue(fo)
		if skip != nil && skip(n) {
			continue
		}
		n := n
		c.obl(n, func(r *Run) {
			r.e.contracts()
			r.e.packLog = strings.Contains(n, "Struct")
			var args []Val
			sig := fo.Type().(*types.Signature)
			for i := 0; i < sig.Params().Len(); i++ {
				args = append(args, r.argOf(fmt.Sprintf("arg%d", i), sig.Params().At(i).Type()))
			}
			w := len(r.st.writes)
			_ = w
			r.callFn(fn, args, nil)
			f(r, fn, args, n)
		})
	}
}

var _ = token.ADD

// ---- C06

func checkC06(c *Check) {
	c.rule("with AllowFastAppends false an edit method of a sparse list writes only memory it allocated itself, and its result is not stored in the receiver's spare capacity")
	c.noPanic = true
	g := sparseRig()
	c.obl("AllowFastAppends", func(r *Run) {
		v := r.e.pkg.Var("AllowFastAppends")
		if v == nil {
			r.violation("exported variable AllowFastAppends is missing")
		}
	})
	for _, m := range []string{"Append", "PutAt", "InsertAt", "InsertAll", "RemoveAt", "DeleteAll"} {
		m := m
		for _, key := range []bool{true, false} {
			key := key
			if m == "Append" && key {
				continue
			}
			what := g.name + "." + m
			if !key {
				what += " (items in any order)"
			}
			c.obl(what, func(r *Run) {
				r.fastAppends(False)
				name := ""
				if key {
					name = "key"
				}
				k := r.newKeyed(g, name)
				if m0 := r.st.meta[k.xs.obj]; m0 != nil {
					m2 := *m0
					m2.origin = "the storage of the receiver"
					r.st.meta[k.xs.obj] = &m2
				}
				w := len(r.st.writes)
				for _, sel := range r.methodsOf(k.l) {
					if sel.Obj().Name() != m {
						continue
					}
					var args []Val
					sig := sel.Obj().Type().(*types.Signature)
					for i := 0; i < sig.Params().Len(); i++ {
						if i == 0 && key {
							args = append(args, k.key)
							continue
						}
						args = append(args, r.argOf(fmt.Sprintf("arg%d", i), sig.Params().At(i).Type()))
					}
					r.method(k.l, m, args...)
					r.noOldWrites(w, what)
					return
				}
				r.violation("%s has no method %s", g.name, m)
			})
		}
	}
}

// ---- C07

func checkC07(c *Check) {
	c.rule("no list or map operation writes an argument slice (or its spare capacity) or keeps it as the storage of its result; decoding, decrypting and packing write no caller bytes")
	c.noPanic = true
	rigs := collEffect("ImmutableList", "MutableList", "SparseList", "ImmutableMap", "SortedMap")
	eachMethod(c, rigs, func(rig, m string) bool { return isSort(rig, m) || !c.e.takesSlice(m) }, func(r *Run, v Val, sel *types.Selection, what string) {
		w := len(r.st.writes)
		args, res := r.callMethod(v, sel)
		r.argsUntouched(w, args, res, what)
	})
	// the bytes held by strings and extensions
	eachMethod(c, scalarEffect(), nil, func(r *Run, v Val, sel *types.Selection, what string) {
		w := len(r.st.writes)
		r.callMethod(v, sel)
		r.noOldWrites(w, what)
	})
	owned := func(n string) bool {
		switch n {
		case "SparseList", "ImmutableMap", "SortedMap": // may sort what they are given
			return true
		}
		if n == "UnpackStruct" {
			return true
		}
		fo, ok := c.e.tpkg.Scope().Lookup(n).(*types.Func)
		if !ok {
			return true
		}
		ps := fo.Type().(*types.Signature).Params()
		for i := 0; i < ps.Len(); i++ {
			if _, ok := ps.At(i).Type().Underlying().(*types.Slice); ok {
				return false
			}
		}
		return strings.Contains(n, "Struct") || !strings.HasPrefix(n, "Pack") && n != "Seal" && n != "Hash" && n != "Write" && n != "Hex"
	}
	eachFunc(c, owned, func(r *Run, fn *ssa.Function, args []Val, what string) {
		r.noOldWrites(0, what)
	})
	c.modFunc(c.e.modAnalysis(), "UnpackStruct", func(w modWrite) bool { return w.r.kind == 'P' && w.r.i == 1 })
}

// takesSlice: some method of that name has a slice parameter.
func (e *Engine) takesSlice(m string) bool {
	for _, n := range []string{"List", "Map"} {
		t := e.typ(n)
		if t == nil {
			continue
		}
		obj, _, _ := types.LookupFieldOrMethod(t, false, e.tpkg, m)
		f, ok := obj.(*types.Func)
		if !ok {
			continue
		}
		ps := f.Type().(*types.Signature).Params()
		for i := 0; i < ps.Len(); i++ {
			if _, ok := ps.At(i).Type().Underlying().(*types.Slice); ok {
				return true
			}
		}
	}
	return false
}

// argsUntouched: no slice argument is written or becomes the storage of a
// result.
func (r *Run) argsUntouched(from int, args, res []Val, what string) {
	for _, a := range args {
		s, ok := a.(*SliceV)
		if !ok || s.obj == 0 {
			continue
		}
		r.e.obligations++
		for _, w := range r.st.writes[from:] {
			if w.obj == s.obj {
				r.violation("%s: writes the argument slice at %s in %s", what, w.pos, w.fn)
			}
		}
		for _, v := range res {
			v = r.pick(v)
			if iv, ok := v.(*IfaceV); ok {
				v = r.pick(iv.v)
			}
			if q, ok := v.(*SliceV); ok && q.obj == s.obj && r.st.f.entails(Gt(q.cap, IntC(0))) {
				r.violation("%s: the result uses the argument slice as its storage", what)
			} else if ok && q.obj == s.obj {
				r.violation("%s: the result may use the argument slice as its storage", what)
			}
		}
	}
}

// ---- C36

func checkC36(c *Check) {
	c.rule("reading, comparing, printing, packing or converting a value writes only memory allocated by the call and the output it was given")
	c.noPanic = true
	rigs := append(append(collEffect("ImmutableList", "MutableList", "SparseList", "ImmutableMap", "SortedMap"), scalarEffect()...), entryEffect("ImmutableItem", "ImmutableEntry", "MutableItem", "MutableEntry")...)
	eachMethod(c, rigs, func(rig, m string) bool { return isSort(rig, m) || editName(m) }, func(r *Run, v Val, sel *types.Selection, what string) {
		w := len(r.st.writes)
		r.callMethod(v, sel)
		r.noOldWrites(w, what)
		r.noUpdates(what)
	})
	m := c.e.modAnalysis()
	c.modFunc(m, "PackStruct", func(w modWrite) bool { return false })
	c.noGlobalWrites(m)
}

// editName: the operations that may change a mutable collection.
func editName(m string) bool {
	switch m {
	case "Append", "PutAt", "UpdateAt", "InsertAt", "RemoveAt", "InsertAll", "DeleteAll", "Put", "Insert", "Update", "Remove":
		return true
	}
	return false
}
