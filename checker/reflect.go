package main

import (
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Contracts of package reflect. By default values and types are
// uninterpreted; the setters are logged as writes to the value they are
// called on. With reflectOn, values of known Go types are followed: a
// reflect.Type is the type itself, a reflect.Value is a struct of its type,
// its content (or its address), and whether it can be set.
func (r *Run) reflectCall(fn *ssa.Function, name string, args []Val) []Val {
	m := fn.Name()
	if r.e.reflectOn {
		if res, ok := r.reflectKnown(fn, name, args); ok {
			return res
		}
		r.stuck("no contract for %s", name)
	}
	if fn.Signature.Recv() != nil && strings.HasPrefix(m, "Set") {
		r.emit("reflect.Set", r.freezeArgs(args)...)
		return nil
	}
	switch name {
	case "reflect.New", "reflect.MakeSlice", "reflect.MakeMap":
		v := r.fresh(fn.Signature.Results().At(0).Type(), "reflect."+m)
		r.emit("reflect."+m, append(r.freezeArgs(args), v)...)
		return []Val{v}
	}
	res := r.pureCall(name, fn.Signature, r.freezeArgs(args))
	for _, v := range res {
		if t, ok := v.(*Term); ok && t.typ != nil {
			if _, ok := t.typ.Underlying().(*types.Interface); ok && m != "Interface" {
				t.non = true
			}
		}
	}
	return res
}

// rtypes: the Go types behind the reflect.Type constants.
var rtypes sync.Map

const rtypePrefix = "reflect.type:"

func rtypeTerm(t types.Type, rt types.Type) *Term {
	k := rtypePrefix + typeKey(t)
	rtypes.Store(k, t)
	c := App(SOpaque, k, rt)
	c.non = true
	return c
}

// goType is the Go type of a reflect.Type constant, nil if it is not known.
func goType(v Val) types.Type {
	t, ok := v.(*Term)
	if !ok {
		return nil
	}
	if x, ok := rtypes.Load(t.op); ok {
		return x.(types.Type)
	}
	return nil
}

// rval is a reflect.Value.
type rval struct {
	ty   Val        // reflect.Type
	t    types.Type // nil: not known
	x    Val        // content, or its address
	addr bool
	ro   bool
}

func (r *Run) reflectTypes() (value, typ, field types.Type) {
	for _, p := range r.e.prog.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			s := p.Pkg.Scope()
			return s.Lookup("Value").Type(), s.Lookup("Type").Type(), s.Lookup("StructField").Type()
		}
	}
	r.stuck("package reflect is not loaded")
	return
}

func (r *Run) mkRval(v rval) Val {
	vt, tt, _ := r.reflectTypes()
	ty := v.ty
	if ty == nil {
		ty = rtypeTerm(v.t, tt)
	}
	return &StructV{typ: vt, fields: []Val{ty, v.x, BoolC(v.addr), BoolC(v.ro)}}
}

func (r *Run) rvalOf(x Val) rval {
	s, ok := r.pick(x).(*StructV)
	if !ok || len(s.fields) != 4 {
		if t, ok := r.pick(x).(*Term); ok && t.op == "zero" {
			r.progPanic("use of the zero reflect.Value")
		}
		r.stuck("reflect.Value %s", show(x))
	}
	return rval{ty: s.fields[0], t: goType(s.fields[0]), x: s.fields[1], addr: s.fields[2] == Val(True), ro: s.fields[3] == Val(True)}
}

// known: the value's type must be known.
func (r *Run) known(v rval) types.Type {
	if v.t == nil {
		r.stuck("reflect.Value of unknown type %s", show(v.ty))
	}
	return v.t
}

func (r *Run) rget(v rval) Val {
	if v.addr {
		return r.pick(r.load(v.x.(*PtrV)))
	}
	return r.pick(v.x)
}

func kindOfType(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// valueOf is reflect.ValueOf.
func (r *Run) valueOfIface(x Val) Val {
	_, tt, _ := r.reflectTypes()
	switch x := r.pick(x).(type) {
	case *NilV:
		return App(SOpaque, "zero", tt)
	case *IfaceV:
		return r.mkRval(rval{t: x.dyn, x: x.v})
	case *Term:
		if r.Decide(IsNilAtom(x)) {
			return App(SOpaque, "zero", tt)
		}
		return r.mkRval(rval{ty: r.dynTypeOf(x), x: x})
	}
	r.stuck("reflect.ValueOf %s", show(x))
	return nil
}

// dynTypeOf: the dynamic type of a library value is its Class.
func (r *Run) dynTypeOf(x *Term) Val {
	_, tt, _ := r.reflectTypes()
	c := App(SOpaque, "call:Class", tt, x)
	c.non = true
	return c
}

// assignable: a value of type ty may be stored as t.
func (r *Run) assignable(ty Val, t types.Type) *Term {
	if g := goType(ty); g != nil {
		return BoolC(types.AssignableTo(g, t))
	}
	_, tt, _ := r.reflectTypes()
	return App(SBool, "call:AssignableTo", types.Typ[types.Bool], ty, rtypeTerm(t, tt))
}

// stored: the content of v as a variable of type t.
func (r *Run) asType(v rval, t types.Type) Val {
	x := r.rget(v)
	if types.IsInterface(t) && v.t != nil && !types.IsInterface(v.t) {
		return &IfaceV{v.t, x}
	}
	return x
}

func (r *Run) reflectKnown(fn *ssa.Function, name string, args []Val) ([]Val, bool) {
	_, tt, _ := r.reflectTypes()
	one := func(v Val) ([]Val, bool) { return []Val{v}, true }
	typ := func(v Val) types.Type {
		t := goType(r.pick(v))
		if t == nil {
			r.stuck("%s of %s", name, show(v))
		}
		return t
	}
	switch name {
	case "reflect.ValueOf":
		return one(r.valueOfIface(args[0]))
	case "reflect.ArrayOf":
		n := r.intVal(args[0])
		k, ok := n.int64()
		if !ok {
			r.stuck("reflect.ArrayOf of %s elements", n)
		}
		if k < 0 {
			r.progPanic("reflect.ArrayOf: negative length")
		}
		return one(rtypeTerm(types.NewArray(typ(args[1]), k), tt))
	case "reflect.New":
		t := typ(args[0])
		if a, ok := t.Underlying().(*types.Array); ok {
			r.noteAlloc(IntC(a.Len()))
		}
		id := r.st.newObj(r.zero(t), &Meta{fresh: true, typ: t})
		pt := types.NewPointer(t)
		return one(r.mkRval(rval{t: pt, x: &PtrV{obj: id, typ: pt}}))
	case "reflect.Zero":
		t := typ(args[0])
		return one(r.mkRval(rval{t: t, x: r.zero(t)}))
	case "reflect.PtrTo", "reflect.PointerTo":
		return one(rtypeTerm(types.NewPointer(typ(args[0])), tt))
	case "reflect.SliceOf":
		return one(rtypeTerm(types.NewSlice(typ(args[0])), tt))
	case "reflect.MakeSlice":
		t := typ(args[0])
		n, c := r.intVal(args[1]), r.intVal(args[2])
		r.require(Ge0(n), "reflect.MakeSlice: negative len")
		r.require(Ge(c, n), "reflect.MakeSlice: len > cap")
		r.noteAlloc(c)
		s := r.newSlice(t, c, []Seg{{IntC(0), c, nil, r.zero(elemType(t))}}, nil)
		s.len = n
		return one(r.mkRval(rval{t: t, x: s}))
	case "reflect.Append", "reflect.AppendSlice":
		v := r.rvalOf(args[0])
		t := r.known(v)
		s, ok := r.rget(v).(*SliceV)
		if !ok {
			r.stuck("reflect.Append to %s", show(r.rget(v)))
		}
		var add []Val
		if name == "reflect.AppendSlice" {
			w := r.rvalOf(args[1])
			q, ok := r.rget(w).(*SliceV)
			if !ok {
				r.stuck("reflect.AppendSlice of %s", show(args[1]))
			}
			return one(r.mkRval(rval{t: t, x: r.appendSegs(s, q.len, r.sliceSegs(q), t)}))
		}
		xs, ok := r.pick(args[1]).(*SliceV)
		if !ok {
			r.stuck("reflect.Append of %s", show(args[1]))
		}
		n, ok := xs.len.int64()
		if !ok || n > 8 {
			r.stuck("reflect.Append of %s values", xs.len)
		}
		for i := int64(0); i < n; i++ {
			w := r.rvalOf(r.segRead(r.sliceSegs(xs), IntC(i)))
			r.require(r.assignable(w.ty, elemType(t)), "reflect.Append: value is not assignable")
			add = append(add, r.asType(w, elemType(t)))
		}
		var segs []Seg
		for i, x := range add {
			segs = append(segs, Seg{IntC(int64(i)), IntC(int64(i + 1)), nil, x})
		}
		return one(r.mkRval(rval{t: t, x: r.appendSegs(s, IntC(int64(len(add))), segs, t)}))
	case "(reflect.StructTag).Lookup", "(reflect.StructTag).Get":
		tag, ok1 := r.pick(args[0]).(*Term)
		key, ok2 := r.pick(args[1]).(*Term)
		if !ok1 || !ok2 || tag.op != "str" || key.op != "str" {
			r.stuck("struct tag %s", show(args[0]))
		}
		s, ok := reflect.StructTag(tag.s).Lookup(key.s)
		if strings.HasSuffix(name, "Get") {
			return one(StrC(s))
		}
		return []Val{StrC(s), BoolC(ok)}, true
	case "(reflect.Kind).String":
		return r.pureCall(name, fn.Signature, args), true
	case "(reflect.StructField).IsExported":
		s, ok := r.pick(args[0]).(*StructV)
		if !ok {
			r.stuck("struct field %s", show(args[0]))
		}
		return one(r.eqVal(s.fields[1], StrC("")))
	}
	if !strings.HasPrefix(name, "(reflect.Value).") {
		return nil, false
	}
	if fn.Name() == "IsValid" {
		if t, ok := r.pick(args[0]).(*Term); ok && t.op == "zero" {
			return one(False)
		}
		return one(True)
	}
	v := r.rvalOf(args[0])
	exported := func() {
		if v.ro {
			r.progPanic("reflect: value obtained using an unexported field")
		}
	}
	switch fn.Name() {
	case "Type":
		return one(v.ty)
	case "CanSet":
		return one(BoolC(v.addr && !v.ro))
	case "CanAddr":
		return one(BoolC(v.addr))
	case "CanInterface":
		return one(BoolC(!v.ro))
	case "Kind":
		return one(IntC(int64(kindOfType(r.known(v)))))
	case "Interface":
		exported()
		x := r.rget(v)
		if v.t == nil || types.IsInterface(v.t) {
			return one(x)
		}
		return one(&IfaceV{v.t, x})
	case "IsNil":
		t := r.known(v)
		switch kindOfType(t) {
		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
			return one(r.isNil(r.rget(v)))
		}
		r.progPanic("reflect: IsNil on " + shortType(t))
	case "Len":
		t := r.known(v)
		switch x := r.rget(v).(type) {
		case *SliceV:
			return one(x.len)
		case *ArrayV:
			return one(x.n)
		case *Term:
			if x.sort == SStr {
				return one(strLen(x))
			}
		}
		switch kindOfType(t) {
		case reflect.Slice, reflect.Array, reflect.Map, reflect.String, reflect.Chan:
		default:
			r.progPanic("reflect: Len on " + shortType(t))
		}
	case "NumField":
		if st, ok := r.known(v).Underlying().(*types.Struct); ok {
			return one(IntC(int64(st.NumFields())))
		}
		r.progPanic("reflect: NumField on " + shortType(v.t))
	case "Field":
		st, ok := r.known(v).Underlying().(*types.Struct)
		if !ok {
			r.progPanic("reflect: Field on " + shortType(v.t))
		}
		i, ok := r.intVal(args[1]).int64()
		if !ok {
			r.stuck("field number %s", show(args[1]))
		}
		if i < 0 || i >= int64(st.NumFields()) {
			r.progPanic("reflect: Field index out of range")
		}
		f := st.Field(int(i))
		w := rval{t: f.Type(), addr: v.addr, ro: v.ro || !f.Exported()}
		if v.addr {
			w.x = r.fieldAddr(v.x, int(i), types.NewPointer(f.Type()))
		} else if s, ok := r.pick(v.x).(*StructV); ok {
			w.x = s.fields[i]
		} else {
			r.stuck("field of %s", show(v.x))
		}
		return one(r.mkRval(w))
	case "Index":
		t := r.known(v)
		i := r.intVal(args[1])
		switch x := r.rget(v).(type) {
		case *SliceV:
			et := elemType(t)
			return one(r.mkRval(rval{t: et, addr: true, ro: v.ro, x: r.indexAddr(x, i, types.NewPointer(et))}))
		case *ArrayV:
			et := elemType(t)
			if v.addr {
				return one(r.mkRval(rval{t: et, addr: true, ro: v.ro, x: r.indexAddr(v.x, i, types.NewPointer(et))}))
			}
		}
		r.stuck("reflect: Index on %s", shortType(t))
	case "Elem":
		t := r.known(v)
		switch kindOfType(t) {
		case reflect.Ptr:
			et := elemType(t)
			switch x := r.rget(v).(type) {
			case *NilV:
				return one(App(SOpaque, "zero", tt))
			case *PtrV:
				return one(r.mkRval(rval{t: et, addr: true, ro: v.ro, x: x}))
			case *NewV:
				id := r.st.newObj(x.cell, &Meta{origin: "element built by a loop", typ: x.typ})
				return one(r.mkRval(rval{t: et, addr: true, ro: v.ro, x: &PtrV{obj: id, typ: x.typ}}))
			case *Term:
				if r.Decide(IsNilAtom(x)) {
					return one(App(SOpaque, "zero", tt))
				}
				return one(r.mkRval(rval{t: et, addr: true, ro: v.ro, x: &PtrV{obj: r.symPtr(x), typ: t}}))
			}
		case reflect.Interface:
			w := r.valueOfIface(r.rget(v))
			if s, ok := w.(*StructV); ok && v.ro {
				s.fields[3] = True
			}
			return one(w)
		default:
			r.progPanic("reflect: Elem on " + shortType(t))
		}
	case "Addr":
		if !v.addr {
			r.progPanic("reflect: Addr of a value that is not addressable")
		}
		return one(r.mkRval(rval{t: types.NewPointer(r.known(v)), x: v.x, ro: v.ro}))
	case "Set", "SetLen":
		exported()
		if !v.addr {
			r.progPanic("reflect: Set of a value that cannot be set")
		}
		t := r.known(v)
		if fn.Name() == "SetLen" {
			x, ok := r.rget(v).(*SliceV)
			q, ok2 := v.x.(*PtrV)
			if !ok || !ok2 {
				break
			}
			n := r.intVal(args[1])
			r.require(And(Ge0(n), Le(n, x.cap)), "reflect: slice length out of range in SetLen")
			z := *x
			z.len = n
			r.store(q, &z)
			return nil, true
		}
		if z, ok := r.pick(args[1]).(*Term); ok && z.op == "zero" {
			r.progPanic("reflect: Set with the zero reflect.Value")
		}
		w := r.rvalOf(args[1])
		if w.ro {
			r.progPanic("reflect: value obtained using an unexported field")
		}
		r.require(r.assignable(w.ty, t), "reflect.Set: value of type "+show(w.ty)+" is not assignable to "+shortType(t))
		r.store(v.x.(*PtrV), r.asType(w, t))
		return nil, true
	case "Grow":
		exported()
		n := r.intVal(args[1])
		r.require(Ge0(n), "reflect.Value.Grow: negative len")
		r.noteAlloc(n)
		q, ok := v.x.(*PtrV)
		if !ok || !v.addr {
			r.progPanic("reflect: Grow of a value that cannot be set")
		}
		x, ok := r.rget(v).(*SliceV)
		if !ok {
			break
		}
		w := r.appendSegs(x, n, []Seg{{IntC(0), n, nil, r.zero(elemType(r.known(v)))}}, r.known(v))
		if y, ok := w.(*SliceV); ok {
			z := *y
			z.len = x.len
			r.store(q, &z)
			return nil, true
		}
	case "Slice":
		t := r.known(v)
		lo, hi := r.intVal(args[1]), r.intVal(args[2])
		switch x := r.rget(v).(type) {
		case *SliceV:
			r.require(And(Ge0(lo), And(Le(lo, hi), Le(hi, x.cap))), "reflect.Value.Slice: slice index out of bounds")
			z := *x
			z.off, z.len, z.cap = Add(x.off, lo), Sub(hi, lo), Sub(x.cap, lo)
			return one(r.mkRval(rval{t: t, x: &z, ro: v.ro}))
		case *ArrayV:
			q, ok := v.x.(*PtrV)
			if !ok || !v.addr {
				r.progPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			r.require(And(Ge0(lo), And(Le(lo, hi), Le(hi, x.n))), "reflect.Value.Slice: array index out of bounds")
			st := types.NewSlice(elemType(t))
			return one(r.mkRval(rval{t: st, ro: v.ro, x: &SliceV{q.obj, q.path, lo, Sub(hi, lo), Sub(x.n, lo), st}}))
		}
	case "Cap":
		if x, ok := r.rget(v).(*SliceV); ok {
			return one(x.cap)
		}
	case "SetZero":
		exported()
		if !v.addr {
			r.progPanic("reflect: SetZero of a value that cannot be set")
		}
		r.store(v.x.(*PtrV), r.zero(r.known(v)))
		return nil, true
	}
	return nil, false
}

// typeMethod is a method of a known reflect.Type.
func (r *Run) typeMethod(x *Term, t types.Type, m *types.Func, args []Val) ([]Val, bool) {
	one := func(v Val) ([]Val, bool) { return []Val{v}, true }
	_, tt, ft := r.reflectTypes()
	arg := func() types.Type {
		u := goType(r.pick(args[0]))
		if u == nil {
			r.stuck("%s(%s)", m.Name(), show(args[0]))
		}
		return u
	}
	switch m.Name() {
	case "Kind":
		return one(IntC(int64(kindOfType(t))))
	case "Elem":
		e := elemType(t)
		if e == nil {
			r.progPanic("reflect: Elem of type " + shortType(t))
		}
		return one(rtypeTerm(e, tt))
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return one(rtypeTerm(u.Key(), tt))
		}
		r.progPanic("reflect: Key of type " + shortType(t))
	case "Name":
		switch n := t.(type) {
		case *types.Named:
			return one(StrC(n.Obj().Name()))
		case *types.Basic:
			return one(StrC(n.Name()))
		}
		return one(StrC(""))
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return one(StrC(n.Obj().Pkg().Path()))
		}
		return one(StrC(""))
	case "String":
		// type names are not unique: only the last part of the package path
		return one(StrC(types.TypeString(t, func(p *types.Package) string { return p.Name() })))
	case "NumField":
		if st, ok := t.Underlying().(*types.Struct); ok {
			return one(IntC(int64(st.NumFields())))
		}
		r.progPanic("reflect: NumField of type " + shortType(t))
	case "Field":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			r.progPanic("reflect: Field of type " + shortType(t))
		}
		i, ok := r.intVal(args[0]).int64()
		if !ok {
			r.stuck("field number %s", show(args[0]))
		}
		if i < 0 || i >= int64(st.NumFields()) {
			r.progPanic("reflect: Field index out of bounds")
		}
		f := st.Field(int(i))
		pp := ""
		if !f.Exported() && f.Pkg() != nil {
			pp = f.Pkg().Path()
		}
		fs := ft.Underlying().(*types.Struct)
		sv := &StructV{typ: ft}
		for j := 0; j < fs.NumFields(); j++ {
			var v Val
			switch fs.Field(j).Name() {
			case "Name":
				v = StrC(f.Name())
			case "PkgPath":
				v = StrC(pp)
			case "Type":
				v = rtypeTerm(f.Type(), tt)
			case "Tag":
				v = StrC(st.Tag(int(i)))
			case "Anonymous":
				v = BoolC(f.Embedded())
			case "Index":
				v = r.newSlice(fs.Field(j).Type(), IntC(1), []Seg{{IntC(0), IntC(1), nil, IntC(i)}}, nil)
			default:
				v = r.zero(fs.Field(j).Type())
			}
			sv.fields = append(sv.fields, v)
		}
		return one(sv)
	case "Implements":
		u := arg()
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			r.progPanic("reflect: non-interface type passed to Type.Implements")
		}
		return one(BoolC(types.Implements(t, it)))
	case "AssignableTo":
		return one(BoolC(types.AssignableTo(t, arg())))
	case "ConvertibleTo":
		return one(BoolC(types.ConvertibleTo(t, arg())))
	case "Comparable":
		return one(BoolC(types.Comparable(t)))
	}
	r.stuck("no contract for %s of a type", m.Name())
	return nil, false
}

// ---- sync.Map

// syncMap: the entries stored so far, in order.
func (r *Run) syncMap(p Val) (*PtrV, []Event) {
	q, ok := r.pick(p).(*PtrV)
	if !ok {
		r.stuck("sync.Map %s", show(p))
	}
	if s, ok := r.load(q).(*SinkV); ok {
		return q, s.evs
	}
	return q, nil
}

func (r *Run) syncGet(evs []Event, k Val) (Val, bool) {
	for i := len(evs) - 1; i >= 0; i-- {
		if r.Decide(r.eqVal(evs[i].args[0], k)) {
			if evs[i].op == "delete" {
				return nil, false
			}
			return evs[i].args[1], true
		}
	}
	return nil, false
}

// syncPut: the operations of a sync.Map synchronise themselves, they are no
// plain writes.
func (r *Run) syncPut(q *PtrV, evs []Event, op string, k, v Val) {
	r.emit("sync."+op, k, v)
	n := &SinkV{kind: "sync.Map", evs: append(evs[:len(evs):len(evs)], Event{op: op, args: []Val{k, v}})}
	r.st.heap[q.obj] = r.setPath(r.st.heap[q.obj], q.path, n)
}

func init() {
	anyT := types.Universe.Lookup("any").Type()
	on := func(f modelFn) modelFn {
		return func(r *Run, fn *ssa.Function, a []Val) []Val {
			return f(r, fn, a)
		}
	}
	lock := func(r *Run, fn *ssa.Function, a []Val) []Val {
		r.emit("sync.lock")
		return nil
	}
	syncModels = map[string]modelFn{
		"(*sync.Mutex).Lock": lock, "(*sync.Mutex).Unlock": lock, "(*sync.RWMutex).Lock": lock, "(*sync.RWMutex).Unlock": lock,
		"(*sync.RWMutex).RLock": lock, "(*sync.RWMutex).RUnlock": lock,
		"(*sync.Map).Load": on(func(r *Run, fn *ssa.Function, a []Val) []Val {
			_, evs := r.syncMap(a[0])
			if v, ok := r.syncGet(evs, a[1]); ok {
				return []Val{v, True}
			}
			return []Val{&NilV{anyT}, False}
		}),
		"(*sync.Map).Store": on(func(r *Run, fn *ssa.Function, a []Val) []Val {
			q, evs := r.syncMap(a[0])
			r.syncPut(q, evs, "store", a[1], a[2])
			return nil
		}),
		"(*sync.Map).Delete": on(func(r *Run, fn *ssa.Function, a []Val) []Val {
			q, evs := r.syncMap(a[0])
			r.syncPut(q, evs, "delete", a[1], &NilV{anyT})
			return nil
		}),
		"(*sync.Map).LoadOrStore": on(func(r *Run, fn *ssa.Function, a []Val) []Val {
			q, evs := r.syncMap(a[0])
			if v, ok := r.syncGet(evs, a[1]); ok {
				return []Val{v, True}
			}
			r.syncPut(q, evs, "store", a[1], a[2])
			return []Val{a[2], False}
		}),
		"(*sync.Map).LoadAndDelete": on(func(r *Run, fn *ssa.Function, a []Val) []Val {
			q, evs := r.syncMap(a[0])
			if v, ok := r.syncGet(evs, a[1]); ok {
				r.syncPut(q, evs, "delete", a[1], &NilV{anyT})
				return []Val{v, True}
			}
			return []Val{&NilV{anyT}, False}
		}),
	}
}

var syncModels map[string]modelFn
