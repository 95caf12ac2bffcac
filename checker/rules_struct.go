package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"

	"reflect"

	"golang.org/x/tools/go/ssa"
)

// Struct types are enumerated (their contents are not): the rules below run
// over witness types that cover every kind of field.

type sf struct {
	name string
	tag  string
	t    types.Type
}

func (e *Engine) witness(pkg, name string, fs ...sf) *types.Named {
	n := types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("witness/"+pkg, path.Base(pkg)), name, nil), nil, nil)
	e.setFields(n, fs...)
	return n
}

// local is a type declared in a function: other types have its name and path.
func (e *Engine) local(pkg, name string, fs ...sf) *types.Named {
	n := e.witness(pkg, name, fs...)
	samePath.Store(n.Obj().Pkg(), fmt.Sprintf("%s#%p", n.Obj().Pkg().Path(), n))
	return n
}

func (e *Engine) setFields(n *types.Named, fs ...sf) {
	var vars []*types.Var
	var tags []string
	for _, f := range fs {
		name, embedded := strings.CutPrefix(f.name, "embedded ")
		vars = append(vars, types.NewField(token.NoPos, e.tpkg, name, f.t, embedded))
		tags = append(tags, f.tag)
	}
	n.SetUnderlying(types.NewStruct(vars, tags))
}

func tagged(n int) string { return fmt.Sprintf(`tag:"%d"`, n) }

// fieldInfo is what the tags of a witness field say.
type fieldInfo struct {
	i        int
	tag      int64
	name     string
	array    bool
	repeated bool
	inner    *types.Struct // pointer to a struct
	elem     types.Type
}

// fieldsOf: the fields in tag order.
func fieldsOf(st *types.Struct) []fieldInfo {
	var fs []fieldInfo
	for i := 0; i < st.NumFields(); i++ {
		f := fieldInfo{i: i, name: st.Field(i).Name()}
		tg := reflect.StructTag(st.Tag(i))
		n, _ := strconv.Atoi(tg.Get("tag"))
		f.tag = int64(n)
		f.repeated, _ = strconv.ParseBool(tg.Get("repeated"))
		f.elem = st.Field(i).Type()
		if s, ok := f.elem.Underlying().(*types.Slice); ok {
			f.array = true
			f.elem = s.Elem()
		}
		if p, ok := f.elem.Underlying().(*types.Pointer); ok {
			f.inner = p.Elem().Underlying().(*types.Struct)
		}
		fs = append(fs, f)
	}
	sort.SliceStable(fs, func(a, b int) bool { return fs[a].tag < fs[b].tag })
	return fs
}

type witnessRig struct {
	name string
	t    *types.Named
	wide int // pairs to decode
}

func (e *Engine) witnesses() []witnessRig {
	T := e.typ
	ptr := func(n *types.Named) types.Type { return types.NewPointer(n) }
	slice := func(t types.Type) types.Type { return types.NewSlice(t) }
	rep := func(n int) string { return tagged(n) + ` repeated:"true"` }
	inner := e.witness("a", "Inner", sf{"S", tagged(2), T("String")}, sf{"B", tagged(1), T("Bool")})
	innerArr := e.witness("a", "InnerArr", sf{"L", tagged(5), slice(T("Value"))}, sf{"N", tagged(3), T("Number")})
	deep := e.witness("a", "Deep", sf{"In", tagged(1), ptr(inner)}, sf{"N", tagged(2), T("Number")})
	return []witnessRig{
		{"plain fields", e.witness("a", "Plain", sf{"A", tagged(1 << 40), T("Bool")}, sf{"B", tagged(1), T("Number")}, sf{"C", tagged(70000), T("String")}), 3},
		{"collection fields", e.witness("a", "Coll", sf{"L", tagged(100), T("List")}, sf{"M", tagged(-1), T("Map")}, sf{"V", tagged(20), T("Value")}), 2},
		{"an array field", e.witness("a", "Arr", sf{"N", tagged(2), T("Number")}, sf{"Xs", tagged(1), slice(T("String"))}), 2},
		{"two array fields", e.witness("a", "Arr2", sf{"Xs", tagged(1), slice(T("Value"))}, sf{"Ys", tagged(2), slice(T("Number"))}), 2},
		{"a repeated field", e.witness("a", "Rep", sf{"Xs", rep(1), slice(T("String"))}, sf{"N", tagged(2), T("Number")}), 3},
		{"two repeated fields", e.witness("a", "Rep2", sf{"Xs", rep(2), slice(T("Value"))}, sf{"Ys", rep(1), slice(T("Bool"))}), 3},
		{"array and repeated fields", e.witness("a", "Mix", sf{"Xs", rep(2), slice(T("Value"))}, sf{"Ys", tagged(1), slice(T("Value"))}), 2},
		{"a repeated flag on a plain field", e.witness("a", "RepPlain", sf{"N", rep(1), T("Number")}, sf{"S", tagged(2), T("String")}), 2},
		{"a struct field", e.witness("a", "Outer", sf{"In", tagged(2), ptr(inner)}, sf{"N", tagged(1), T("Number")}), 2},
		{"a struct field after another", e.witness("a", "Outer2", sf{"N", tagged(1), T("Number")}, sf{"In", tagged(200), ptr(inner)}), 2},
		{"a struct field with an array", e.witness("a", "OuterArr", sf{"In", tagged(1), ptr(innerArr)}), 1},
		{"nested struct fields", e.witness("a", "Deeper", sf{"D", tagged(7), ptr(deep)}, sf{"S", tagged(1), T("String")}), 1},
		{"an array of structs", e.witness("a", "Structs", sf{"Xs", tagged(1), slice(ptr(inner))}), 1},
		{"a repeated struct field", e.witness("a", "RepStructs", sf{"Xs", rep(4), slice(ptr(inner))}, sf{"N", tagged(6), T("Number")}), 2},
		{"no fields", e.witness("a", "Empty"), 1},
	}
}

// structMode: reflection over known types, tokens logged.
func (r *Run) structMode() {
	r.e.reflectOn = true
	r.e.packLog = true
	r.e.reenter = func(q *Run, fn *ssa.Function) bool {
		n := 0
		for _, s := range q.stack {
			if s == fn {
				n++
			}
		}
		if n > 12 {
			q.violation("endless recursion in %s", fn.Name())
		}
		return true
	}
	r.e.hook = func(q *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
		if len(q.stack) == 0 {
			return nil, false
		}
		if q.e.isDecode(fn) {
			return q.decodeResult(fn, args), true
		}
		if res, ok := q.e.tokenMethod(q, fn, args); ok {
			return res, true
		}
		return q.e.packerMethod(q, fn, args)
	}
}

// tokenMethod: calls of a concrete unpacker or parser are logged; counts are
// small numbers.
func (e *Engine) tokenMethod(r *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
	rc := fn.Signature.Recv()
	if rc == nil || !e.interpretable(fn) {
		return nil, false
	}
	for _, in := range []string{"Unpacker", "Parser"} {
		pt, ok := e.typ(in).(*types.Named)
		if !ok {
			continue
		}
		it := pt.Underlying().(*types.Interface)
		if !types.Implements(rc.Type(), it) {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if m.Name() != fn.Name() {
				continue
			}
			last := func() *Event { return &r.st.evs[len(r.st.evs)-1] }
			switch in + "." + m.Name() {
			case "Parser.Error":
				for j := len(r.st.evs) - 1; j >= 0; j-- {
					if ev := r.st.evs[j]; ev.op == "ParseMap" || ev.op == "ParseList" {
						return []Val{ev.res[1]}, true
					}
				}
				return []Val{r.nilErr()}, true
			case "Parser.ParseMap", "Parser.ParseList":
				k := r.choose(e.maxCount + 2)
				if len(args) > 1 {
					r.emit(m.Name(), r.freezeArg(args[1]))
				} else {
					r.emit(m.Name())
				}
				if k == e.maxCount+1 {
					er := r.freshErr("parseerr")
					r.assume(Not(IsNilAtom(er)))
					last().res = []Val{IntC(0), er}
					return []Val{IntC(0)}, true
				}
				last().res = []Val{IntC(int64(k)), r.nilErr()}
				return []Val{IntC(int64(k))}, true
			}
			r.emit(in + "." + m.Name())
			res := r.freshResults(m.Type().(*types.Signature), m.Name())
			last().res = res
			return res, true
		}
	}
	return nil, false
}

// hugeCounts: containers announce 2^40 children; what follows the last
// announcement is the end of the input.
func (r *Run) hugeCounts() {
	inner := r.e.hook
	r.e.maxCount = 1
	const huge = 1 << 40
	r.e.hook = func(q *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
		if len(q.stack) == 0 {
			return nil, false
		}
		ended := false
		for _, e := range q.st.evs {
			ended = ended || e.op == "end"
		}
		e0 := len(q.st.evs)
		res, ok := inner(q, fn, args)
		if !ok || len(q.st.evs) == e0 {
			return res, ok
		}
		ev := &q.st.evs[len(q.st.evs)-1]
		switch ev.op {
		case "ParseMap", "ParseList":
			if n, ok := ev.res[0].(*Term).int64(); ok && n == 1 && q.choose(2) == 0 {
				ev.res[0] = IntC(huge)
				q.emit("end")
				return []Val{IntC(huge)}, true
			}
		case "Unpacker.Next":
			if ended {
				q.assume(EqI(q.intVal(ev.res[0]), q.cons("EOF")))
			}
		case "decode":
			if ended {
				q.assume(Not(q.isNil(ev.res[1])))
			}
		}
		return res, true
	}
}

// newStruct is a pointer to a struct with symbolic contents; nil pointers and
// slices included.
func (r *Run) newStruct(n *types.Named, pre string) (Val, *PtrV) {
	p := r.structPtr(n, pre)
	return &IfaceV{p.typ, p}, p
}

func (r *Run) structPtr(n *types.Named, pre string) *PtrV {
	st := n.Underlying().(*types.Struct)
	sv := &StructV{typ: n}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		name := pre + f.Name()
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
			if in, ok := pt.Elem().(*types.Named); ok {
				if r.choose(2) == 0 {
					sv.fields = append(sv.fields, &NilV{f.Type()})
				} else {
					sv.fields = append(sv.fields, r.structPtr(in, name+"."))
				}
				continue
			}
		}
		v := r.in(name, f.Type())
		if s, ok := v.(*SliceV); ok {
			// nil slices are empty
			r.assume(Or(Not(r.isNil(s)), Eq0(s.len)))
		}
		sv.fields = append(sv.fields, v)
	}
	pt := types.NewPointer(n)
	id := r.st.newObj(sv, &Meta{origin: "the struct " + pre + n.Obj().Name(), typ: n})
	return &PtrV{obj: id, typ: pt}
}

// ---- C30

// structCount is the number of pairs the struct announces; the fields present.
func (r *Run) structCount(sv func(i int) Val, st *types.Struct) (*Term, []fieldInfo) {
	n := IntC(0)
	var fs []fieldInfo
	for _, f := range fieldsOf(st) {
		v := r.pick(sv(f.i))
		if r.Decide(r.isNil(v)) {
			continue
		}
		fs = append(fs, f)
		if f.array && f.repeated {
			n = Add(n, v.(*SliceV).len)
		} else {
			n = AddC(n, 1)
		}
	}
	return n, fs
}

type structCursor struct {
	evs  []Event
	what string
	cut  bool
}

// fieldVals reads the fields of the struct a pointer value refers to.
func (r *Run) fieldVals(p Val) func(i int) Val {
	return func(i int) Val {
		switch q := r.pick(p).(type) {
		case *PtrV:
			return r.getPath(r.st.heap[q.obj], append(q.path[:len(q.path):len(q.path)], Acc{field: i}))
		case *Term:
			pt := q.typ.Underlying().(*types.Pointer)
			return r.getPath(r.st.heap[r.symPtr(q)], []Acc{{field: i}}[:boolInt(pt != nil)])
		}
		r.stuck("struct %s", show(p))
		return nil
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// flatStruct: the events of a struct without arrays.
func (r *Run) flatStruct(p Val, st *types.Struct) []expEv {
	sv := r.fieldVals(p)
	n, fs := r.structCount(sv, st)
	evs := []expEv{packEv("PackMap", nil, n)}
	for _, f := range fs {
		evs = append(evs, packEv("PackLong", nil, IntC(f.tag)))
		evs = append(evs, r.flatValue(f, sv(f.i))...)
	}
	return evs
}

func (r *Run) flatValue(f fieldInfo, v Val) []expEv {
	if f.inner != nil {
		return r.flatStruct(v, f.inner)
	}
	return []expEv{{op: "Value.Pack", args: []Val{r.pick(v)}}}
}

func (c *structCursor) one(r *Run, x expEv) {
	for len(c.evs) > 0 && c.evs[0].loop != nil {
		l := c.evs[0].loop
		if r.Decide(Lt(l.from, l.n)) {
			m := &matcher{n: IntC(1), pos: IntC(0), what: c.what, child: func(*Run, *Term) []expEv { return []expEv{x} }}
			if !m.run(r, c.evs[:1]) {
				c.cut = true
				return
			}
			m.end(r)
			c.evs = c.evs[1:]
			return
		}
		c.evs = c.evs[1:]
	}
	r.e.obligations++
	if len(c.evs) == 0 {
		r.violation("%s: %s is not written", c.what, x.op+showArgs(x.args))
	}
	m := &matcher{n: IntC(1), pos: IntC(0), what: c.what, child: func(*Run, *Term) []expEv { return []expEv{x} }}
	m.single(r, c.evs[0])
	c.evs = c.evs[1:]
}

func (c *structCursor) many(r *Run, n *Term, child func(r *Run, k *Term) []expEv) {
	m := &matcher{n: n, pos: IntC(0), what: c.what, child: child}
	for m.pend > 0 || !r.Decide(EqI(m.pos, n)) {
		if len(c.evs) == 0 {
			r.violation("%s: only %s of %s elements are written", c.what, m.pos, n)
		}
		if !m.run(r, c.evs[:1]) {
			c.cut = true
			return
		}
		c.evs = c.evs[1:]
	}
}

func (c *structCursor) structOf(r *Run, p Val, st *types.Struct) {
	sv := r.fieldVals(p)
	n, fs := r.structCount(sv, st)
	c.one(r, packEv("PackMap", nil, n))
	for _, f := range fs {
		f := f
		if c.cut {
			return
		}
		v := r.pick(sv(f.i))
		if !f.array {
			c.one(r, packEv("PackLong", nil, IntC(f.tag)))
			if c.cut {
				return
			}
			if f.inner != nil {
				c.structOf(r, v, f.inner)
			} else {
				c.one(r, expEv{op: "Value.Pack", args: []Val{v}})
			}
			continue
		}
		s := v.(*SliceV)
		seq := r.seqOf(s)
		if !f.repeated {
			c.one(r, packEv("PackLong", nil, IntC(f.tag)))
			if c.cut {
				return
			}
			c.one(r, packEv("PackList", nil, s.len))
			if c.cut {
				return
			}
		}
		c.many(r, s.len, func(r *Run, k *Term) []expEv {
			var g []expEv
			if f.repeated {
				g = append(g, packEv("PackLong", nil, IntC(f.tag)))
			}
			return append(g, r.flatValue(f, seq.at(r, k))...)
		})
	}
}

// packEvents keeps what reaches the packer.
func packEvents(evs []Event) []Event {
	var out []Event
	for _, e := range evs {
		if e.loop != nil {
			n := *e.loop
			n.alts = nil
			some := false
			for _, a := range e.loop.alts {
				b := a
				b.evs = packEvents(a.evs)
				some = some || len(b.evs) > 0
				n.alts = append(n.alts, b)
			}
			if some {
				x := e
				x.loop = &n
				out = append(out, x)
			}
			continue
		}
		switch {
		case e.op == "Packer.Error":
		case len(e.op) > 7 && e.op[:7] == "Packer.", e.op == "Value.Pack":
			out = append(out, e)
		}
	}
	return out
}

// packedStruct packs obj and compares what is written.
func (r *Run) packedStruct(obj Val, p *PtrV, st *types.Struct, what string) {
	e0 := len(r.st.evs)
	w, o := len(r.st.writes), r.st.next
	res := r.call("PackStruct", obj).(*TupleV)
	r.noOldWrites2(w, o, nil, what)
	all := r.st.evs[e0:]
	if !r.Decide(r.isNil(res.vs[1])) {
		r.e.obligations++
		if t, ok := r.pick(res.vs[1]).(*Term); ok && t.op == "error" && !hasArrays(st) {
			r.violation("%s: packing fails: %s", what, t)
		}
		return
	}
	c := &structCursor{evs: packEvents(all), what: what}
	c.structOf(r, p, st)
	if c.cut {
		return
	}
	for len(c.evs) > 0 && c.evs[0].loop != nil && !r.Decide(Lt(c.evs[0].loop.from, c.evs[0].loop.n)) {
		c.evs = c.evs[1:]
	}
	r.e.obligations++
	if len(c.evs) > 0 {
		r.violation("%s: more is written after the last field: %s", what, c.evs[0])
	}
}

func hasArrays(st *types.Struct) bool {
	for _, f := range fieldsOf(st) {
		if f.array || f.inner != nil && hasArrays(f.inner) {
			return true
		}
	}
	return false
}

// noOldWrites2: what existed before is written only where allowed, under a
// lock or by sync.Map.
func (r *Run) noOldWrites2(from, before int, allowed func(w Write) bool, what string) {
	for _, e := range r.st.evs {
		if e.op == "sync.lock" {
			return
		}
	}
	r.e.obligations++
	for _, w := range r.st.writes[from:] {
		if w.m != nil && w.m.fresh && w.obj >= before || allowed != nil && allowed(w) {
			continue
		}
		o := "memory"
		if w.m != nil {
			o = w.m.origin
			if w.m.global != "" {
				o = w.m.global
			}
		}
		r.violation("%s writes %s at %s in %s", what, o, w.pos, w.fn)
	}
}

func checkC30(c *Check) {
	c.rule("the packer calls of PackStruct are a map header with the number of pairs, then for every non-nil field in tag order its tag and value; arrays with a list header of their length and each element once, repeated fields one tag per element")
	c.noPanic = false
	for _, g := range c.e.witnesses() {
		g := g
		c.obl(g.name, func(r *Run) {
			r.structMode()
			obj, p := r.newStruct(g.t, "")
			r.packedStruct(obj, p, g.t.Underlying().(*types.Struct), g.name)
		})
	}
	c.obl("nil", func(r *Run) {
		r.structMode()
		e0 := len(r.st.evs)
		r.call("PackStruct", &NilV{types.Universe.Lookup("any").Type()})
		cu := &structCursor{evs: packEvents(r.st.evs[e0:]), what: "nil"}
		cu.one(r, packEv("PackNil", nil))
		r.e.obligations++
		if len(cu.evs) > 0 {
			r.violation("nil: more is written than PackNil")
		}
	})
	c.obl("a value", func(r *Run) {
		r.structMode()
		v := Sym(SOpaque, "v", r.T("Value"))
		v.non = true
		e0 := len(r.st.evs)
		r.call("PackStruct", v)
		cu := &structCursor{evs: packEvents(r.st.evs[e0:]), what: "a value"}
		cu.one(r, expEv{op: "Value.Pack", args: []Val{v}})
		r.e.obligations++
		if len(cu.evs) > 0 {
			r.violation("a value: more is written")
		}
	})
}

// ---- C31

// decoded is the expected content of a field.
type decoded struct {
	v     Val           // plain
	elems []*decoded    // arrays
	arr   bool          // an array or repeated field that was met
	st    []*decoded    // struct: by field index
	typ   *types.Struct // struct type
}

type tokenWalk struct {
	evs   []Event
	pos   int
	what  string
	fails bool // an error was reported: find its reason
}

// reason: the walk found why decoding must fail.
type reasonFound struct{}

func (w *tokenWalk) bad(r *Run, format string, a ...interface{}) {
	r.e.obligations++
	if w.fails {
		panic(reasonFound{})
	}
	r.violation("%s: no error although "+format, append([]interface{}{w.what}, a...)...)
}

func (w *tokenWalk) next(r *Run, op string) Event {
	r.e.obligations++
	if w.pos >= len(w.evs) {
		if w.fails {
			r.violation("%s: an error is reported before anything is wrong with the input", w.what)
		}
		r.violation("%s: decoding stops before %s, without an error", w.what, op)
	}
	e := w.evs[w.pos]
	w.pos++
	if e.op != op {
		r.violation("%s: %s where %s is due", w.what, e.op, op)
	}
	return e
}

func (w *tokenWalk) header(r *Run, kind, parse string) int64 {
	e := w.next(r, "Unpacker.Next")
	if !r.Decide(EqI(r.intVal(e.res[0]), r.cons(kind))) {
		w.bad(r, "the token is no %s", kind)
	}
	m := w.next(r, parse)
	if len(m.args) > 0 {
		if f := r.freezeArg(e.res[1]); m.args[0].key() != f.key() {
			r.violation("%s: the header parsed is not the one read", w.what)
		}
	}
	if !r.Decide(r.isNil(m.res[1])) {
		w.bad(r, "the header is malformed")
	}
	n, _ := m.res[0].(*Term).int64()
	return n
}

func (w *tokenWalk) value(r *Run) Val {
	e := w.next(r, "decode")
	if !r.Decide(r.isNil(e.res[1])) {
		w.bad(r, "a value cannot be decoded")
	}
	return e.res[0]
}

func (w *tokenWalk) assign(r *Run, v Val, t types.Type) *decoded {
	if !r.Decide(r.assignable(r.dynTypeOf(v.(*Term)), t)) {
		w.bad(r, "a decoded value is not assignable to %s", shortType(t))
	}
	return &decoded{v: v}
}

func (w *tokenWalk) structOf(r *Run, d *decoded) {
	n := w.header(r, "MapHeader", "ParseMap")
	fs := fieldsOf(d.typ)
	for i := int64(0); i < n; i++ {
		k := w.value(r).(*Term)
		if !r.Decide(EqI(kindOf(k), r.cons("NUMBER"))) || !r.Decide(EqI(r.intVal(r.mAs("Number", k, "Type")), r.cons("LONG"))) {
			w.bad(r, "a key is no integer")
		}
		tag := r.intVal(r.mAs("Number", k, "Long"))
		var f *fieldInfo
		for j := range fs {
			if r.Decide(EqI(tag, IntC(fs[j].tag))) {
				f = &fs[j]
				break
			}
		}
		if f == nil {
			w.bad(r, "no field has the tag")
		}
		elem := func() *decoded {
			if f.inner != nil {
				x := &decoded{typ: f.inner, st: make([]*decoded, f.inner.NumFields())}
				w.structOf(r, x)
				return x
			}
			return w.assign(r, w.value(r), f.elem)
		}
		switch {
		case !f.array && f.inner != nil:
			x := d.st[f.i]
			if x == nil {
				x = &decoded{typ: f.inner, st: make([]*decoded, f.inner.NumFields())}
				d.st[f.i] = x
			}
			w.structOf(r, x)
		case !f.array:
			d.st[f.i] = elem()
		case f.repeated:
			x := d.st[f.i]
			if x == nil {
				x = &decoded{arr: true}
				d.st[f.i] = x
			}
			x.elems = append(x.elems, elem())
		default:
			x := &decoded{arr: true}
			d.st[f.i] = x
			m := w.header(r, "ListHeader", "ParseList")
			for j := int64(0); j < m; j++ {
				x.elems = append(x.elems, elem())
			}
		}
	}
}

func (r *Run) sameDecoded(got Val, d *decoded, what string) {
	got = r.pick(got)
	r.e.obligations++
	switch {
	case d == nil:
		if !r.Decide(r.isNil(got)) {
			r.violation("%s: a field that is not in the input is %s", what, show(got))
		}
	case d.arr:
		s, ok := got.(*SliceV)
		if !ok {
			r.stuck("%s: array is %s", what, show(got))
		}
		r.same(s.len, IntC(int64(len(d.elems))), what+": number of elements")
		for i, x := range d.elems {
			r.sameDecoded(r.readElem(s, IntC(int64(i))), x, fmt.Sprintf("%s: element %d", what, i))
		}
	case d.typ != nil:
		if r.Decide(r.isNil(got)) {
			r.violation("%s: a struct that was decoded is nil", what)
		}
		sv := r.fieldVals(got)
		for i, x := range d.st {
			r.sameDecoded(sv(i), x, what+"."+d.typ.Field(i).Name())
		}
	default:
		if r.Decide(r.isNil(got)) {
			r.violation("%s: a decoded value is dropped", what)
		}
		r.same(got, d.v, what)
	}
}

func tokenEvents(evs []Event) []Event {
	var out []Event
	for _, e := range evs {
		switch e.op {
		case "Unpacker.Next", "ParseMap", "ParseList", "decode":
			out = append(out, e)
		}
	}
	return out
}

func (r *Run) unpackedStruct(g witnessRig) {
	st := g.t.Underlying().(*types.Struct)
	pt := types.NewPointer(g.t)
	id := r.st.newObj(r.zero(g.t), &Meta{origin: "the target struct", typ: g.t})
	p := &PtrV{obj: id, typ: pt}
	obj := &IfaceV{pt, p}
	e0 := len(r.st.evs)
	w0, o0 := len(r.st.writes), r.st.next
	er := r.call("UnpackStruct", r.inSlice("input", byteT), obj, r.freshBool("copy"))
	for _, e := range r.st.evs[e0:] {
		if e.loop != nil {
			r.stuck("tokens are read in a summarised loop")
		}
	}
	r.noOldWrites2(w0, o0, func(w Write) bool { return w.obj == id }, g.name)
	w := &tokenWalk{evs: tokenEvents(r.st.evs[e0:]), what: g.name, fails: !r.Decide(r.isNil(er))}
	d := &decoded{typ: st, st: make([]*decoded, st.NumFields())}
	if func() (reason bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(reasonFound); !ok {
					panic(x)
				}
				reason = true
			}
		}()
		w.structOf(r, d)
		return false
	}() {
		return
	}
	r.e.obligations++
	if w.fails {
		r.violation("%s: valid input is rejected", g.name)
	}
	if w.pos < len(w.evs) {
		r.violation("%s: decoding reads on after the last field", g.name)
	}
	r.sameDecoded(p, d, g.name)
}

func checkC31(c *Check) {
	c.rule("UnpackStruct reports no error only if every token is of the kind due, every key the tag of a field and every value assignable; then each field holds exactly the decoded values of its tag, in order")
	c.noPanic = false
	for _, g := range c.e.witnesses() {
		g := g
		c.obl(g.name, func(r *Run) {
			r.structMode()
			r.e.maxCount = g.wide
			r.unpackedStruct(g)
		})
	}
}

// ---- C32

// invalid struct types: each must be rejected.
func (e *Engine) badTypes() []witnessRig {
	T := e.typ
	ptr := func(n types.Type) types.Type { return types.NewPointer(n) }
	slice := func(t types.Type) types.Type { return types.NewSlice(t) }
	B := types.Typ
	var out []witnessRig
	bad := func(name string, fs ...sf) *types.Named {
		n := e.witness("b", fmt.Sprintf("Bad%d", len(out)), fs...)
		out = append(out, witnessRig{name: name, t: n})
		return n
	}
	ok := sf{"Ok", tagged(9), T("Value")}
	inner := bad("an untagged field", ok, sf{"A", "", T("Bool")})
	bad("only an untagged field", sf{"A", "", T("Bool")})
	bad("a field with another tag", sf{"A", `json:"1"`, T("Number")}, ok)
	bad("an untagged field after a repeated one", sf{"A", tagged(1) + ` repeated:"true"`, slice(T("Value"))}, sf{"B", `repeated:"true"`, slice(T("Value"))})
	bad("a tag that is no number", ok, sf{"A", `tag:"x"`, T("Bool")})
	bad("an empty tag", sf{"A", `tag:""`, T("String")}, ok)
	bad("a fractional tag", sf{"A", `tag:"1.5"`, T("String")}, ok)
	bad("a tag followed by more", sf{"A", `tag:"1,omitempty"`, T("String")}, ok)
	bad("a tag above 64 bits", sf{"A", `tag:"99999999999999999999"`, T("String")}, ok)
	bad("two fields with the same tag", sf{"A", tagged(1), T("String")}, sf{"B", tagged(1), T("Number")})
	bad("first and last field with the same tag", sf{"A", tagged(4), T("String")}, sf{"B", tagged(1), T("Number")}, sf{"C", tagged(4), T("Value")})
	bad("two array fields with the same tag", sf{"A", tagged(1), slice(T("String"))}, sf{"B", tagged(1), slice(T("Value"))})
	bad("the same tag written differently", sf{"A", tagged(1), T("String")}, sf{"B", `tag:"01"`, T("Number")})
	bad("tag zero twice", sf{"A", tagged(0), T("String")}, sf{"B", tagged(0), T("Number")})
	bad("an int field", ok, sf{"A", tagged(1), B[types.Int]})
	bad("a string field", sf{"A", tagged(1), B[types.String]}, ok)
	bad("a byte slice field", sf{"A", tagged(1), slice(B[types.Uint8])}, ok)
	bad("a Go map field", sf{"A", tagged(1), types.NewMap(B[types.String], T("Value"))}, ok)
	bad("an error field", sf{"A", tagged(1), types.Universe.Lookup("error").Type()}, ok)
	bad("an empty interface field", sf{"A", tagged(1), types.Universe.Lookup("any").Type()}, ok)
	bad("an unexported field", ok, sf{"a", tagged(1), T("Value")})
	hidden := e.witness("b", "hidden", sf{"S", tagged(1), T("String")})
	bad("an unexported embedded struct", ok, sf{"embedded hidden", tagged(1), ptr(hidden)})
	bad("an unexported array field", ok, sf{"list", tagged(1), slice(T("Value"))})
	bad("an unexported field after a repeated one", sf{"A", tagged(1) + ` repeated:"true"`, slice(T("Value"))}, sf{"b", tagged(2), ptr(hidden)})
	bad("a fixed size array field", ok, sf{"A", tagged(1), types.NewArray(T("Value"), 2)})
	good := e.witness("b", "Good", sf{"S", tagged(1), T("String")})
	bad("a struct field that is no pointer", ok, sf{"A", tagged(1), good})
	bad("an array of structs that are no pointers", ok, sf{"A", tagged(1), slice(good)})
	bad("a pointer to an int", sf{"A", tagged(1), ptr(B[types.Int])}, ok)
	bad("a pointer to a pointer", sf{"A", tagged(1), ptr(ptr(good))}, ok)
	bad("a pointer to a slice", sf{"A", tagged(1), ptr(slice(T("Value")))}, ok)
	bad("a slice of slices", sf{"A", tagged(1), slice(slice(T("Value")))}, ok)
	bad("a pointer to an invalid struct", sf{"A", tagged(1), ptr(inner)}, ok)
	bad("an array of pointers to an invalid struct", ok, sf{"A", tagged(1), slice(ptr(inner))})
	mid := e.witness("b", "Mid", sf{"A", tagged(1), ptr(inner)})
	bad("an invalid struct two levels down", ok, sf{"A", tagged(2), ptr(mid)})
	bad("a valid and an invalid struct", sf{"A", tagged(1), ptr(good)}, sf{"B", tagged(2), ptr(inner)})
	return out
}

// rejected: both entry points report an error and nothing is cached.
func (r *Run) rejected(n *types.Named, what string) {
	obj, p := r.newStruct(n, "")
	key := p.typ
	call := func(fn string) {
		e0 := len(r.st.evs)
		var er Val
		if fn == "PackStruct" {
			er = r.call(fn, obj).(*TupleV).vs[1]
		} else {
			er = r.call(fn, r.inSlice("input", byteT), obj, False)
		}
		r.e.obligations++
		if r.Decide(r.isNil(er)) {
			r.violation("%s: %s accepts the type", what, fn)
		}
		for _, e := range r.st.evs[e0:] {
			if e.op != "sync.store" {
				continue
			}
			r.e.obligations++
			if k := goType(r.pick(e.args[0])); k != nil && types.Identical(k, key) {
				r.violation("%s: the rejected type is cached", what)
			}
		}
	}
	call("PackStruct")
	call("UnpackStruct")
	call("PackStruct")
}

func checkC32(c *Check) {
	c.rule("every witness type that violates the tagging rules is rejected by PackStruct and UnpackStruct, each time, and is never stored in the schema cache; with any other type cached before, a type is packed and decoded by its own schema; cached schemas are not written")
	c.noPanic = false
	e := c.e
	for _, g := range e.badTypes() {
		g := g
		c.obl("rejects "+g.name, func(r *Run) {
			r.structMode()
			r.rejected(g.t, g.name)
		})
	}
	c.obl("rejects a recursive type", func(r *Run) {
		r.structMode()
		n := e.witness("b", "Rec")
		e.setFields(n, sf{"A", tagged(1), e.typ("Value")}, sf{"Next", tagged(2), types.NewPointer(n)})
		r.recursive(n, "a recursive type")
	})
	c.obl("rejects a type recursive through an array", func(r *Run) {
		r.structMode()
		n := e.witness("b", "Tree")
		e.setFields(n, sf{"Kids", tagged(1), types.NewSlice(types.NewPointer(n))})
		r.recursive(n, "a recursive type")
	})
	c.obl("rejects two types recursive through each other", func(r *Run) {
		r.structMode()
		n, m := e.witness("b", "RecA"), e.witness("b", "RecB")
		e.setFields(n, sf{"A", tagged(1), types.NewPointer(m)})
		e.setFields(m, sf{"B", tagged(1), types.NewPointer(n)})
		r.recursive(n, "a recursive type")
		r.recursive(m, "a recursive type")
	})
	c.obl("rejects what is no pointer to a struct", func(r *Run) {
		r.structMode()
		good := e.witness("b", "Good2", sf{"S", tagged(1), e.typ("String")})
		st := r.structPtr(good, "")
		objs := []Val{
			&IfaceV{good, r.load(st)},
			&IfaceV{types.Typ[types.Int], IntC(1)},
			&IfaceV{types.NewPointer(types.NewPointer(good)), &PtrV{obj: r.st.newObj(st, &Meta{fresh: true, typ: st.typ}), typ: types.NewPointer(st.typ)}},
			&IfaceV{types.NewPointer(types.Typ[types.Int]), &PtrV{obj: r.st.newObj(IntC(1), &Meta{fresh: true, typ: types.Typ[types.Int]}), typ: types.NewPointer(types.Typ[types.Int])}},
			&IfaceV{types.NewPointer(good), &NilV{types.NewPointer(good)}},
			&NilV{types.Universe.Lookup("any").Type()},
		}
		i := r.choose(len(objs))
		r.e.obligations++
		if _, isNil := objs[i].(*NilV); !isNil {
			r.must(Not(r.isNil(r.call("PackStruct", objs[i]).(*TupleV).vs[1])), "PackStruct accepts %s", show(objs[i]))
		}
		r.must(Not(r.isNil(r.call("UnpackStruct", r.inSlice("input", byteT), objs[i], False))), "UnpackStruct accepts %s", show(objs[i]))
	})
	// another type first
	T := e.typ
	ptr := func(n *types.Named) types.Type { return types.NewPointer(n) }
	a := e.witness("a", "Same", sf{"A", tagged(1), T("Number")}, sf{"B", tagged(2), T("String")})
	b := e.witness("b", "Same", sf{"A", tagged(2), T("Number")}, sf{"B", tagged(1), T("String")})
	b2 := e.witness("x/a", "Same", sf{"B", tagged(1), T("String")}, sf{"A", tagged(5), T("Number")})
	l1 := e.local("a", "Same", sf{"A", tagged(2), T("Number")}, sf{"B", tagged(1), T("String")})
	l2 := e.local("a", "Same", sf{"B", tagged(1), T("Number")})
	in1 := e.witness("a", "In", sf{"S", tagged(1), T("String")})
	in2 := e.witness("b", "In", sf{"N", tagged(1), T("Number")}, sf{"S", tagged(3), T("String")})
	out1 := e.witness("a", "Out", sf{"I", tagged(1), ptr(in1)})
	out2 := e.witness("b", "Out", sf{"I", tagged(1), ptr(in2)})
	two := e.witness("a", "Two", sf{"I", tagged(1), ptr(in1)}, sf{"J", tagged(2), ptr(in2)})
	arr := e.witness("a", "ArrOut", sf{"I", tagged(1), types.NewSlice(ptr(in1))})
	pairs := []struct {
		name string
		a, b *types.Named
	}{
		{"types of the same name in different packages", a, b}, {"types of the same name in packages of the same name", a, b2},
		{"local types of the same name", l1, l2}, {"a local type with the name of another type", a, l1},
		{"an inner type after its outer type", out1, in1}, {"an outer type after its inner type", in1, out1},
		{"outer types of the same name", out1, out2}, {"inner types of the same name", out1, two},
		{"a pointer after an array of pointers", arr, out1}, {"the same type", two, two},
	}
	for _, q := range pairs {
		q := q
		c.obl("cache: "+q.name, func(r *Run) {
			r.structMode()
			r.cached(q.a)
			r.e.maxCount = 1
			if r.choose(2) == 0 {
				o2, p2 := r.newStruct(q.b, "")
				r.packedStruct(o2, p2, q.b.Underlying().(*types.Struct), q.name)
			} else {
				r.unpackedStruct(witnessRig{name: q.name, t: q.b})
			}
		})
	}
	for _, g := range e.badTypes() {
		g := g
		switch g.name {
		case "an untagged field", "two fields with the same tag", "an int field", "a valid and an invalid struct", "an invalid struct two levels down":
		default:
			continue
		}
		c.obl("cache: a valid type after "+g.name, func(r *Run) {
			r.structMode()
			r.e.maxCount = 1
			r.rejected(g.t, g.name)
			o2, p2 := r.newStruct(two, "")
			r.packedStruct(o2, p2, two.Underlying().(*types.Struct), g.name)
		})
	}
}

// cached: the type is packed or decoded first.
func (r *Run) cached(n *types.Named) {
	r.e.maxCount = 0
	p := &PtrV{obj: r.st.newObj(r.zero(n), &Meta{origin: "the first struct", typ: n}), typ: types.NewPointer(n)}
	o := &IfaceV{p.typ, p}
	if r.choose(2) == 0 {
		r.call("PackStruct", o)
	} else {
		r.call("UnpackStruct", r.inSlice("first", byteT), o, False)
	}
}

func (r *Run) recursive(n *types.Named, what string) {
	st := n.Underlying().(*types.Struct)
	sv := &StructV{typ: n}
	for i := 0; i < st.NumFields(); i++ {
		sv.fields = append(sv.fields, r.zero(st.Field(i).Type()))
	}
	p := &PtrV{obj: r.st.newObj(sv, &Meta{origin: "the struct", typ: n}), typ: types.NewPointer(n)}
	for i := 0; i < 2; i++ {
		r.must(Not(r.isNil(r.call("PackStruct", &IfaceV{p.typ, p}).(*TupleV).vs[1])), "%s: PackStruct accepts the type", what)
		r.must(Not(r.isNil(r.call("UnpackStruct", r.inSlice("input", byteT), &IfaceV{p.typ, p}, False))), "%s: UnpackStruct accepts the type", what)
	}
}
