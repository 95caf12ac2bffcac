package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A flow-insensitive, context-sensitive (by summaries) analysis of which
// memory a function may write, in terms of what its parameters and the
// package-level variables refer to. It complements the path analysis for
// functions that work through reflection.

type root struct {
	kind byte // 'P' parameter, 'F' free variable, 'G' package variable, 'A' allocated here, 'N' allocated by a callee
	i    int
	deep bool // reached through at least one load
	obj  interface{}
}

func (x root) String() string {
	switch x.kind {
	case 'P':
		d := ""
		if x.deep {
			d = " (indirectly)"
		}
		return fmt.Sprintf("argument %d%s", x.i, d)
	case 'G':
		return x.obj.(*ssa.Global).Name()
	case 'F':
		return "a captured variable"
	}
	return "allocated memory"
}

type rootSet map[root]bool

func (s rootSet) add(t rootSet) bool {
	ch := false
	for r := range t {
		if !s[r] {
			s[r] = true
			ch = true
		}
	}
	return ch
}

type modWrite struct {
	r   root
	pos token.Pos
	fn  *ssa.Function
	how string
}

type modSum struct {
	writes map[string]modWrite
	rets   []rootSet
	conts  map[root]rootSet // contents added to memory of parameters, results (kind 'N', i = result)
}

type modAnalysis struct {
	e    *Engine
	sums map[*ssa.Function]*modSum
	ch   bool
	// variables that are only accessed under a lock
	guarded map[*ssa.Global]bool
}

func (e *Engine) modAnalysis() *modAnalysis {
	m := &modAnalysis{e: e, sums: map[*ssa.Function]*modSum{}}
	fns := e.allFuncs()
	m.findGuarded(fns)
	for _, f := range fns {
		m.sums[f] = &modSum{writes: map[string]modWrite{}, conts: map[root]rootSet{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			m.sums[f].rets = append(m.sums[f].rets, rootSet{})
		}
	}
	for n := 0; n < 50; n++ {
		m.ch = false
		for _, f := range fns {
			m.analyse(f)
		}
		if !m.ch {
			break
		}
	}
	return m
}

// allFuncs: the functions, methods and closures of the package.
func (e *Engine) allFuncs() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range e.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch x := e.pkg.Members[n].(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			t := x.Type()
			for _, t := range []types.Type{t, types.NewPointer(t)} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := e.prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == e.pkg {
						add(f)
					}
				}
			}
		}
	}
	return out
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

type modFn struct {
	m     *modAnalysis
	fn    *ssa.Function
	sum   *modSum
	vals  map[ssa.Value]rootSet
	conts map[root]rootSet
	ch    bool
	// the variable being written, if it is one itself
	direct *ssa.Global
}

func loadedGlobal(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		g, _ := u.X.(*ssa.Global)
		return g
	}
	return nil
}

func (m *modAnalysis) analyse(fn *ssa.Function) {
	f := &modFn{m: m, fn: fn, sum: m.sums[fn], vals: map[ssa.Value]rootSet{}, conts: map[root]rootSet{}}
	for i, p := range fn.Params {
		if hasPointers(p.Type()) {
			f.vals[p] = rootSet{root{kind: 'P', i: i}: true}
		}
	}
	for i, v := range fn.FreeVars {
		f.vals[v] = rootSet{root{kind: 'F', i: i}: true}
	}
	for n := 0; n < 100; n++ {
		f.ch = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f.instr(in)
			}
		}
		if !f.ch {
			break
		}
	}
	// contents of what is visible to the caller
	for r, c := range f.conts {
		if r.kind == 'A' || r.kind == 'N' {
			continue
		}
		f.export(root{kind: r.kind, i: r.i, obj: r.obj}, c)
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range ret.Results {
			out := rootSet{}
			for r := range f.get(v) {
				if r.kind == 'A' || r.kind == 'N' {
					out[root{kind: 'N', i: i}] = true
					f.export(root{kind: 'N', i: i}, f.closure(rootSet{r: true}))
				} else {
					out[r] = true
				}
			}
			if f.sum.rets[i].add(out) {
				m.ch = true
			}
		}
	}
}

// export records contents visible outside in terms of outside roots.
func (f *modFn) export(r root, c rootSet) {
	out := rootSet{}
	for x := range f.expand(c) {
		switch x.kind {
		case 'P', 'F', 'G':
			out[x] = true
		}
	}
	if len(out) == 0 {
		return
	}
	if f.sum.conts[r] == nil {
		f.sum.conts[r] = rootSet{}
	}
	if f.sum.conts[r].add(out) {
		f.m.ch = true
	}
}

// expand adds everything reachable.
func (f *modFn) expand(s rootSet) rootSet {
	out := rootSet{}
	out.add(s)
	out.add(f.closure(s))
	return out
}

// closure: everything reachable from the memory of s through loads.
func (f *modFn) closure(s rootSet) rootSet {
	out := rootSet{}
	work := []root{}
	for r := range s {
		work = append(work, r)
	}
	seen := map[root]bool{}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[r] {
			continue
		}
		seen[r] = true
		for x := range f.loadRoot(r) {
			out[x] = true
			work = append(work, x)
		}
	}
	return out
}

func (f *modFn) loadRoot(r root) rootSet {
	out := rootSet{}
	switch r.kind {
	case 'P', 'F':
		d := r
		d.deep = true
		out[d] = true
		r.deep = false
	case 'G':
		out[r] = true
	}
	out.add(f.conts[r])
	return out
}

func (f *modFn) load(s rootSet) rootSet {
	out := rootSet{}
	for r := range s {
		out.add(f.loadRoot(r))
	}
	return out
}

func (f *modFn) get(v ssa.Value) rootSet {
	if g, ok := v.(*ssa.Global); ok {
		return rootSet{root{kind: 'G', obj: g}: true}
	}
	return f.vals[v]
}

func (f *modFn) set(v ssa.Value, s rootSet) {
	if !hasPointers(v.Type()) || carriesNothing(v.Type()) {
		return
	}
	if f.vals[v] == nil {
		f.vals[v] = rootSet{}
	}
	if f.vals[v].add(s) {
		f.ch = true
	}
}

func (f *modFn) put(dst rootSet, c rootSet) {
	if len(c) == 0 {
		return
	}
	for r := range dst {
		r.deep = false
		if f.conts[r] == nil {
			f.conts[r] = rootSet{}
		}
		if f.conts[r].add(c) {
			f.ch = true
		}
	}
}

func (f *modFn) write(s rootSet, pos token.Pos, how string, at *ssa.Function) {
	for r := range s {
		if r.kind == 'A' || r.kind == 'N' {
			continue
		}
		if g, ok := r.obj.(*ssa.Global); ok && f.m.guarded[g] && f.direct == g {
			continue
		}
		k := fmt.Sprint(r.kind, r.i, r.deep, r.String())
		if _, ok := f.sum.writes[k]; !ok {
			f.sum.writes[k] = modWrite{r, pos, at, how}
			f.m.ch = true
		}
	}
}

func (f *modFn) instr(in ssa.Instruction) {
	fresh := func(v ssa.Value) rootSet { return rootSet{root{kind: 'A', obj: v}: true} }
	switch in := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		f.set(in.(ssa.Value), fresh(in.(ssa.Value)))
	case *ssa.MakeClosure:
		f.set(in, fresh(in))
		for _, b := range in.Bindings {
			f.put(fresh(in), f.get(b))
		}
	case *ssa.MakeInterface:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok || true {
			f.set(in, f.get(in.X))
		}
	case *ssa.ChangeInterface:
		f.set(in, f.get(in.X))
	case *ssa.ChangeType:
		f.set(in, f.get(in.X))
	case *ssa.Convert:
		if hasPointers(in.X.Type()) {
			f.set(in, f.get(in.X))
		} else {
			f.set(in, fresh(in))
		}
	case *ssa.SliceToArrayPointer:
		f.set(in, f.get(in.X))
	case *ssa.Slice:
		f.set(in, f.get(in.X))
	case *ssa.FieldAddr:
		f.set(in, f.get(in.X))
	case *ssa.IndexAddr:
		f.set(in, f.get(in.X))
	case *ssa.Field:
		f.set(in, f.get(in.X))
	case *ssa.Index:
		f.set(in, f.get(in.X))
	case *ssa.Extract:
		if !carriesNothing(in.Type()) {
			f.set(in, f.get(in.Tuple))
		}
	case *ssa.TypeAssert:
		f.set(in, f.get(in.X))
	case *ssa.Phi:
		for _, e := range in.Edges {
			f.set(in, f.get(e))
		}
	case *ssa.Lookup:
		f.set(in, f.load(f.get(in.X)))
	case *ssa.Range:
		f.set(in, f.get(in.X))
	case *ssa.Next:
		f.set(in, f.load(f.get(in.Iter)))
	case *ssa.UnOp:
		if (in.Op == token.MUL || in.Op == token.ARROW) && !carriesNothing(in.Type()) {
			f.set(in, f.load(f.get(in.X)))
		}
	case *ssa.Store:
		f.direct, _ = in.Addr.(*ssa.Global)
		defer func() { f.direct = nil }()
		f.write(f.get(in.Addr), in.Pos(), "store", f.fn)
		f.put(f.get(in.Addr), f.get(in.Val))
	case *ssa.MapUpdate:
		f.direct = loadedGlobal(in.Map)
		defer func() { f.direct = nil }()
		f.write(f.get(in.Map), in.Pos(), "map update", f.fn)
		f.put(f.get(in.Map), f.get(in.Value))
		f.put(f.get(in.Map), f.get(in.Key))
	case *ssa.Send:
		f.put(f.get(in.Chan), f.get(in.X))
	case *ssa.Select:
		for _, s := range in.States {
			if s.Send != nil {
				f.put(f.get(s.Chan), f.get(s.Send))
			}
		}
	case *ssa.Call:
		f.call(in, &in.Call, in)
	case *ssa.Defer:
		f.call(in, &in.Call, nil)
	case *ssa.Go:
		f.call(in, &in.Call, nil)
	}
}

func (f *modFn) call(in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	set := func(s rootSet) {
		if res != nil {
			f.set(res, s)
		}
	}
	fresh := func() rootSet { return rootSet{root{kind: 'N', obj: in}: true} }
	var args []rootSet
	if c.IsInvoke() {
		args = append(args, f.get(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, f.get(a))
	}
	all := rootSet{}
	for _, a := range args {
		all.add(a)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		switch b.Name() {
		case "append":
			// in place only beyond the length
			f.write(args[0], in.Pos(), "append", f.fn)
			s := rootSet{}
			s.add(args[0])
			s.add(fresh())
			f.put(s, f.load(args[1]))
			f.put(fresh(), f.load(args[0]))
			set(s)
		case "copy":
			f.write(args[0], in.Pos(), "copy", f.fn)
			f.put(args[0], f.load(args[1]))
		case "delete", "clear":
			f.direct = loadedGlobal(c.Args[0])
			defer func() { f.direct = nil }()
			f.write(args[0], in.Pos(), b.Name(), f.fn)
		}
		return
	}
	if c.IsInvoke() {
		f.invoke(in, c, args, set, fresh)
		return
	}
	fn := c.StaticCallee()
	if fn == nil {
		// a function value: its captured variables
		set(f.expand(f.get(c.Value)))
		return
	}
	if s := f.m.sums[fn]; s != nil {
		var free []rootSet
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, f.get(b))
			}
		}
		f.apply(s, args, free, in, fn, set, fresh)
		return
	}
	f.external(in, fn, c, args, res, set, fresh)
}

// apply instantiates a summary at a call.
func (f *modFn) apply(s *modSum, args, free []rootSet, in ssa.Instruction, fn *ssa.Function, set func(rootSet), fresh func() rootSet) {
	inst := func(r root) rootSet {
		var base rootSet
		switch r.kind {
		case 'P':
			if r.i < len(args) {
				base = args[r.i]
			}
		case 'F':
			if r.i < len(free) {
				base = free[r.i]
			}
		case 'G':
			return rootSet{r: true}
		case 'N':
			return rootSet{root{kind: 'N', obj: in, i: r.i}: true}
		}
		if r.deep {
			return f.closure(base)
		}
		return base
	}
	for _, w := range s.writes {
		f.write(inst(w.r), w.pos, w.how, w.fn)
	}
	for r, c := range s.conts {
		cs := rootSet{}
		for x := range c {
			cs.add(inst(x))
		}
		f.put(inst(r), cs)
	}
	out := rootSet{}
	for _, rs := range s.rets {
		for r := range rs {
			out.add(inst(r))
		}
	}
	set(out)
}

// invoke: methods of interfaces, by contract.
func (f *modFn) invoke(in ssa.Instruction, c *ssa.CallCommon, args []rootSet, set func(rootSet), fresh func() rootSet) {
	m := c.Method
	owner := ""
	if m.Pkg() != nil {
		owner = m.Pkg().Path()
	}
	name := m.Name()
	recv := args[0]
	out := fresh()
	out.add(f.expand(recv))
	switch {
	case owner == pkgPath && name == "Update":
		f.write(recv, in.Pos(), "Update", f.fn)
	case owner == pkgPath && (name == "Pack" || name == "PrintJSON"):
		for _, a := range args[1:] {
			f.write(a, in.Pos(), name, f.fn)
		}
	case owner == pkgPath && (strings.HasPrefix(name, "Pack") || strings.HasPrefix(name, "Parse") || name == "Next" || name == "Read"):
		f.write(recv, in.Pos(), name, f.fn)
	case owner == "io" && name == "Read":
		f.write(args[1], in.Pos(), name, f.fn)
	}
	set(out)
}

// readers of types outside the package with pointer receivers.
var readOnly = map[string]bool{
	"Bytes": true, "String": true, "Len": true, "Cmp": true, "CmpAbs": true, "Sign": true, "Int64": true, "Uint64": true, "IsInt64": true,
	"IsUint64": true, "BitLen": true, "Text": true, "Float64": true, "Load": true, "Range": true, "MarshalBinary": true, "GobEncode": true,
}

// carriesNothing: values that give no write access to other memory (errors
// are immutable, reflect.Type describes a type).
func carriesNothing(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name() == "error"
	}
	return n.Obj().Pkg().Path() == "reflect" && (n.Obj().Name() == "Type" || n.Obj().Name() == "Kind" || n.Obj().Name() == "StructTag" || n.Obj().Name() == "StructField")
}

// writers: methods of types outside the package with a pointer receiver that
// change what the receiver refers to.
func writesReceiver(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	p, ok := r.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "encoding/base64.Encoding", "encoding/base32.Encoding", "regexp.Regexp", "time.Location":
		return false
	}
	return !readOnly[fn.Name()]
}

func (f *modFn) external(in ssa.Instruction, fn *ssa.Function, c *ssa.CallCommon, args []rootSet, res ssa.Value, set func(rootSet), fresh func() rootSet) {
	name := fn.String()
	w := func(i int) {
		if i < len(args) {
			f.write(args[i], in.Pos(), fn.Name(), f.fn)
		}
	}
	// callbacks run with what they captured
	for i, a := range c.Args {
		_ = i
		if mc, ok := a.(*ssa.MakeClosure); ok {
			if s := f.m.sums[mc.Fn.(*ssa.Function)]; s != nil {
				var free []rootSet
				for _, b := range mc.Bindings {
					free = append(free, f.get(b))
				}
				f.apply(s, nil, free, in, fn, func(rootSet) {}, fresh)
			}
		}
	}
	switch {
	case strings.HasPrefix(name, "(*sync."), strings.HasPrefix(name, "(sync."):
		// synchronised
	case strings.HasPrefix(name, "sync/atomic."), strings.HasPrefix(name, "(*sync/atomic."):
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		w(1)
	case strings.HasPrefix(name, "(encoding/binary.bigEndian).Put"), strings.HasPrefix(name, "(encoding/binary.littleEndian).Put"):
		w(len(args) - 2)
	case name == "sort.Sort", name == "sort.Stable", name == "sort.Slice", name == "sort.SliceStable", name == "sort.Strings", name == "sort.Ints", strings.HasPrefix(name, "slices.Sort"), name == "slices.Reverse":
		w(0)
	case strings.HasSuffix(name, "nacl/box.Seal"), strings.HasSuffix(name, "nacl/box.Open"):
		w(0)
	case name == "crypto/rand.Read", name == "math/rand.Read":
		w(0)
	case name == "reflect.Append", name == "reflect.AppendSlice", name == "reflect.Copy":
		w(0)
	case strings.HasPrefix(name, "(reflect.Value).Set"):
		// what is assigned is not followed: no field of a decoded value gives
		// reflection access to the bytes it was decoded from
		w(0)
	case strings.HasPrefix(name, "strconv.Append"):
		w(0)
	default:
		if writesReceiver(fn) {
			w(0)
		}
	}
	out := fresh()
	switch {
	case fn.Pkg != nil && fn.Pkg.Pkg.Path() == "reflect":
		switch {
		case fn.Signature.Recv() != nil:
			// Field, Index, Elem, Addr, Interface, ... stay within the value;
			// Elem and Interface may follow it
			out.add(args[0])
			switch fn.Name() {
			case "Elem", "Interface", "Index", "MapIndex", "MapKeys", "Slice":
				out.add(f.load(args[0]))
			}
		case fn.Name() == "ValueOf", fn.Name() == "Indirect", fn.Name() == "Append", fn.Name() == "AppendSlice":
			out.add(args[0])
		}
	default:
		for _, a := range args {
			out.add(f.expand(a))
		}
	}
	if res != nil && carriesNothing(res.Type()) {
		return
	}
	set(out)
}

// ---- rules on the summaries

// modFunc checks the writes of one exported function.
func (c *Check) modFunc(m *modAnalysis, name string, allowed func(w modWrite) bool) {
	fn := c.e.pkg.Func(name)
	if fn == nil {
		return
	}
	s := m.sums[fn]
	c.obl(name, func(r *Run) { r.e.obligations += 1 + len(s.writes) })
	for _, k := range sortedWrites(s) {
		w := s.writes[k]
		if w.r.kind == 'N' || w.r.kind == 'A' || allowed(w) {
			continue
		}
		c.fail(name, "violation", fmt.Sprintf("%s: may write %s (%s)", name, w.r, w.how), c.e.posString(w.pos), w.fn.String(), "")
	}
}

func sortedWrites(s *modSum) []string {
	var ks []string
	for k := range s.writes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// noGlobalWrites: outside package initialisation nothing writes memory
// reachable from a package-level variable.
func (c *Check) noGlobalWrites(m *modAnalysis) {
	n := 0
	seen := map[string]bool{}
	var fns []*ssa.Function
	for fn := range m.sums {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		n++
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, k := range sortedWrites(m.sums[fn]) {
			w := m.sums[fn].writes[k]
			if w.r.kind != 'G' || seen[c.e.posString(w.pos)+w.r.String()] {
				continue
			}
			seen[c.e.posString(w.pos)+w.r.String()] = true
			c.fail("package-level variables", "violation", fmt.Sprintf("%s may write memory of the package-level variable %s (%s)", w.fn.RelString(c.e.tpkg), w.r, w.how), c.e.posString(w.pos), w.fn.String(), "called from "+fn.RelString(c.e.tpkg))
		}
	}
	c.obl("package-level variables", func(r *Run) { r.e.obligations += n })
}
