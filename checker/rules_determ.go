package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C13: nothing an encoder observes depends on anything but the value.

// encoders by method name, and functions.
var encoderMethods = map[string]bool{"Pack": true, "PrintJSON": true, "MarshalJSON": true, "MarshalBinary": true, "String": true, "Raw": true, "Utf8": true,
	"Values": true, "Items": true, "Entries": true, "Keys": true, "Len": true, "Select": true, "GetAt": true, "Get": true}
var encoderFuncs = []string{"Pack", "Write", "WriteStream", "Hash", "Hex", "Jsonify", "PackStruct"}

func (e *Engine) encoderEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range e.allFuncs() {
		if f.Signature.Recv() == nil {
			for _, n := range encoderFuncs {
				if f == e.pkg.Func(n) {
					out = append(out, f)
				}
			}
			continue
		}
		rt := f.Signature.Recv().Type()
		if !encoderMethods[f.Name()] && !strings.HasPrefix(f.Name(), "Pack") {
			continue
		}
		for _, in := range []string{"Value", "ListItem", "MapEntry", "Packer"} {
			if it, ok := e.typ(in).Underlying().(*types.Interface); ok && types.Implements(rt, it) {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// callees of an instruction within the package: static, closures made there,
// and every method of the package an interface call may reach.
func (e *Engine) callees(x ssa.Instruction, all []*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	if mc, ok := x.(*ssa.MakeClosure); ok {
		out = append(out, mc.Fn.(*ssa.Function))
	}
	var ops [16]*ssa.Value
	for _, o := range x.Operands(ops[:0]) {
		if f, ok := (*o).(*ssa.Function); ok {
			out = append(out, f)
		}
	}
	c, ok := x.(ssa.CallInstruction)
	if !ok || !c.Common().IsInvoke() {
		return out
	}
	m := c.Common().Method
	it, ok := c.Common().Value.Type().Underlying().(*types.Interface)
	if !ok {
		return out
	}
	for _, f := range all {
		if r := f.Signature.Recv(); r != nil && f.Name() == m.Name() && types.Implements(r.Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

// reach: the functions reachable from the entries, with a caller each.
func (e *Engine) reach(entries []*ssa.Function) map[*ssa.Function]*ssa.Function {
	all := e.allFuncs()
	own := map[*ssa.Function]bool{}
	for _, f := range all {
		own[f] = true
	}
	from := map[*ssa.Function]*ssa.Function{}
	work := append([]*ssa.Function{}, entries...)
	for _, f := range entries {
		from[f] = nil
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				for _, g := range e.callees(x, all) {
					if _, seen := from[g]; seen || !own[g] {
						continue
					}
					from[g] = f
					work = append(work, g)
				}
			}
		}
	}
	return from
}

func chain(from map[*ssa.Function]*ssa.Function, f *ssa.Function, pkg *types.Package) string {
	var out []string
	for i := 0; f != nil && i < 8; i++ {
		out = append(out, f.RelString(pkg))
		f = from[f]
	}
	return strings.Join(out, " <- ")
}

// unrelated: functions whose results depend on more than their arguments.
func unrelated(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	switch p := f.Pkg.Pkg.Path(); p {
	case "time", "math/rand", "math/rand/v2", "crypto/rand", "os", "net", "hash/maphash", "os/user", "runtime/debug", "syscall":
		return "package " + p
	case "runtime":
		if f.Name() != "KeepAlive" {
			return "package runtime"
		}
	}
	switch f.String() {
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr":
		return "an address"
	}
	return ""
}

func (c *Check) deterministicCode() {
	e := c.e
	from := e.reach(e.encoderEntries())
	var fns []*ssa.Function
	for f := range from {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	n := 0
	fail := func(f *ssa.Function, pos token.Pos, format string, a ...any) {
		c.fail("code reachable from the encoders", "violation", fmt.Sprintf(format, a...), e.posString(pos), f.String(), "reached through "+chain(from, f, e.tpkg))
	}
	m := e.modAnalysis()
	stored, loaded := map[*ssa.Global]ssa.Instruction{}, map[*ssa.Global]ssa.Instruction{}
	for _, f := range fns {
		n++
		if f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				n++
				switch x := x.(type) {
				case *ssa.Go:
					fail(f, x.Pos(), "%s starts a goroutine: what it does is in no fixed order with the rest", f.RelString(e.tpkg))
				case *ssa.Select:
					if len(x.States) > 1 {
						fail(f, x.Pos(), "%s selects between channels: the choice does not depend on the value", f.RelString(e.tpkg))
					}
				case *ssa.Convert:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
						if s, ok := x.X.Type().Underlying().(*types.Basic); ok && s.Kind() == types.UnsafePointer && hasUses(x) {
							fail(f, x.Pos(), "%s turns an address into a number", f.RelString(e.tpkg))
						}
					}
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						stored[g] = x
					}
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && observed(x, g) {
						loaded[g] = x
					}
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil {
						break
					}
					v, _ := x.(ssa.Value)
					if u := unrelated(g); u != "" && (v == nil || hasUses(v) || g.Name() == "Read") {
						fail(f, x.Pos(), "%s uses %s of %s", f.RelString(e.tpkg), g.Name(), u)
					}
					if gl := atomicGlobal(g, x.Common()); gl != nil && v != nil && hasUses(v) {
						loaded[gl] = x
						if !strings.Contains(g.Name(), "Load") {
							stored[gl] = x
						}
					} else if gl != nil && !strings.Contains(g.Name(), "Load") {
						stored[gl] = x
					}
					if strings.HasPrefix(g.String(), "fmt.") && fmtAddress(x.Common()) {
						fail(f, x.Pos(), "%s prints an address", f.RelString(e.tpkg))
					}
				}
			}
		}
	}
	for g, x := range stored {
		if loaded[g] == nil || m.guarded[g] && !isBasicT(g) {
			continue
		}
		fail(x.Parent(), x.Pos(), "encoding changes the package-level variable %s that encoding reads in %s", g.Name(), loaded[g].Parent().RelString(e.tpkg))
	}
	c.obl("code reachable from the encoders", func(r *Run) { r.e.obligations += n })
}

func isBasicT(g *ssa.Global) bool {
	_, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic)
	return ok
}

func hasUses(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Extract:
			if hasUses(u) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// observed: the value loaded from g is used for more than updating g.
func observed(x *ssa.UnOp, g *ssa.Global) bool {
	if _, ok := x.Type().Underlying().(*types.Basic); !ok {
		return true
	}
	for _, u := range *x.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			only := true
			for _, w := range *u.Referrers() {
				s, ok := w.(*ssa.Store)
				if _, dbg := w.(*ssa.DebugRef); !dbg && (!ok || s.Addr != ssa.Value(g)) {
					only = false
				}
			}
			if only {
				continue
			}
		}
		return true
	}
	return false
}

// atomicGlobal: the package-level variable an atomic operation works on.
func atomicGlobal(f *ssa.Function, c *ssa.CallCommon) *ssa.Global {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "sync/atomic" || len(c.Args) == 0 {
		return nil
	}
	g, _ := c.Args[0].(*ssa.Global)
	return g
}

// fmtAddress: a constant format with %p, or a channel or function printed.
func fmtAddress(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
			return true
		}
	}
	return false
}

// ---- ranges over Go maps

// sinkMethod: calls that put their arguments in order into something.
func sinkMethod(c *ssa.CallCommon) bool {
	name := ""
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil {
		if f.Signature.Recv() == nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" {
			return strings.HasPrefix(f.Name(), "Fprint")
		}
		name = f.Name()
		if f.Signature.Recv() == nil {
			return false
		}
	}
	return strings.HasPrefix(name, "Pack") || strings.HasPrefix(name, "Write") || name == "PrintJSON"
}

func sortCall(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	return p == "sort" && f.Name() != "Search" && !strings.HasPrefix(f.Name(), "Search") || p == "slices" && strings.HasPrefix(f.Name(), "Sort")
}

// mapRanges: a loop over a Go map must not emit in its order; a slice it fills
// has to be sorted by the function, one it calls, or its callers.
func (c *Check) mapRanges() {
	e := c.e
	all := e.allFuncs()
	own := map[*ssa.Function]bool{}
	for _, f := range all {
		own[f] = true
	}
	calls := map[*ssa.Function][]*ssa.Function{}
	callers := map[*ssa.Function][]*ssa.Function{}
	sorts := map[*ssa.Function]bool{}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if ci, ok := x.(ssa.CallInstruction); ok && sortCall(ci.Common().StaticCallee()) {
					sorts[f] = true
				}
				for _, g := range e.callees(x, all) {
					if own[g] {
						calls[f] = append(calls[f], g)
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	canSort := func(f *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var down func(g *ssa.Function) bool
		down = func(g *ssa.Function) bool {
			if seen[g] {
				return false
			}
			seen[g] = true
			if sorts[g] {
				return true
			}
			for _, h := range calls[g] {
				if down(h) {
					return true
				}
			}
			return false
		}
		if down(f) {
			return true
		}
		for _, g := range callers[f] {
			if down(g) {
				return true
			}
		}
		return false
	}
	n := 0
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				rg, ok := x.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				n++
				c.mapRange(f, rg, canSort)
			}
		}
	}
	c.obl("ranges over Go maps", func(r *Run) { r.e.obligations += n })
}

func (c *Check) mapRange(f *ssa.Function, rg *ssa.Range, canSort func(*ssa.Function) bool) {
	fail := func(pos token.Pos, msg string) {
		c.fail("ranges over Go maps", "violation", fmt.Sprintf("%s %s", f.RelString(c.e.tpkg), msg), c.e.posString(pos), f.String(), "range at "+c.e.posString(rg.Pos()))
	}
	var head *ssa.BasicBlock
	for _, u := range *rg.Referrers() {
		if nx, ok := u.(*ssa.Next); ok {
			head = nx.Block()
		}
	}
	if head == nil {
		return
	}
	body := loopBody(head)
	collects := token.NoPos
	for b := range body {
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						collects = x.Pos()
					}
					continue
				}
				if sinkMethod(cc) {
					fail(x.Pos(), "writes in the order of a Go map")
				}
			case *ssa.BinOp:
				if t, ok := x.Type().Underlying().(*types.Basic); ok && x.Op == token.ADD && t.Info()&types.IsString != 0 {
					if _, ok := x.X.(*ssa.Phi); ok {
						fail(x.Pos(), "joins text in the order of a Go map")
					}
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !body[ia.X.(ssa.Instruction).Block()] {
					collects = x.Pos()
				}
			case *ssa.Send:
				fail(x.Pos(), "sends in the order of a Go map")
			}
		}
	}
	if collects != token.NoPos && !canSort(f) {
		fail(collects, "collects the content of a Go map and nothing sorts it")
	}
}

// loopBody: the blocks of the natural loop with this header.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			up(p)
		}
	}
	return body
}

// ---- collections made from Go maps

// mapConstructors: every exported function with a Go map parameter that makes
// a collection has the map's entries in key order.
func mapConstructors(c *Check) {
	e := c.e
	var names []string
	for n := range e.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := e.pkg.Members[n].(*ssa.Function)
		if !ok || !token.IsExported(n) || f.Signature.Results().Len() == 0 || f.Signature.Params().Len() != 1 {
			continue
		}
		mt, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Map)
		if !ok || !types.Identical(mt.Elem(), e.typ("Value")) {
			continue
		}
		fn := n
		c.obl(fn, func(r *Run) {
			src := r.in("src", f.Signature.Params().At(0).Type())
			l := r.call(fn, src)
			es := "Entries"
			if _, ok := r.pick(l).(*Term); ok {
				r.stuck("%s: result %s", fn, show(l))
			}
			if t, ok := f.Signature.Results().At(0).Type().(*types.Named); ok && t.Obj().Name() == "List" {
				es = "Items"
			}
			_, mv := r.mapObj(src)
			r.sortedFrom(r.m1(l, es), fn, mapLen(mv.base), func(r *Run, i *Term) (Val, Val) {
				return r.opaqueVal(mt.Key(), "mapkeyat", mv.base, i), r.opaqueVal(mt.Elem(), "mapelemat", mv.base, i)
			})
		})
	}
}

func checkC13(c *Check) {
	c.rule("nothing reachable from an encoder uses time, randomness, goroutines, a choice of channels, addresses or package-level state that encoding changes; loops over Go maps emit nothing and what they collect is sorted; encoders write no memory that existed before the call but their output; collections made from Go maps have the map's entries in key order")
	c.noPanic = true
	c.deterministicCode()
	c.mapRanges()
	mapConstructors(c)
	rigs := append(append(collEffect("ImmutableList", "MutableList", "SparseList", "ImmutableMap", "SortedMap"), scalarEffect()...), entryEffect("ImmutableItem", "ImmutableEntry", "MutableItem", "MutableEntry")...)
	eachMethod(c, rigs, func(rig, m string) bool { return !encoderMethods[m] }, func(r *Run, v Val, sel *types.Selection, what string) {
		w := len(r.st.writes)
		r.callMethod(v, sel)
		r.noOldWrites(w, what)
	})
}
