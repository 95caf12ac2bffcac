package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	recv Val
}

type loopMode struct {
	kind    string // "unroll", "iter", "exit"
	n       int
	phase   int
	flags   map[*ssa.Phi]Val
	ctxLen  int
	bounded bool
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	modes  map[*ssa.BasicBlock]*loopMode
	iter   *loopInfo // the frame runs one generic iteration of this loop
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)+8), modes: map[*ssa.BasicBlock]*loopMode{}}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.modes {
		m := *v
		n.modes[k] = &m
	}
	n.defers = append([]deferred{}, f.defers...)
	return n
}

// loopEnd describes the end of a generic iteration.
type loopEnd struct {
	fr   *frame
	next []Val // values of the phis on the back edge
}

const maxDepth = 60

func (r *Run) callFn(fn *ssa.Function, args []Val, bind []Val) []Val {
	if res, ok := r.model(fn, args); ok {
		return res
	}
	if len(fn.Blocks) == 0 || !r.e.interpretable(fn) {
		return r.external(fn, args)
	}
	for _, s := range r.stack {
		if s == fn {
			if r.e.reenter != nil && r.e.reenter(r, fn) {
				break
			}
			if r.e.recur != nil {
				if res, ok := r.e.recur(r, fn, args); ok {
					return res
				}
			}
			r.stuck("recursive call of %s", fn)
		}
	}
	if len(r.stack) > maxDepth {
		r.stuck("call depth")
	}
	r.e.used[fn]++
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, modes: map[*ssa.BasicBlock]*loopMode{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			fr.env[fv] = bind[i]
		}
	}
	old := r.stack
	oldCur := r.cur
	oldCtx := r.st.ctx
	r.stack = append(r.stack[:len(r.stack):len(r.stack)], fn)
	res := r.exec(fr, fn.Blocks[0], nil)
	r.stack = old
	r.cur = oldCur
	r.st.ctx = oldCtx
	return res
}

func (e *Engine) interpretable(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg == e.pkg {
			return true
		}
	}
	if fn.Synthetic != "" && fn.Pkg == nil {
		return true
	}
	return false
}

func (r *Run) exec(fr *frame, b, prev *ssa.BasicBlock) []Val {
	return r.execFrom(fr, b, prev, false)
}

// execAt runs block b whose phis are already assigned.
func (r *Run) execAt(fr *frame, b *ssa.BasicBlock) []Val {
	return r.execFrom(fr, b, nil, true)
}

func (r *Run) execFrom(fr *frame, b, prev *ssa.BasicBlock, skip bool) []Val {
	loops := r.e.loopsOf(fr.fn)
	for ; ; skip = false {
		r.steps++
		if r.steps%64 == 1 && !r.e.deadline.IsZero() && time.Now().After(r.e.deadline) {
			panic(pathEnd{kind: "stuck", msg: "time limit"})
		}
		if r.steps > 400000 {
			r.stuck("step limit")
		}
		if fr.iter != nil && !fr.iter.body[b] {
			panic(pathEnd{kind: "exit"})
		}
		for h, m := range fr.modes {
			if m.kind == "exit" && !loops[h].body[b] {
				r.popLoopCtx(m)
				delete(fr.modes, h)
			}
		}
		var phiVals []Val
		var phis []*ssa.Phi
		if prev != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == prev {
					pi = i
				}
			}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, p)
				phiVals = append(phiVals, r.val(fr, p.Edges[pi]))
			}
		}
		if li := loops[b]; li != nil && !skip {
			m := fr.modes[b]
			if m == nil || prev == nil || !li.body[prev] {
				phiVals = r.enterLoop(fr, li, phis, phiVals)
			} else {
				switch m.kind {
				case "unroll":
					m.n++
					if m.bounded {
						if m.n > r.e.unrollMax {
							r.e.bounded[li.name]++
							panic(pathEnd{kind: "bound"})
						}
						break
					}
					if m.n > 400 || !r.headerConst(fr, li, phis, phiVals) {
						phiVals = r.enterLoop(fr, li, phis, phiVals)
					}
				case "iter":
					panic(pathEnd{kind: "back", loop: &loopEnd{fr, phiVals}})
				case "exit":
					change := false
					for i, p := range phis {
						if fv, ok := m.flags[p]; ok && fv.key() != phiVals[i].key() {
							change = true
						}
					}
					if !change {
						r.infeasible()
					}
					if m.phase >= 6 {
						r.stuck("loop %s does not settle", li.name)
					}
					r.popLoopCtx(m)
					ph := m.phase
					phiVals = r.enterLoop(fr, li, phis, phiVals)
					if nm := fr.modes[b]; nm != nil {
						nm.phase = ph + 1
					}
				}
			}
		}
		for i, p := range phis {
			fr.env[p] = phiVals[i]
		}
		var next *ssa.BasicBlock
	instrs:
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			r.cur = in
			switch in := in.(type) {
			case *ssa.If:
				c := r.val(fr, in.Cond).(*Term)
				if r.Decide(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
				break instrs
			case *ssa.Jump:
				next = b.Succs[0]
				break instrs
			case *ssa.Return:
				if fr.iter != nil {
					panic(pathEnd{kind: "exit"})
				}
				var res []Val
				for _, x := range in.Results {
					res = append(res, r.val(fr, x))
				}
				return res
			case *ssa.Panic:
				r.progPanic("explicit panic " + show(r.val(fr, in.X)))
			case *ssa.RunDefers:
				ds := fr.defers
				fr.defers = nil
				for i := len(ds) - 1; i >= 0; i-- {
					r.doCall(ds[i].call, ds[i].fn, ds[i].recv, ds[i].args)
				}
			case *ssa.Defer:
				fn, recv, args := r.prepCall(fr, &in.Call)
				fr.defers = append(fr.defers, deferred{&in.Call, fn, args, recv})
			default:
				r.instr(fr, in)
			}
		}
		if next == nil {
			r.stuck("block without successor")
		}
		prev, b = b, next
	}
}

func (r *Run) popLoopCtx(m *loopMode) {
	if len(r.st.ctx) > m.ctxLen {
		r.st.ctx = r.st.ctx[:m.ctxLen:m.ctxLen]
	}
}

// val evaluates an SSA operand.
func (r *Run) val(fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return r.constVal(v)
	case *ssa.Global:
		return &PtrV{obj: r.globalObj(v), typ: v.Type()}
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &FuncV{}
	}
	x, ok := fr.env[v]
	if !ok {
		r.stuck("undefined %s in %s", v.Name(), fr.fn)
	}
	return x
}

func (r *Run) globalObj(g *ssa.Global) int {
	if id, ok := r.e.globals[g]; ok {
		if _, ok := r.st.heap[id]; ok {
			return id
		}
	}
	key := "global:" + g.String()
	if id, ok := r.st.sym[key]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	var cell Val
	if g.Pkg == r.e.pkg {
		cell = r.zero(t)
	} else {
		s := Sym(sortOf(t), g.Pkg.Pkg.Path()+"."+g.Name(), t)
		if types.IsInterface(t) {
			s.non = true
		}
		cell = s
		if _, ok := t.Underlying().(*types.Slice); ok {
			cell = r.symSlice(s, t)
		}
		if g.String() == "github.com/shopspring/decimal.Zero" {
			// never assigned by that package
			cell = App(SOpaque, "dec.int", t, IntC(0))
		}
	}
	id := r.st.newObj(cell, &Meta{global: g.String(), typ: t, origin: "package variable " + g.Name()})
	r.st.sym[key] = id
	return id
}

func (r *Run) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return r.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return r.zero(t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolC(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return StrC(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		x, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		return IntB(x)
	case b.Info()&types.IsFloat != 0:
		return FloatC(c.Value.ExactString())
	}
	r.stuck("constant %s", c)
	return nil
}

func (r *Run) intVal(v Val) *Term {
	v = r.pick(v)
	t, ok := v.(*Term)
	if !ok || t.sort != SInt {
		r.stuck("expected an integer, got %s", show(v))
	}
	return t
}

func (r *Run) instr(fr *frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := r.st.newObj(r.zero(t), &Meta{fresh: true, typ: t})
		fr.env[in] = &PtrV{obj: id, typ: in.Type()}
	case *ssa.BinOp:
		fr.env[in] = r.binop(in.Op, r.val(fr, in.X), r.val(fr, in.Y), in.X.Type(), in.Type())
	case *ssa.UnOp:
		fr.env[in] = r.unop(fr, in)
	case *ssa.Store:
		p := r.pick(r.val(fr, in.Addr))
		r.storePtr(p, r.val(fr, in.Val))
	case *ssa.FieldAddr:
		fr.env[in] = r.fieldAddr(r.val(fr, in.X), in.Field, in.Type())
	case *ssa.Field:
		fr.env[in] = r.getPath(r.val(fr, in.X), []Acc{{field: in.Field}})
	case *ssa.IndexAddr:
		fr.env[in] = r.indexAddr(r.val(fr, in.X), r.intVal(r.val(fr, in.Index)), in.Type())
	case *ssa.Index:
		i := r.intVal(r.val(fr, in.Index))
		x := r.pick(r.val(fr, in.X))
		if a, ok := x.(*ArrayV); ok {
			r.require(And(Ge0(i), Lt(i, a.n)), "index out of range")
			fr.env[in] = r.arrRead(a, i)
			return
		}
		if s, ok := x.(*Term); ok && s.sort == SStr {
			r.require(And(Ge0(i), Lt(i, strLen(s))), "string index out of range")
			fr.env[in] = r.strAt(s, i)
			return
		}
		r.stuck("index of %s", show(x))
	case *ssa.Lookup:
		r.lookup(fr, in)
	case *ssa.Call:
		fn, recv, args := r.prepCall(fr, &in.Call)
		res := r.doCall(&in.Call, fn, recv, args)
		switch len(res) {
		case 0:
			fr.env[in] = &TupleV{}
		case 1:
			if _, isT := in.Type().(*types.Tuple); isT {
				fr.env[in] = &TupleV{res}
			} else {
				fr.env[in] = res[0]
			}
		default:
			fr.env[in] = &TupleV{res}
		}
	case *ssa.ChangeInterface:
		fr.env[in] = r.val(fr, in.X)
	case *ssa.ChangeType:
		fr.env[in] = retype(r.val(fr, in.X), in.Type())
	case *ssa.Convert:
		fr.env[in] = r.convert(r.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t, ok := r.val(fr, in.Tuple).(*TupleV)
		if !ok {
			r.stuck("extract from %s", show(r.val(fr, in.Tuple)))
		}
		fr.env[in] = t.vs[in.Index]
	case *ssa.MakeInterface:
		fr.env[in] = &IfaceV{in.X.Type(), r.val(fr, in.X)}
	case *ssa.MakeSlice:
		n := r.intVal(r.val(fr, in.Len))
		c := r.intVal(r.val(fr, in.Cap))
		r.require(Ge0(n), "makeslice: len out of range")
		r.require(Ge(c, n), "makeslice: cap out of range")
		r.noteAlloc(c)
		el := in.Type().Underlying().(*types.Slice).Elem()
		s := r.newSlice(in.Type(), c, []Seg{{IntC(0), c, nil, r.zero(el)}}, nil)
		s.len = n
		fr.env[in] = s
	case *ssa.MakeMap:
		id := r.st.newObj(&MapV{typ: in.Type()}, &Meta{fresh: true, typ: in.Type()})
		fr.env[in] = &PtrV{obj: id, typ: in.Type()}
		if in.Reserve != nil {
			r.noteAlloc(r.intVal(r.val(fr, in.Reserve)))
		}
	case *ssa.MapUpdate:
		r.mapUpdate(r.val(fr, in.Map), r.val(fr, in.Key), r.val(fr, in.Value))
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, r.val(fr, b))
		}
		fr.env[in] = f
	case *ssa.Slice:
		fr.env[in] = r.sliceOp(fr, in)
	case *ssa.TypeAssert:
		fr.env[in] = r.typeAssert(in, r.val(fr, in.X))
	case *ssa.Send:
		r.emit("send", r.val(fr, in.Chan), r.val(fr, in.X))
	case *ssa.Range:
		x := r.val(fr, in.X)
		id := r.st.newObj(&StructV{fields: []Val{x, IntC(0)}}, &Meta{fresh: true, origin: "range iterator"})
		fr.env[in] = &PtrV{obj: id, typ: types.NewPointer(in.X.Type())}
	case *ssa.Next:
		fr.env[in] = r.next(fr, in)
	default:
		r.stuck("instruction %T", in)
	}
}

func (r *Run) noteAlloc(n *Term) {
	pos, fn := r.where()
	r.st.allocs = append(r.st.allocs, Alloc{n: n, pos: pos, fn: fn, f: r.st.f.clone()})
}

func retype(v Val, t types.Type) Val {
	switch v := v.(type) {
	case *SliceV:
		return &SliceV{v.obj, v.path, v.off, v.len, v.cap, t}
	case *StructV:
		return &StructV{t, v.fields}
	case *PtrV:
		return &PtrV{v.obj, v.path, t}
	case *NewV:
		return &NewV{t, v.cell}
	case *IteV:
		return mkIte(v.c, retype(v.a, t), retype(v.b, t))
	}
	return v
}

func (r *Run) emit(op string, args ...Val) {
	pos, _ := r.where()
	r.st.evs = append(r.st.evs, Event{op: op, args: args, pos: pos})
}

// ---- pointers

// loadPtr reads through any pointer value.
func (r *Run) loadPtr(p Val) Val {
	p = r.pick(p)
	switch p := p.(type) {
	case *PtrV:
		return r.load(p)
	case *NewV:
		return p.cell
	case *NilV:
		r.progPanic("nil pointer dereference")
	case *Term:
		r.require(Not(IsNilAtom(p)), "nil pointer dereference")
		return r.load(&PtrV{obj: r.symPtr(p), typ: p.typ})
	}
	r.stuck("load through %s", show(p))
	return nil
}

func (r *Run) storePtr(p Val, v Val) {
	p = r.pick(p)
	switch p := p.(type) {
	case *PtrV:
		r.store(p, v)
		return
	case *NilV:
		r.progPanic("nil pointer dereference")
	case *Term:
		r.require(Not(IsNilAtom(p)), "nil pointer dereference")
		r.store(&PtrV{obj: r.symPtr(p), typ: p.typ}, v)
		return
	}
	r.stuck("store through %s", show(p))
}

func (r *Run) fieldAddr(p Val, f int, t types.Type) Val {
	p = r.pick(p)
	switch p := p.(type) {
	case *PtrV:
		np := append(p.path[:len(p.path):len(p.path)], Acc{field: f})
		return &PtrV{p.obj, np, t}
	case *NilV:
		r.progPanic("nil pointer dereference")
	case *Term:
		r.require(Not(IsNilAtom(p)), "nil pointer dereference")
		return &PtrV{r.symPtr(p), []Acc{{field: f}}, t}
	case *NewV:
		// materialise a read-only object
		id := r.st.newObj(p.cell, &Meta{origin: "element built by a loop", typ: p.typ})
		return &PtrV{id, []Acc{{field: f}}, t}
	}
	r.stuck("field of %s", show(p))
	return nil
}

func (r *Run) indexAddr(x Val, i *Term, t types.Type) Val {
	x = r.pick(x)
	switch x := x.(type) {
	case *SliceV:
		r.require(And(Ge0(i), Lt(i, x.len)), "index out of range")
		if x.obj == 0 {
			r.progPanic("index out of range")
		}
		np := append(x.path[:len(x.path):len(x.path)], Acc{field: -1, idx: Add(x.off, i)})
		return &PtrV{x.obj, np, t}
	case *PtrV:
		a, ok := r.load(x).(*ArrayV)
		if !ok {
			r.stuck("index of %s", show(r.load(x)))
		}
		r.require(And(Ge0(i), Lt(i, a.n)), "index out of range")
		np := append(x.path[:len(x.path):len(x.path)], Acc{field: -1, idx: i})
		return &PtrV{x.obj, np, t}
	case *Term:
		if pt, ok := x.typ.Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Array); ok {
				r.require(Not(IsNilAtom(x)), "nil pointer dereference")
				return r.indexAddr(&PtrV{obj: r.symPtr(x), typ: x.typ}, i, t)
			}
		}
	case *NilV:
		r.progPanic("nil pointer dereference")
	}
	r.stuck("index of %s", show(x))
	return nil
}

func (r *Run) unop(fr *frame, in *ssa.UnOp) Val {
	x := r.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		return r.loadPtr(x)
	case token.NOT:
		return Not(x.(*Term))
	case token.SUB:
		t := r.pick(x).(*Term)
		if t.sort == SFloat {
			return App(SFloat, "fneg", nil, t)
		}
		return r.wrapTo(Neg(t), in.Type())
	case token.XOR:
		t := r.pick(x).(*Term)
		return r.wrapTo(AddC(Neg(t), -1), in.Type())
	case token.ARROW:
		ch := x
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		name := r.freshName("recv")
		v := r.opaqueVal(et, "fresh:"+name, r.ctxArgs()...)
		if in.CommaOk {
			ok := App(SBool, "recvok:"+name, nil, r.ctxArgs()...)
			r.emit("recv", ch, v, ok)
			return &TupleV{[]Val{v, ok}}
		}
		r.emit("recv", ch, v)
		return v
	}
	r.stuck("operator %s", in.Op)
	return nil
}

func (r *Run) sliceOp(fr *frame, in *ssa.Slice) Val {
	x := r.pick(r.val(fr, in.X))
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return r.intVal(r.val(fr, v))
	}
	switch x := x.(type) {
	case *Term:
		if x.sort == SStr {
			n := strLen(x)
			lo := get(in.Low, IntC(0))
			hi := get(in.High, n)
			r.require(And(Ge0(lo), Ge(hi, lo), Ge(n, hi)), "slice bounds out of range")
			return r.substr(x, lo, hi)
		}
		if pt, ok := x.typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				r.require(Not(IsNilAtom(x)), "nil pointer dereference")
				n := IntC(at.Len())
				lo := get(in.Low, IntC(0))
				hi := get(in.High, n)
				mx := get(in.Max, n)
				r.require(And(Ge0(lo), Ge(hi, lo), Ge(mx, hi), Ge(n, mx)), "slice bounds out of range")
				return &SliceV{r.symPtr(x), nil, lo, Sub(hi, lo), Sub(mx, lo), in.Type()}
			}
		}
	case *SliceV:
		lo := get(in.Low, IntC(0))
		hi := get(in.High, x.len)
		mx := get(in.Max, x.cap)
		r.require(And(Ge0(lo), Ge(hi, lo), Ge(mx, hi), Ge(x.cap, mx)), "slice bounds out of range")
		if x.obj == 0 {
			return nilSlice(in.Type())
		}
		return &SliceV{x.obj, x.path, Add(x.off, lo), Sub(hi, lo), Sub(mx, lo), in.Type()}
	case *PtrV:
		a, ok := r.load(x).(*ArrayV)
		if ok {
			lo := get(in.Low, IntC(0))
			hi := get(in.High, a.n)
			mx := get(in.Max, a.n)
			r.require(And(Ge0(lo), Ge(hi, lo), Ge(mx, hi), Ge(a.n, mx)), "slice bounds out of range")
			return &SliceV{x.obj, x.path, lo, Sub(hi, lo), Sub(mx, lo), in.Type()}
		}
	case *NilV:
		r.progPanic("nil pointer dereference")
	}
	r.stuck("slice of %s", show(x))
	return nil
}

// ---- maps

func (r *Run) mapObj(m Val) (int, *MapV) {
	m = r.pick(m)
	switch m := m.(type) {
	case *PtrV:
		v, ok := r.load(m).(*MapV)
		if ok {
			return m.obj, v
		}
	case *Term:
		k := m.key()
		id, ok := r.st.sym[k]
		if !ok {
			id = r.st.newObj(&MapV{typ: m.typ, base: m}, &Meta{origin: m.String(), term: m, typ: m.typ})
			r.st.sym[k] = id
		}
		return id, r.st.heap[id].(*MapV)
	case *NilV:
		return 0, &MapV{typ: m.typ}
	}
	r.stuck("map %s", show(m))
	return 0, nil
}

func (r *Run) mapUpdate(m, k, v Val) {
	id, mv := r.mapObj(m)
	if id == 0 {
		r.progPanic("assignment to entry in nil map")
	}
	if t, ok := m.(*Term); ok {
		r.require(Not(IsNilAtom(t)), "assignment to entry in nil map")
	}
	n := &MapV{typ: mv.typ, base: mv.base, tag: mv.tag, ups: append(mv.ups[:len(mv.ups):len(mv.ups)], MapUp{k: k, v: v})}
	r.st.heap[id] = n
	w := Write{obj: id, val: v}
	r.noteWrite(w)
}

// mapGet reads key k: the value and whether it is present.
func (r *Run) mapGet(m Val, k Val, et types.Type) (Val, *Term) {
	_, mv := r.mapObj(m)
	for i := len(mv.ups) - 1; i >= 0; i-- {
		u := mv.ups[i]
		if u.loop != nil {
			// keys added by a loop: unknown
			v := r.opaqueVal(et, "mapat", mv, k)
			return v, App(SBool, "maphas", nil, mv, k)
		}
		if r.Decide(r.eqVal(u.k, k)) {
			return u.v, True
		}
	}
	if mv.base == nil {
		return r.zero(et), False
	}
	has := App(SBool, "maphas", nil, mv.base, k)
	if r.Decide(has) {
		return r.opaqueVal(et, "mapval", mv.base, k), True
	}
	return r.zero(et), False
}

func (r *Run) lookup(fr *frame, in *ssa.Lookup) {
	x := r.pick(r.val(fr, in.X))
	k := r.val(fr, in.Index)
	if s, ok := x.(*Term); ok && s.sort == SStr {
		i := r.intVal(k)
		r.require(And(Ge0(i), Lt(i, strLen(s))), "string index out of range")
		fr.env[in] = r.strAt(s, i)
		return
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	v, has := r.mapGet(x, k, et)
	if in.CommaOk {
		fr.env[in] = &TupleV{[]Val{v, has}}
	} else {
		fr.env[in] = v
	}
}

// next advances a range iterator: map entries in an unspecified order.
func (r *Run) next(fr *frame, in *ssa.Next) Val {
	it := r.val(fr, in.Iter).(*PtrV)
	c := r.load(it).(*StructV)
	pos := c.fields[1].(*Term)
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		s := c.fields[0].(*Term)
		// one rune at a time; the width is unknown
		r.store(it, &StructV{fields: []Val{s, AddC(pos, 1)}})
		ok := App(SBool, "runeok", nil, s, pos)
		return &TupleV{[]Val{ok, AppR("runepos", bigZero, nil, s, pos), App(SInt, "rune", tt.At(2).Type(), s, pos)}}
	}
	_, mv := r.mapObj(c.fields[0])
	if len(mv.ups) > 0 && mv.base == nil && r.e.reflectOn {
		return r.nextKnown(it, c, mv, tt)
	}
	if len(mv.ups) > 0 {
		r.stuck("range over a map under construction")
	}
	r.st.heap[it.obj] = &StructV{fields: []Val{c.fields[0], AddC(pos, 1)}}
	if mv.base == nil {
		return &TupleV{[]Val{False, r.zeroOr(tt.At(1).Type()), r.zeroOr(tt.At(2).Type())}}
	}
	ok := Lt(pos, mapLen(mv.base))
	mt := mv.typ.Underlying().(*types.Map)
	k := r.opaqueVal(mt.Key(), "mapkeyat", mv.base, pos)
	v := r.opaqueVal(mt.Elem(), "mapelemat", mv.base, pos)
	return &TupleV{[]Val{ok, k, v}}
}

// nextKnown: the entries of a map with known keys, in any order.
func (r *Run) nextKnown(it *PtrV, c *StructV, mv *MapV, tt *types.Tuple) Val {
	left := c.fields[2:]
	if len(c.fields) == 2 {
		for i, u := range mv.ups {
			if u.loop != nil {
				r.stuck("range over a map under construction")
			}
			over := false
			for _, v := range mv.ups[i+1:] {
				over = over || v.loop == nil && r.Decide(r.eqVal(u.k, v.k))
			}
			if !over {
				left = append(left, &TupleV{[]Val{u.k, u.v}})
			}
		}
		left = append(left, IntC(0))
	}
	if len(left) == 1 {
		r.st.heap[it.obj] = &StructV{fields: append([]Val{c.fields[0], c.fields[1]}, left...)}
		return &TupleV{[]Val{False, r.zeroOr(tt.At(1).Type()), r.zeroOr(tt.At(2).Type())}}
	}
	i := r.choose(len(left) - 1)
	e := left[i].(*TupleV)
	rest := append([]Val{c.fields[0], c.fields[1]}, left[:i]...)
	r.st.heap[it.obj] = &StructV{fields: append(rest, left[i+1:]...)}
	return &TupleV{[]Val{True, e.vs[0], e.vs[1]}}
}

func (r *Run) zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return IntC(0)
	}
	return r.zero(t)
}

func mapLen(base *Term) *Term { return AppR("maplen", bigZero, nil, base) }

// ---- type assertions

var kindIface = map[int64]string{2: "Bool", 3: "Number", 4: "String", 5: "List", 6: "Map", 7: "Extension"}

func (r *Run) typeAssert(in *ssa.TypeAssert, x Val) Val {
	x = r.pick(x)
	t := in.AssertedType
	fail := func() Val {
		if in.CommaOk {
			return &TupleV{[]Val{r.zero(t), False}}
		}
		r.progPanic("type assertion to " + shortType(t) + " fails on " + show(x))
		return nil
	}
	ok := func(v Val) Val {
		if in.CommaOk {
			return &TupleV{[]Val{v, True}}
		}
		return v
	}
	switch x := x.(type) {
	case *NilV:
		return fail()
	case *IfaceV:
		if it, isI := t.Underlying().(*types.Interface); isI {
			if types.Implements(x.dyn, it) {
				return ok(x)
			}
			return fail()
		}
		if types.Identical(x.dyn, t) {
			return ok(x.v)
		}
		return fail()
	case *Term:
		if !in.CommaOk {
			r.e.obligations++
		}
		if !r.entails(Not(IsNilAtom(x))) {
			if !r.Decide(Not(IsNilAtom(x))) {
				return fail()
			}
		}
		if it, isI := t.Underlying().(*types.Interface); isI {
			if x.typ != nil && types.IsInterface(x.typ) && types.Implements(x.typ, it) {
				return ok(x)
			}
			if r.Decide(r.implAtom(x, t)) {
				return ok(r.asIface(x, t))
			}
			return fail()
		}
		// concrete type
		dt := App(SBool, "dyn:"+typeKey(t), nil, x)
		if r.Decide(dt) {
			return ok(r.opaqueVal(t, "unwrap:"+typeKey(t), x))
		}
		return fail()
	}
	r.stuck("type assertion on %s", show(x))
	return nil
}

// asIface: the same opaque value seen through another interface type.
func (r *Run) asIface(x *Term, t types.Type) Val { return x }

// implAtom: x implements interface t. For the value kinds this is decided by
// Kind (property C26).
func (r *Run) implAtom(x *Term, t types.Type) *Term {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == r.e.tpkg {
		for k, name := range kindIface {
			if n.Obj().Name() == name {
				return EqI(kindOf(x), IntC(k))
			}
		}
	}
	return App(SBool, "impl:"+typeKey(t), nil, x)
}

// ---- calls

func (r *Run) prepCall(fr *frame, c *ssa.CallCommon) (fn Val, recv Val, args []Val) {
	for _, a := range c.Args {
		args = append(args, r.val(fr, a))
	}
	if c.IsInvoke() {
		return nil, r.val(fr, c.Value), args
	}
	return r.val(fr, c.Value), nil, args
}

func (r *Run) doCall(c *ssa.CallCommon, fn Val, recv Val, args []Val) []Val {
	if c.IsInvoke() {
		return r.invoke(recv, c.Method, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return r.builtin(b, c, args)
	}
	return r.callVal(fn, args)
}

func (r *Run) callVal(fn Val, args []Val) []Val {
	switch f := r.pick(fn).(type) {
	case *FuncV:
		return r.callFn(f.fn, args, f.bind)
	case *NilV:
		r.progPanic("call of nil function")
	case *Term:
		r.require(Not(IsNilAtom(f)), "call of nil function")
		sig, ok := f.typ.Underlying().(*types.Signature)
		if !ok {
			break
		}
		r.emit("call", append([]Val{f}, args...)...)
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, r.fresh(sig.Results().At(i).Type(), "dyncall"))
		}
		return res
	}
	r.stuck("call of %s", show(fn))
	return nil
}

// method calls a method by name on a value (used by rules).
func (r *Run) method(recv Val, name string, args ...Val) []Val {
	recv = r.pick(recv)
	switch v := recv.(type) {
	case *NilV:
		// what the rule observes was produced by the library
		r.violation("nil where a value with method %s is expected", name)
	case *IfaceV:
		f := r.lookupMethod(v.dyn, name)
		if f == nil {
			r.stuck("no method %s on %s", name, v.dyn)
		}
		return r.callFn(f, append([]Val{v.v}, args...), nil)
	case *PtrV, *SliceV, *StructV:
		if t := valType(v); t != nil {
			if f := r.lookupMethod(t, name); f != nil {
				return r.callFn(f, append([]Val{v}, args...), nil)
			}
		}
	case *Term:
		obj, _, _ := types.LookupFieldOrMethod(v.typ, true, r.e.tpkg, name)
		if m, ok := obj.(*types.Func); ok {
			return r.invoke(v, m, args)
		}
	}
	r.stuck("method %s on %s", name, show(recv))
	return nil
}

// methodAs calls a method of an interface the value is known to implement.
func (r *Run) methodAs(recv Val, iface, name string, args ...Val) Val {
	if t, ok := r.pick(recv).(*Term); ok {
		obj, _, _ := types.LookupFieldOrMethod(r.T(iface), true, r.e.tpkg, name)
		if m, ok := obj.(*types.Func); ok {
			return r.invoke(t, m, args)[0]
		}
	}
	return r.m1(recv, name, args...)
}

func valType(v Val) types.Type {
	switch v := v.(type) {
	case *PtrV:
		return v.typ
	case *SliceV:
		return v.typ
	case *StructV:
		return v.typ
	case *Term:
		return v.typ
	case *IfaceV:
		return v.dyn
	}
	return nil
}

func (r *Run) lookupMethod(t types.Type, name string) *ssa.Function {
	ms := r.e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(r.e.tpkg, name)
	if sel == nil {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
				sel = ms.At(i)
			}
		}
	}
	if sel == nil {
		return nil
	}
	return r.e.prog.MethodValue(sel)
}

func (r *Run) invoke(recv Val, m *types.Func, args []Val) []Val {
	recv = r.pick(recv)
	switch v := recv.(type) {
	case *NilV:
		r.progPanic("method " + m.Name() + " called on a nil interface")
	case *IfaceV:
		f := r.lookupMethod(v.dyn, m.Name())
		if f == nil {
			r.stuck("no method %s on %s", m.Name(), v.dyn)
		}
		return r.callFn(f, append([]Val{v.v}, args...), nil)
	case *Term:
		r.require(Not(IsNilAtom(v)), "method "+m.Name()+" called on a nil interface "+v.String())
		return r.opaqueInvoke(v, m, args)
	}
	r.stuck("invoke %s on %s", m.Name(), show(recv))
	return nil
}

// freezeArg turns slices into immutable snapshots so that they can be
// arguments of uninterpreted terms and events.
func (r *Run) freezeArg(v Val) Val {
	v = r.pick(v)
	switch v := v.(type) {
	case *SliceV:
		if v.obj == 0 {
			return &SeqV{r.sliceElem(v), IntC(0), nil}
		}
		return r.freezeSlice(v)
	case *IfaceV:
		return &IfaceV{v.dyn, r.freezeArg(v.v)}
	case *PtrV:
		if len(v.path) == 0 {
			if m := r.st.meta[v.obj]; m != nil && m.fresh {
				switch c := r.st.heap[v.obj].(type) {
				case *StructV, *Term:
					return &NewV{v.typ, c}
				}
			}
		}
	}
	return v
}

func (r *Run) freezeArgs(vs []Val) []Val {
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = r.freezeArg(v)
	}
	return out
}

// ---- operators

func (r *Run) binop(op token.Token, x, y Val, xt, rt types.Type) Val {
	switch op {
	case token.EQL:
		return r.eqVal(x, y)
	case token.NEQ:
		return Not(r.eqVal(x, y))
	}
	x, y = r.pick(x), r.pick(y)
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		r.stuck("operator %s on %s, %s", op, show(x), show(y))
	}
	switch a.sort {
	case SStr:
		switch op {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return Lt(Cmp("str", a, b), IntC(0))
		case token.LEQ:
			return Le(Cmp("str", a, b), IntC(0))
		case token.GTR:
			return Gt(Cmp("str", a, b), IntC(0))
		case token.GEQ:
			return Ge(Cmp("str", a, b), IntC(0))
		}
	case SFloat:
		switch op {
		case token.ADD, token.MUL, token.SUB, token.QUO:
			return fOp("f"+op.String(), a, b)
		case token.LSS:
			return fLess(a, b)
		case token.GTR:
			return fLess(b, a)
		case token.LEQ:
			return fLessEq(a, b)
		case token.GEQ:
			return fLessEq(b, a)
		}
	case SInt:
		switch op {
		case token.ADD:
			return r.arith(Add(a, b), rt)
		case token.SUB:
			return r.arith(Sub(a, b), rt)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		case token.GEQ:
			return Ge(a, b)
		case token.MUL:
			if c, ok := a.constInt(); ok {
				return r.arith(scale(b, c), rt)
			}
			if c, ok := b.constInt(); ok {
				return r.arith(scale(a, c), rt)
			}
			return App(SInt, "mul", rt, a, b)
		case token.QUO, token.REM:
			return r.divmod(op, a, b, rt)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return r.bitop(op, a, b, rt)
		case token.SHL:
			if c, ok := b.int64(); ok && c >= 0 && c < 64 {
				return r.wrapTo(scale(a, pow2(uint(c))), rt)
			}
			return App(SInt, "shl", rt, a, b)
		case token.SHR:
			return r.shr(a, b, rt)
		}
	case SBool:
		switch op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	r.stuck("operator %s on %s, %s", op, show(x), show(y))
	return nil
}

// arith: plain int (lengths, indexes, counters) is assumed not to overflow;
// every other integer type wraps.
func (r *Run) arith(t *Term, rt types.Type) *Term {
	if b, ok := rt.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt) {
		return t
	}
	return r.wrapTo(t, rt)
}

// wrapTo reduces t into the value range of integer type rt.
func (r *Run) wrapTo(t *Term, rt types.Type) *Term {
	b, ok := rt.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	w, uns := intWidth(b)
	if w == 0 {
		return t
	}
	lo, hi := typeRange(rt)
	if c, ok := t.constInt(); ok {
		m := new(big.Int).Mod(c, pow2(w))
		if !uns && m.Cmp(hi) > 0 {
			m.Sub(m, pow2(w))
		}
		return IntB(m)
	}
	if r.entails(Ge(t, IntB(lo))) && r.entails(Le(t, IntB(hi))) {
		return t
	}
	if uns {
		return Low(t, int(w/8))
	}
	// signed: the low bytes, sign extended
	base := Low(t, int(w/8))
	if r.entails(Ge0(t)) && r.entails(Lt(t, IntB(pow2(w)))) {
		base = t
	}
	if v, n, ok := asLow(base); ok && n == int(w/8) {
		if r.entails(Ge(v, IntB(lo))) && r.entails(Le(v, IntB(hi))) {
			return v
		}
	}
	return AppR(fmt.Sprintf("sext%d", w), lo, hi, base)
}

func (r *Run) divmod(op token.Token, a, b *Term, rt types.Type) *Term {
	if c, ok := b.constInt(); ok && c.Sign() > 0 {
		if ac, ok := a.constInt(); ok {
			if op == token.QUO {
				return IntB(new(big.Int).Quo(ac, c))
			}
			return IntB(new(big.Int).Rem(ac, c))
		}
		neg := new(big.Int).Neg(new(big.Int).Sub(c, bigOne))
		if r.entails(Ge0(a)) {
			q := AppR("div", bigZero, nil, a, b)
			// c*q <= a < c*q + c
			rem := Sub(a, scale(q, c))
			r.st.f.assume(Ge0(rem))
			r.st.f.assume(Lt(rem, b))
			if op == token.QUO {
				return q
			}
			return rem
		}
		if op == token.REM {
			return AppR("rem", neg, new(big.Int).Sub(c, bigOne), a, b)
		}
		return App(SInt, "quo", rt, a, b)
	}
	r.require(Not(Eq0(b)), "integer divide by zero")
	return App(SInt, op.String(), rt, a, b)
}

// bitop handles masks and disjoint ors.
func (r *Run) bitop(op token.Token, a, b *Term, rt types.Type) *Term {
	ac, aok := a.constInt()
	bc, bok := b.constInt()
	if aok && bok {
		z := new(big.Int)
		switch op {
		case token.AND:
			return IntB(z.And(ac, bc))
		case token.OR:
			return IntB(z.Or(ac, bc))
		case token.XOR:
			return IntB(z.Xor(ac, bc))
		case token.AND_NOT:
			return IntB(z.AndNot(ac, bc))
		}
	}
	if aok && !bok && op != token.AND_NOT {
		return r.bitop(op, b, a, rt)
	}
	if bok && bc.Sign() >= 0 {
		switch op {
		case token.AND:
			// 2^(8n)-1
			for n := 1; n <= 8; n++ {
				if new(big.Int).Add(bc, bigOne).Cmp(pow2(uint(8*n))) == 0 {
					return Low(a, n)
				}
			}
			// mask of low bits, value known to fit
			if m := new(big.Int).Add(bc, bigOne); m.Sign() > 0 && new(big.Int).And(m, bc).Sign() == 0 {
				if r.entails(Ge0(a)) && r.entails(Le(a, b)) {
					return a
				}
			}
			return AppR("and", bigZero, bc, a, b)
		case token.OR, token.XOR:
			// the constant has no bit in the range of a
			if tz := trailingZeros(bc); tz > 0 && r.entails(Ge0(a)) && r.entails(Lt(a, IntB(pow2(tz)))) {
				return Add(a, b)
			}
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint halves: a multiple of 2^k plus something below 2^k
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			k := uint(64)
			kk, ms := lin(p[0])
			if kk.Sign() != 0 {
				k = trailingZeros(kk)
			}
			for _, m := range ms {
				if z := trailingZeros(m.c); z < k {
					k = z
				}
			}
			if k > 0 && k < 64 && r.entails(Ge0(p[1])) && r.entails(Lt(p[1], IntB(pow2(k)))) && r.entails(Ge0(p[0])) {
				return Add(p[0], p[1])
			}
		}
	}
	return App(SInt, "bit"+op.String(), rt, a, b)
}

func trailingZeros(c *big.Int) uint {
	if c.Sign() == 0 {
		return 64
	}
	return new(big.Int).Abs(c).TrailingZeroBits()
}

func (r *Run) shr(a, b *Term, rt types.Type) *Term {
	c, ok := b.int64()
	if !ok || c < 0 {
		return App(SInt, "shr", rt, a, b)
	}
	if c == 0 {
		return a
	}
	if ac, ok := a.constInt(); ok {
		return IntB(new(big.Int).Rsh(ac, uint(c)))
	}
	if a.op == "shr" {
		if d, ok := a.args[1].(*Term).int64(); ok && d > 0 && d+c < 4096 {
			return r.shr(a.args[0].(*Term), IntC(c+d), rt)
		}
	}
	if c%8 == 0 && r.entails(Ge0(a)) {
		for _, m := range []int64{1, 2, 3, 4, 8} {
			if !r.entails(Lt(a, IntB(pow2(uint(8*m))))) {
				continue
			}
			q := IntC(0)
			for i := c / 8; i < m; i++ {
				q = Add(q, scale(Byte(a, int(i)), pow2(uint(8*i)-uint(c))))
			}
			r.st.f.assume(EqI(a, Add(scale(q, pow2(uint(c))), Low(a, int(c/8)))))
			return q
		}
	}
	// floor division by 2^c: a = 2^c*q + rem
	q := AppR("shr", nil, nil, a, b)
	if r.entails(Ge0(a)) {
		q.lo = bigZero
	}
	rem := Sub(a, scale(q, pow2(uint(c))))
	r.st.f.assume(Ge0(rem))
	r.st.f.assume(Lt(rem, IntB(pow2(uint(c)))))
	return q
}

// convert implements ssa.Convert.
func (r *Run) convert(x Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	x = r.pick(x)
	if ts, ok := tu.(*types.Slice); ok {
		if sortOf(from) == SStr {
			s := x.(*Term)
			if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return r.bytesOf(s, to)
			}
			r.stuck("conversion to %s", to)
		}
	}
	if sortOf(to) == SStr {
		switch v := x.(type) {
		case *SliceV:
			return r.stringOf(v)
		case *Term:
			if v.sort == SInt {
				return App(SStr, "runestr", nil, v)
			}
			return v
		}
	}
	t, ok := x.(*Term)
	if !ok {
		if _, isP := tu.(*types.Pointer); isP {
			return retype(x, to)
		}
		r.stuck("conversion of %s to %s", show(x), to)
	}
	_ = fu
	switch {
	case t.sort == SInt && sortOf(to) == SInt:
		if fl, fh := typeRange(from); fl != nil {
			if tl, th := typeRange(to); tl != nil && tl.Cmp(fl) <= 0 && th.Cmp(fh) >= 0 {
				return t
			}
		}
		return r.wrapTo(t, to)
	case t.sort == SInt && sortOf(to) == SFloat:
		if t.op == "parsedInt" {
			// an integer's text is the text of the number nearest to it
			return t.args[0].(*Term).args[0]
		}
		if c := r.wholeBig(t); c != nil {
			return App(SFloat, "bigf.Float64", nil, bigTerm("bigf.int", c))
		}
		return App(SFloat, "i2f", nil, t)
	case t.sort == SFloat && sortOf(to) == SInt:
		return App(SInt, "f2i", to, t)
	case t.sort == SFloat && sortOf(to) == SFloat:
		fb, tb := fu.(*types.Basic), tu.(*types.Basic)
		if fb.Kind() == types.Float64 && tb.Kind() == types.Float32 {
			return App(SFloat, "f64to32", nil, t)
		}
		return t
	}
	r.stuck("conversion of %s to %s", show(x), to)
	return nil
}

// ---- equality

func (r *Run) eqVal(x, y Val) *Term {
	x, y = r.pick(x), r.pick(y)
	switch a := x.(type) {
	case *NilV:
		return r.isNil(y)
	case *IfaceV:
		switch b := y.(type) {
		case *NilV:
			return False
		case *IfaceV:
			if !types.Identical(a.dyn, b.dyn) {
				return False
			}
			return r.eqVal(a.v, b.v)
		case *Term:
			return r.eqIfaceTerm(b, a)
		}
	case *PtrV:
		switch b := y.(type) {
		case *NilV:
			return False
		case *PtrV:
			return BoolC(a.key() == b.key())
		case *Term:
			if m := r.st.meta[a.obj]; m != nil && m.fresh {
				return False
			}
			return App(SBool, "eq", nil, b, a)
		}
	case *NewV:
		switch y.(type) {
		case *NilV:
			return False
		}
	case *SliceV:
		if b, ok := y.(*SliceV); ok && b.obj == 0 {
			return r.isNil(a)
		}
		if b, ok := y.(*SliceV); ok && a.obj == 0 {
			return r.isNil(b)
		}
		if _, ok := y.(*NilV); ok {
			return r.isNil(a)
		}
	case *StructV:
		if b, ok := y.(*StructV); ok {
			var cs []*Term
			for i := range a.fields {
				cs = append(cs, r.eqVal(a.fields[i], b.fields[i]))
			}
			return And(cs...)
		}
	case *FuncV:
		if _, ok := y.(*NilV); ok {
			return False
		}
	case *Term:
		switch b := y.(type) {
		case *NilV:
			return r.isNil(a)
		case *IfaceV:
			return r.eqIfaceTerm(a, b)
		case *PtrV:
			return r.eqVal(b, a)
		case *Term:
			if a == b && a.sort != SFloat {
				return True
			}
			switch a.sort {
			case SInt:
				return EqI(a, b)
			case SStr:
				return r.strEq(a, b)
			case SFloat:
				if a == b {
					return Not(isNaNAtom(a))
				}
				if a.id > b.id {
					a, b = b, a
				}
				return App(SBool, "feq", nil, a, b)
			case SBool:
				switch {
				case a == True:
					return b
				case a == False:
					return Not(b)
				case b == True:
					return a
				case b == False:
					return Not(a)
				}
				return Or(And(a, b), And(Not(a), Not(b)))
			}
			if p, q := goType(a), goType(b); p != nil && q != nil {
				return BoolC(types.Identical(p, q))
			}
			if isErrConst(a) && isErrConst(b) {
				return False // distinct error values
			}
			if a.id > b.id {
				a, b = b, a
			}
			return App(SBool, "eq", nil, a, b)
		}
	}
	if x.key() == y.key() {
		return True
	}
	r.stuck("comparison of %s and %s", show(x), show(y))
	return nil
}

// isErrConst: a sentinel error of a library or an error made here.
func isErrConst(t *Term) bool {
	if t.typ == nil || typeKey(t.typ) != "error" {
		return false
	}
	return t.op == "sym" && t.non || t.op == "error"
}

func (r *Run) strEq(a, b *Term) *Term {
	c := Cmp("str", a, b)
	if a.op == "str" && a.s == "" {
		return Eq0(strLen(b))
	}
	if b.op == "str" && b.s == "" {
		return Eq0(strLen(a))
	}
	return Eq0(c)
}

func (r *Run) eqIfaceTerm(x *Term, i *IfaceV) *Term {
	if goType(x) != nil {
		return False // a *reflect.rtype
	}
	if n, ok := i.dyn.(*types.Named); ok && n.Obj().Pkg() == r.e.tpkg {
		if s, ok := i.v.(*StructV); ok && len(s.fields) == 0 && r.isNullType(n) {
			return eqNullAtom(x)
		}
	}
	return App(SBool, "eq", nil, x, i)
}

// isNullType: the dynamic type of the package variable Null.
func (r *Run) isNullType(n types.Type) bool {
	o := r.e.tpkg.Scope().Lookup("Null")
	return o != nil && types.Identical(o.Type(), n)
}

func (r *Run) isNil(v Val) *Term {
	v = r.pick(v)
	switch v := v.(type) {
	case *NilV:
		return True
	case *SliceV:
		if v.obj == 0 {
			return True
		}
		if m := r.st.meta[v.obj]; m != nil {
			if m.nilIf != nil {
				return m.nilIf
			}
			if m.term != nil {
				nt := App(SBool, "isnil", nil, m.term)
				return nt
			}
		}
		return False
	case *Term:
		return IsNilAtom(v)
	}
	return False
}

// ---- strings

func strLen(s *Term) *Term {
	switch s.op {
	case "str":
		return IntC(int64(len(s.s)))
	case "concat":
		n := IntC(0)
		for _, a := range s.args {
			n = Add(n, strLen(a.(*Term)))
		}
		return n
	case "substr":
		return Sub(s.args[2].(*Term), s.args[1].(*Term))
	case "hex", "HEX":
		return scale(s.args[0].(*SeqV).n, bi(2))
	case "strseq":
		return s.args[0].(*SeqV).n
	}
	return AppR("strlen", bigZero, nil, s)
}

func strIdx(s, i *Term) *Term {
	switch s.op {
	case "str":
		if n, ok := i.int64(); ok && n >= 0 && n < int64(len(s.s)) {
			return IntC(int64(s.s[n]))
		}
	case "substr":
		return strIdx(s.args[0].(*Term), Add(i, s.args[1].(*Term)))
	case "concat":
		if f := s.args[0].(*Term); f.op == "str" {
			if n, ok := i.int64(); ok && n < int64(len(f.s)) {
				return strIdx(f, i)
			}
		}
	}
	return AppR("stridx", bigZero, bi(255), s, i)
}

func (r *Run) substr(s, lo, hi *Term) *Term {
	if s.op == "str" {
		a, ok1 := lo.int64()
		b, ok2 := hi.int64()
		if ok1 && ok2 {
			return StrC(s.s[a:b])
		}
	}
	if z, ok := lo.int64(); ok && z == 0 && r.entails(EqI(hi, strLen(s))) {
		return s
	}
	if r.e.textOn {
		if t, ok := r.textSub(s, lo, hi); ok {
			return t
		}
	}
	if s.op == "substr" {
		o := s.args[1].(*Term)
		return r.substr(s.args[0].(*Term), Add(o, lo), Add(o, hi))
	}
	return App(SStr, "substr", nil, s, lo, hi)
}

func strConcat(a, b *Term) *Term {
	if a.op == "str" && a.s == "" {
		return b
	}
	if b.op == "str" && b.s == "" {
		return a
	}
	var parts []Val
	add := func(t *Term) {
		if t.op == "str" && len(parts) > 0 {
			if l := parts[len(parts)-1].(*Term); l.op == "str" {
				parts[len(parts)-1] = StrC(l.s + t.s)
				return
			}
		}
		parts = append(parts, t)
	}
	for _, t := range []*Term{a, b} {
		if t.op == "concat" {
			for _, x := range t.args {
				add(x.(*Term))
			}
		} else {
			add(t)
		}
	}
	if len(parts) == 1 {
		return parts[0].(*Term)
	}
	return App(SStr, "concat", nil, parts...)
}

// bytesOf: []byte(s).
func (r *Run) bytesOf(s *Term, t types.Type) *SliceV {
	n := strLen(s)
	r.noteAlloc(n)
	var segs []Seg
	if s.op == "strseq" {
		segs = s.args[0].(*SeqV).segs
	} else if s.op == "str" {
		for i := 0; i < len(s.s); i++ {
			segs = append(segs, Seg{IntC(int64(i)), IntC(int64(i + 1)), nil, IntC(int64(s.s[i]))})
		}
	} else {
		kv := BoundVar("·e")
		segs = []Seg{{IntC(0), n, kv, strIdx(s, kv)}}
	}
	return r.newSlice(t, n, segs, nil)
}

// stringOf: string(b).
func (r *Run) stringOf(b *SliceV) *Term {
	if b.obj == 0 {
		return StrC("")
	}
	r.noteAlloc(b.len)
	return r.strOfSeq(r.freezeSlice(b))
}

func (r *Run) strOfSeq(q *SeqV) *Term {
	if len(q.segs) == 0 {
		return StrC("")
	}
	if len(q.segs) == 1 && q.segs[0].kv != nil {
		s := q.segs[0]
		if t, ok := s.body.(*Term); ok && t.op == "stridx" && t.args[1].(*Term) == s.kv {
			src := t.args[0].(*Term)
			if r.entails(EqI(strLen(src), q.n)) {
				return src
			}
		}
	}
	// all constant bytes
	allc := true
	var sb strings.Builder
	for _, s := range q.segs {
		lo, ok1 := s.lo.int64()
		hi, ok2 := s.hi.int64()
		bt, ok3 := s.body.(*Term)
		if !ok1 || !ok2 || !ok3 || s.kv != nil {
			allc = false
			break
		}
		c, ok := bt.int64()
		if !ok {
			allc = false
			break
		}
		for i := lo; i < hi && i < lo+4096; i++ {
			sb.WriteByte(byte(c))
		}
	}
	if allc {
		return StrC(sb.String())
	}
	return App(SStr, "strseq", nil, q)
}
