package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops are summarised by inductively checked closed forms: a hypothesis for
// every loop-carried value (as a function of the iteration number J) is
// verified by analysing one arbitrary iteration, and weakened until it is
// preserved on every path through the body.

type form struct {
	kind  string // inv, ind, acc, filt, flag, lag, sum, hv
	entry Val
	step  *Term
	kv    *Term // acc: body is a function of kv (= iteration number)
	body  Val
	cond  *Term // filt: an iteration contributes iff cond(J)
	hv    string
	typ   types.Type
	per   Val // sum: contribution of iteration J
	// lag: value of iteration J-1
	segs0  []Seg // acc: content at entry
	n0     *Term
	elem   types.Type
	nonneg bool
}

type objForm struct {
	kind string // "sink", "fields", "arr", "map", "scalar", "havoc"
	// sink: entry events + loop event
	// fields: per field forms
	fields []*form
	scalar *form
	// arr: the elements [at, at+J) hold body
	at     *Term
	kv     *Term
	body   Val
	cell   Val // entry content
	mapup  []MapUp
	mapmay bool // not every iteration makes every update
}

type alt struct {
	conds []*Term
	evs   []Event         // global events
	sinks map[int][]Event // events appended to sinks
}

type loopSum struct {
	inst      string
	j         *Term
	forms     []*form
	objs      map[int]*objForm
	alts      []alt
	evLen     int
	ctx       int
	writes    []Write
	allocs    []Alloc
	common    []*Term
	flags     map[int]bool
	stuck     string
	cnt       map[string]int
	dead      bool    // no iteration ever completes
	hdr       []*Term // c(J): every completed iteration satisfied c; c(-1) holds at entry
	nohdr     map[*Term]bool
	iterStuck bool
	invs      []*loopInv
	inv0      map[int]bool // phis that have candidate invariants
}

// loopInv: a bound on loop-carried integers, v[a] - v[b] >= 0, where either
// side may be a fixed term. Candidates are dropped until the rest is
// inductive.
type loopInv struct {
	a, b   int
	at, bt *Term
}

func (v *loopInv) on(vals []Val) *Term {
	x, y := v.at, v.bt
	if x == nil {
		x, _ = vals[v.a].(*Term)
	}
	if y == nil {
		y, _ = vals[v.b].(*Term)
	}
	if x == nil || y == nil || x.sort != SInt || y.sort != SInt {
		return nil
	}
	return Ge(x, y)
}

// newInvs proposes invariants for carried integers without a closed form.
func (r *Run) newInvs(sum *loopSum, vals []Val) bool {
	added := false
	open := func(i int) bool {
		e, ok := sum.forms[i].entry.(*Term)
		return ok && e.sort == SInt && (sum.forms[i].kind == "hv" || sum.forms[i].kind == "sum")
	}
	fresh := false
	for i := range sum.forms {
		if open(i) && !sum.inv0[i] {
			if sum.inv0 == nil {
				sum.inv0 = map[int]bool{}
			}
			sum.inv0[i] = true
			fresh = true
		}
	}
	if !fresh {
		return false
	}
	// what was dropped may hold together with the new candidates
	sum.invs = nil
	for i := range sum.forms {
		if !open(i) {
			continue
		}
		e := sum.forms[i].entry.(*Term)
		add := func(v *loopInv) {
			if t := v.on(vals); t != nil && r.deep(t) {
				sum.invs = append(sum.invs, v)
				added = true
			}
		}
		bounds := append([]*Term{e}, r.st.pivots...)
		for j, g := range sum.forms {
			if t, ok := g.entry.(*Term); ok && t.sort == SInt && j != i {
				if t != e {
					bounds = append(bounds, t)
				}
				add(&loopInv{a: i, b: j})
				add(&loopInv{a: j, b: i})
			}
		}
		for _, b := range bounds {
			add(&loopInv{a: i, bt: b})
			add(&loopInv{b: i, at: b})
		}
	}
	return added
}

// headerConst: the header's exit test is an integer comparison of constants.
func (r *Run) headerConst(fr *frame, li *loopInfo, phis []*ssa.Phi, vals []Val) bool {
	h := li.header
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h {
		return false
	}
	if sortOf(cmp.X.Type()) != SInt {
		return false
	}
	env := map[ssa.Value]Val{}
	for i, p := range phis {
		env[p] = vals[i]
	}
	var ev func(v ssa.Value, d int) Val
	ev = func(v ssa.Value, d int) Val {
		if d > 6 {
			return nil
		}
		if x, ok := env[v]; ok {
			return x
		}
		switch v := v.(type) {
		case *ssa.Const:
			return r.constVal(v)
		case *ssa.BinOp:
			if v.Block() == h {
				a, b := ev(v.X, d+1), ev(v.Y, d+1)
				at, ok1 := a.(*Term)
				bt, ok2 := b.(*Term)
				if !ok1 || !ok2 || at.sort != SInt || bt.sort != SInt {
					return nil
				}
				if !at.isConst() || !bt.isConst() {
					return nil
				}
				switch v.Op.String() {
				case "+":
					return Add(at, bt)
				case "-":
					return Sub(at, bt)
				}
				return nil
			}
		case *ssa.Call:
			if r.e.reflectOn && v.Block() == h {
				return r.reflectCount(fr, v)
			}
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && v.Block() == h && b.Name() == "len" {
				x := ev(v.Call.Args[0], d+1)
				switch x := x.(type) {
				case *SliceV:
					return x.len
				case *ArrayV:
					return x.n
				}
				return nil
			}
		}
		if in, ok := v.(ssa.Instruction); ok && li.body[in.Block()] {
			return nil
		}
		x, ok := fr.env[v]
		if !ok {
			return nil
		}
		return x
	}
	a, ok1 := ev(cmp.X, 0).(*Term)
	b, ok2 := ev(cmp.Y, 0).(*Term)
	return ok1 && ok2 && a.isConst() && b.isConst() && a.sort == SInt
}

// overKnownMap: the loop ranges over a map with known keys.
func overKnownMap(r *Run, fr *frame, li *loopInfo) bool {
	for _, in := range li.header.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok || n.IsString {
			continue
		}
		it, ok := fr.env[n.Iter].(*PtrV)
		if !ok {
			return false
		}
		_, mv := r.mapObj(r.load(it).(*StructV).fields[0])
		return mv.base == nil
	}
	return false
}

// reflectCount: a known number of fields or elements.
func (r *Run) reflectCount(fr *frame, c *ssa.Call) Val {
	at := func(v ssa.Value) Val {
		if x, ok := fr.env[v]; ok {
			return x
		}
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			if x, ok := at(c.Call.Args[0]).(*SliceV); ok {
				return x.len
			}
		}
		return nil
	}
	if c.Call.IsInvoke() {
		if t := goType(at(c.Call.Value)); t != nil && c.Call.Method.Name() == "NumField" {
			if st, ok := t.Underlying().(*types.Struct); ok {
				return IntC(int64(st.NumFields()))
			}
		}
		return nil
	}
	if f := c.Call.StaticCallee(); f != nil && len(c.Call.Args) == 1 {
		s, ok := at(c.Call.Args[0]).(*StructV)
		if !ok || len(s.fields) != 4 {
			return nil
		}
		v := r.rvalOf(s)
		switch f.String() {
		case "(reflect.Value).NumField":
			if st, ok := v.t.Underlying().(*types.Struct); ok {
				return IntC(int64(st.NumFields()))
			}
		case "(reflect.Value).Len":
			if x, ok := r.rget(v).(*SliceV); ok {
				return x.len
			}
		}
	}
	return nil
}

func (r *Run) enterLoop(fr *frame, li *loopInfo, phis []*ssa.Phi, vals []Val) []Val {
	if r.headerConst(fr, li, phis, vals) || r.e.reflectOn && overKnownMap(r, fr, li) {
		fr.modes[li.header] = &loopMode{kind: "unroll"}
		return vals
	}
	if r.e.unrollAll || r.e.forceUnroll || r.e.unroll[li.id] {
		fr.modes[li.header] = &loopMode{kind: "unroll", bounded: true}
		return vals
	}
	key := fmt.Sprint(r.pos, r.dec[:r.pos], r.steps, li.id)
	sum, ok := r.cache[key]
	if !ok {
		sum = r.summarise(fr, li, phis, vals)
		r.cache[key] = sum
	}
	if sum.stuck != "" || sum.imprecise() {
		r.st.impre = append(r.st.impre[:len(r.st.impre):len(r.st.impre)], li.id)
	}
	if sum.stuck != "" {
		r.stuck("loop %s: %s", li.name, sum.stuck)
	}
	return r.applyLoop(fr, li, phis, vals, sum)
}

// imprecise: parts of the summary carry no information.
func (s *loopSum) imprecise() bool {
	if s.iterStuck {
		return true
	}
	for _, f := range s.forms {
		if f.kind == "hv" || f.kind == "sum" || f.kind == "filt" {
			return true
		}
	}
	for _, o := range s.objs {
		if o.kind == "havocarr" || (o.scalar != nil && (o.scalar.kind == "hv" || o.scalar.kind == "sum" || o.scalar.kind == "filt")) {
			return true
		}
		for _, f := range o.fields {
			if f != nil && (f.kind == "hv" || f.kind == "sum" || f.kind == "filt") {
				return true
			}
		}
	}
	return false
}

// freezeFrom replaces references to objects allocated at or after base by
// their contents.
func (r *Run) freezeFrom(st *State, v Val, base int, depth int) (Val, bool) {
	if v == nil {
		return nil, true
	}
	if depth > 8 {
		return nil, false
	}
	switch v := v.(type) {
	case *Term:
		ok := true
		return v, ok
	case *PtrV:
		if v.obj < base {
			return v, true
		}
		if len(v.path) != 0 {
			return nil, false
		}
		switch st.heap[v.obj].(type) {
		case *StructV, *Term:
		default:
			return nil, false
		}
		c, ok := r.freezeFrom(st, st.heap[v.obj], base, depth+1)
		if !ok {
			return nil, false
		}
		return &NewV{v.typ, c}, true
	case *SliceV:
		if v.obj == 0 || v.obj < base {
			return v, true
		}
		return nil, false
	case *IfaceV:
		x, ok := r.freezeFrom(st, v.v, base, depth+1)
		if !ok {
			return nil, false
		}
		return &IfaceV{v.dyn, x}, true
	case *StructV:
		n := &StructV{typ: v.typ}
		for _, f := range v.fields {
			x, ok := r.freezeFrom(st, f, base, depth+1)
			if !ok {
				return nil, false
			}
			n.fields = append(n.fields, x)
		}
		return n, true
	case *TupleV:
		n := &TupleV{}
		for _, f := range v.vs {
			x, ok := r.freezeFrom(st, f, base, depth+1)
			if !ok {
				return nil, false
			}
			n.vs = append(n.vs, x)
		}
		return n, true
	case *NewV:
		x, ok := r.freezeFrom(st, v.cell, base, depth+1)
		if !ok {
			return nil, false
		}
		return &NewV{v.typ, x}, true
	case *IteV:
		a, ok1 := r.freezeFrom(st, v.a, base, depth+1)
		b, ok2 := r.freezeFrom(st, v.b, base, depth+1)
		if !ok1 || !ok2 {
			return nil, false
		}
		return mkIte(v.c, a, b), true
	case *SeqV:
		n := &SeqV{elem: v.elem, n: v.n}
		for _, s := range v.segs {
			b, ok := r.freezeFrom(st, s.body, base, depth+1)
			if !ok {
				return nil, false
			}
			n.segs = append(n.segs, Seg{s.lo, s.hi, s.kv, b})
		}
		return n, true
	}
	return v, true
}

// formVal is the value of a form after j completed iterations.
func (r *Run) formVal(f *form, j *Term, inst string) Val {
	switch f.kind {
	case "inv", "flag":
		return f.entry
	case "ind":
		return Add(f.entry.(*Term), mulTerm(f.step, j))
	case "lag":
		return mkIteV(Eq0(j), f.entry, subst(f.body, f.kv, AddC(j, -1)))
	case "sum":
		s := App(SInt, "sum:"+f.hv, nil, append(append([]Val{}, r.st.ctx...), j)...)
		if f.nonneg {
			s.lo = bigZero
		}
		return Add(f.entry.(*Term), s)
	case "hv":
		args := append(append([]Val{}, r.st.ctx...), j)
		return r.opaqueVal(f.typ, "hv:"+f.hv, args...)
	case "acc":
		n := Add(f.n0, j)
		segs := append([]Seg{}, f.segs0...)
		kv := BoundVar("·a" + f.hv)
		segs = append(segs, Seg{f.n0, n, kv, subst(f.body, f.kv, Sub(kv, f.n0))})
		return r.accSlice(f, n, segs, j)
	case "filt":
		m := r.filtLen(f, j)
		n := Add(f.n0, m)
		segs := append([]Seg{}, f.segs0...)
		kv := BoundVar("·a" + f.hv)
		src := r.filtSrc(f, Sub(kv, f.n0))
		segs = append(segs, Seg{f.n0, n, kv, subst(f.body, f.kv, src)})
		return r.accSlice(f, n, segs, j)
	}
	panic("form " + f.kind)
}

func mkIteV(c *Term, a, b Val) Val { return mkIte(c, a, b) }

func (r *Run) filtLen(f *form, j *Term) *Term {
	return AppR("filtlen:"+f.hv, bigZero, nil, append(append([]Val{}, r.st.ctx...), j)...)
}

func (r *Run) filtSrc(f *form, k *Term) *Term {
	return AppR("src:"+f.hv, bigZero, nil, append(append([]Val{}, r.st.ctx...), k)...)
}

func (r *Run) accSlice(f *form, n *Term, segs []Seg, j *Term) Val {
	m := &Meta{fresh: true, typ: f.typ, appnd: true}
	if e, ok := f.entry.(*SliceV); ok && e.obj == 0 {
		m.nilIf = Eq0(n)
	}
	c := AppR("acccap:"+f.hv, bigZero, nil, append(append([]Val{}, r.st.ctx...), j)...)
	r.st.f.assume(Ge(c, n))
	id := r.st.newObj(&ArrayV{f.elem, c, append(segs, Seg{n, c, nil, r.zero(f.elem)})}, m)
	return &SliceV{obj: id, off: IntC(0), len: n, cap: c, typ: f.typ}
}

func mulTerm(a, b *Term) *Term {
	if c, ok := a.constInt(); ok {
		return scale(b, c)
	}
	if c, ok := b.constInt(); ok {
		return scale(a, c)
	}
	return App(SInt, "mul", nil, a, b)
}

// objVal is the content of a heap object after j iterations.
func (r *Run) objVal(o *objForm, id int, j *Term, sum *loopSum) Val {
	switch o.kind {
	case "sink":
		s := o.cell.(*SinkV)
		evs := append([]Event{}, s.evs...)
		le := r.loopEvent(sum, j, id)
		if le != nil {
			evs = append(evs, *le)
		}
		return &SinkV{kind: s.kind, evs: evs}
	case "fields":
		s := o.cell.(*StructV)
		n := &StructV{typ: s.typ}
		for i, f := range o.fields {
			if f == nil {
				n.fields = append(n.fields, s.fields[i])
			} else {
				n.fields = append(n.fields, r.formVal(f, j, sum.inst))
			}
		}
		return n
	case "scalar":
		return r.formVal(o.scalar, j, sum.inst)
	case "arr":
		a := o.cell.(*ArrayV)
		kv := BoundVar("·w" + sum.inst)
		return r.arrCopy(a, o.at, Add(o.at, j), []Seg{{o.at, Add(o.at, j), kv, subst(o.body, o.kv, Sub(kv, o.at))}})
	case "map":
		m := o.cell.(*MapV)
		n := &MapV{typ: m.typ, base: m.base, ups: append([]MapUp{}, m.ups...)}
		for _, u := range o.mapup {
			n.ups = append(n.ups, MapUp{u.k, u.v, &LoopUp{sum.j, j, o.mapmay}})
		}
		return n
	case "havocarr":
		a := o.cell.(*ArrayV)
		x := App(SOpaque, "hvarr:"+sum.inst, nil, append(append([]Val{IntC(int64(id))}, r.st.ctx...), j)...)
		return symArray(x, a.elem, a.n)
	}
	panic("obj form " + o.kind)
}

// loopEvent: the events appended to sink id (0: the global event list).
func (r *Run) loopEvent(sum *loopSum, j *Term, id int) *Event {
	le := &LoopEv{j: sum.j, from: IntC(0), n: j}
	any := false
	for _, a := range sum.alts {
		la := LoopAlt{conds: a.conds}
		if id == 0 {
			la.evs = a.evs
		} else {
			la.evs = a.sinks[id]
		}
		if len(la.evs) > 0 {
			any = true
		}
		le.alts = append(le.alts, la)
	}
	if !any {
		return nil
	}
	return &Event{op: "loop", loop: le}
}

// constVals: boolean (or nil/non-nil constant) values usable as phase flags.
func isFlagConst(v Val) bool {
	t, ok := v.(*Term)
	return ok && (t == True || t == False)
}

func (r *Run) summarise(fr *frame, li *loopInfo, phis []*ssa.Phi, vals []Val) *loopSum {
	n := r.st.cnt["loop:"+li.name]
	inst := fmt.Sprintf("%s@%d", li.name, n)
	if len(r.st.ctx) > 0 {
		inst += fmt.Sprintf("/%d", len(r.st.ctx))
	}
	sum := &loopSum{nohdr: map[*Term]bool{}, inst: inst, j: BoundVar("j:" + inst), objs: map[int]*objForm{}}
	sum.forms = make([]*form, len(phis))
	for i := range phis {
		sum.forms[i] = &form{kind: "inv", entry: vals[i], typ: phis[i].Type(), hv: fmt.Sprintf("%s.%d", inst, i)}
	}
	base := r.st.next
	var prevSig string
	for round := 0; ; round++ {
		if round > 14 {
			sum.stuck = "no inductive description found"
			return sum
		}
		st := r.st.clone()
		st.cnt["loop:"+li.name]++
		nFacts := 0
		var facts0 map[*Term]bool
		var w0, a0, e0 int
		var hypNext int
		var hypHeap map[int]Val
		outs := r.e.Explore(st, r.stack, func(q *Run) []Val {
			fr2 := fr.clone()
			q.st.ctx = append(q.st.ctx[:len(q.st.ctx):len(q.st.ctx)], StrC(inst), sum.j)
			q.st.depth++
			for i, p := range phis {
				fr2.env[p] = q.inOuterCtx(func() Val { return q.formVal(sum.forms[i], sum.j, inst) })
				q.formFacts(sum.forms[i], sum.j, fr2.env[p])
			}
			for _, c := range sum.hdr {
				q.st.f.assume(substT(c, sum.j, AddC(sum.j, -1)))
			}
			cur := make([]Val, len(phis))
			for i, p := range phis {
				cur[i] = fr2.env[p]
			}
			for _, v := range sum.invs {
				if t := v.on(cur); t != nil {
					q.st.f.assume(t)
				}
			}
			ids := make([]int, 0, len(sum.objs))
			for id := range sum.objs {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				o := sum.objs[id]
				id := id
				q.st.heap[id] = q.inOuterCtx(func() Val { return q.objVal(o, id, sum.j, sum) })
				for _, f := range o.fields {
					if f != nil {
						q.formFacts(f, sum.j, nil)
					}
				}
			}
			q.st.evs = nil
			q.st.writes = nil
			q.st.allocs = nil
			nFacts = len(q.st.f.list)
			facts0 = map[*Term]bool{}
			for _, t := range q.st.f.list {
				facts0[t] = true
			}
			w0, a0, e0 = 0, 0, 0
			hypNext = q.st.next
			hypHeap = map[int]Val{}
			for k, v := range q.st.heap {
				hypHeap[k] = v
			}
			fr2.iter = li
			fr2.modes[li.header] = &loopMode{kind: "iter"}
			for i, p := range phis {
				_ = i
				_ = p
			}
			return q.execIter(fr2, li)
		})
		_ = w0
		_ = a0
		_ = e0
		_ = nFacts
		var backs []*Outcome
		sum.iterStuck = false
		for _, o := range outs {
			if o.kind == "stuck" {
				sum.iterStuck = true
			}
			if o.kind == "back" {
				backs = append(backs, o)
			}
			if o.kind == "stuck" && o.msg == "too many paths" {
				sum.stuck = "too many paths"
				return sum
			}
		}
		if r.e.debug {
			fmt.Fprintf(os.Stderr, "loop %s round %d: %d outs, %d back\n", inst, round, len(outs), len(backs))
			for _, o := range outs {
				if o.kind == "back" {
					fmt.Fprintf(os.Stderr, "   back: %s\n", o.path())
					for _, v := range o.loop.next {
						fmt.Fprintf(os.Stderr, "       next %s\n", show(v))
					}
				}
				if o.kind == "stuck" {
					fmt.Fprintf(os.Stderr, "   iteration stuck: %s at %s\n", o.msg, o.pos)
				}
			}
		}
		// phase flags: paths that change one end the phase
		for i, f := range sum.forms {
			if f.kind != "inv" || !isFlagConst(f.entry) {
				continue
			}
			all, diff := true, false
			for _, o := range backs {
				if !isFlagConst(o.loop.next[i]) {
					all = false
				} else if o.loop.next[i].key() != f.entry.key() {
					diff = true
				}
			}
			if all && diff {
				f.kind = "flag"
			}
		}
		var cont []*Outcome
		for _, o := range backs {
			flips := false
			for i, f := range sum.forms {
				if f.kind == "flag" && o.loop.next[i].key() != f.entry.key() {
					flips = true
				}
			}
			if !flips {
				cont = append(cont, o)
			}
		}
		// alternatives of one iteration
		var alts []alt
		var writes []Write
		var allocs []Alloc
		for _, o := range cont {
			a := alt{sinks: map[int][]Event{}}
			for _, t := range o.st.f.list {
				if !facts0[t] {
					a.conds = append(a.conds, t)
				}
			}
			a.evs = o.st.evs
			for id, c := range o.st.heap {
				if id >= base {
					continue
				}
				if s, ok := c.(*SinkV); ok {
					h, ok := hypHeap[id].(*SinkV)
					if ok && len(s.evs) >= len(h.evs) {
						a.sinks[id] = s.evs[len(h.evs):]
					}
				}
			}
			alts = append(alts, a)
			for _, w := range o.st.writes {
				if w.obj >= base {
					if w.m != nil && w.m.fresh {
						continue
					}
					w.obj = -1
				}
				writes = append(writes, w)
			}
			allocs = append(allocs, o.st.allocs...)
		}
		changed := false
		// conditions every completed iteration satisfied
		var keep []*Term
		for _, c := range sum.hdr {
			ok := true
			for _, o := range cont {
				if !o.st.f.entails(c) {
					ok = false
				}
			}
			if ok {
				keep = append(keep, c)
			} else {
				changed = true
				sum.nohdr[c] = true
			}
		}
		sum.hdr = keep
		for _, c := range commonConds(alts) {
			if c.op != "ge0" || sum.nohdr[c] || newFacts().has(sum.hdr, c) {
				continue
			}
			l := c.args[0].(*Term)
			_, ms := lin(l)
			ok := false
			for _, m := range ms {
				if m.a == sum.j {
					ok = true
				} else if m.a.bnd {
					// other functions of the iteration: not supported here
					ok = false
					break
				}
			}
			if ok && r.st.f.entails(substT(c, sum.j, IntC(-1))) {
				sum.hdr = append(sum.hdr, c)
				changed = true
			}
		}
		// loop-carried values
		for i := range phis {
			if r.refineForm(sum, sum.forms[i], cont, func(o *Outcome) Val { return o.loop.next[i] }, base, alts, facts0) {
				changed = true
			}
		}
		var invs []*loopInv
		for _, v := range sum.invs {
			ok := true
			for _, o := range cont {
				if t := v.on(o.loop.next); t == nil || !o.st.deep(t) {
					if r.e.debug {
						fmt.Fprintf(os.Stderr, "   not preserved: %v\n   hints %v all %d\n", t, o.st.hints, len(o.st.f.all))
					}
					ok = false
					break
				}
			}
			if ok {
				invs = append(invs, v)
			} else {
				changed = true
			}
		}
		sum.invs = invs
		if r.newInvs(sum, vals) {
			changed = true
		}
		// heap objects
		phisChanged := changed
		touched := map[int]bool{}
		for _, o := range cont {
			for id, h := range hypHeap {
				if id < base && o.st.heap[id].key() != h.key() {
					touched[id] = true
				}
			}
		}
		for id := range sum.objs {
			touched[id] = true
		}
		ids := make([]int, 0, len(touched))
		for id := range touched {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if _, isArr := r.st.heap[id].(*ArrayV); isArr && phisChanged && sum.objs[id] == nil {
				continue // decided once the loop-carried values are
			}
			ch, bad := r.refineObj(sum, id, cont, hypHeap, base, alts, facts0)
			if bad != "" {
				sum.stuck = bad
				return sum
			}
			if ch {
				changed = true
			}
		}
		// events must be stable
		sum.alts = alts
		sig := altsSig(alts)
		if sig != prevSig {
			prevSig = sig
			// sinks and events are forms themselves: one more round when they occur
			for _, a := range alts {
				for _, ev := range a.sinks {
					if len(ev) > 0 {
						changed = true
					}
				}
			}
		}
		if !changed {
			sum.writes = writes
			sum.allocs = allocs
			sum.dead = len(cont) == 0
			sum.common = commonConds(alts)
			_ = hypNext
			return sum
		}
	}
}

func altsSig(alts []alt) string {
	s := ""
	for _, a := range alts {
		for _, c := range a.conds {
			s += c.key() + ","
		}
		for _, e := range a.evs {
			s += e.key()
		}
		ids := []int{}
		for id := range a.sinks {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			for _, e := range a.sinks[id] {
				s += e.key()
			}
		}
		s += ";"
	}
	return s
}

func commonConds(alts []alt) []*Term {
	if len(alts) == 0 {
		return nil
	}
	cnt := map[*Term]int{}
	for _, a := range alts {
		seen := map[*Term]bool{}
		for _, c := range a.conds {
			if !seen[c] {
				seen[c] = true
				cnt[c]++
			}
		}
	}
	var out []*Term
	for _, c := range alts[0].conds {
		if cnt[c] == len(alts) {
			out = append(out, c)
			cnt[c] = 0
		}
	}
	return out
}

// inOuterCtx evaluates f with the iteration's own context removed.
func (r *Run) inOuterCtx(f func() Val) Val {
	c := r.st.ctx
	r.st.ctx = c[: len(c)-2 : len(c)-2]
	v := f()
	r.st.ctx = c
	return v
}

func (r *Run) formFacts(f *form, j *Term, v Val) {
	if f.kind == "filt" {
		r.inOuterCtx(func() Val {
			m := r.filtLen(f, j)
			r.st.f.assume(Le(m, j))
			return nil
		})
	}
}

func (r *Run) execIter(fr *frame, li *loopInfo) []Val {
	// run the header block with its phis already in place
	return r.execAt(fr, li.header)
}

// refineForm weakens a hypothesis that an iteration does not preserve.
func (r *Run) refineForm(sum *loopSum, f *form, cont []*Outcome, next func(o *Outcome) Val, base int, alts []alt, facts0 map[*Term]bool) bool {
	if len(cont) == 0 || f.kind == "hv" {
		return false
	}
	j := sum.j
	j1 := AddC(j, 1)
	switch f.kind {
	case "flag":
		return false
	case "inv":
		same := true
		for _, o := range cont {
			if !sameUnder(o.st, next(o), f.entry) {
				same = false
			}
		}
		if same {
			return false
		}
		// boolean constants
		if isFlagConst(f.entry) {
			all := true
			for _, o := range cont {
				if !isFlagConst(next(o)) {
					all = false
				}
			}
			if all {
				f.kind = "flag"
				return true
			}
		}
		if et, ok := f.entry.(*Term); ok && et.sort == SInt {
			// constant step
			var step *Term
			ok := true
			for _, o := range cont {
				nt, isT := next(o).(*Term)
				if !isT {
					ok = false
					break
				}
				d := Sub(nt, et)
				if d.bnd {
					ok = false
					break
				}
				if step == nil {
					step = d
				} else if step != d {
					ok = false
				}
			}
			if ok && step != nil {
				f.kind, f.step = "ind", step
				return true
			}
			// contribution differs by iteration: sum
			if ps, nonneg, ok := r.sumTerm(f.entry.(*Term), cont, next, alts); ok {
				f.kind, f.per, f.nonneg = "sum", ps, nonneg
				return true
			}
			// kept by some iterations and replaced by others
			if len(cont) > 1 {
				for _, o := range cont {
					if sameUnder(o.st, next(o), f.entry) {
						return r.toHv(f)
					}
				}
			}
			// value of the previous iteration
			return r.tryLag(sum, f, cont, next, base, alts)
		}
		if _, ok := f.entry.(*SliceV); ok {
			if r.tryAcc(sum, f, cont, next, base, alts) {
				return true
			}
			return r.toHv(f)
		}
		return r.tryLag(sum, f, cont, next, base, alts)
	case "ind":
		for _, o := range cont {
			if !sameUnder(o.st, next(o), Add(f.entry.(*Term), mulTerm(f.step, j1))) {
				return r.tryLag(sum, f, cont, next, base, alts)
			}
		}
		return false
	case "sum":
		cur := r.sumVal(f, j)
		ps, nonneg, ok := r.sumTerm(cur, cont, next, alts)
		if !ok {
			return r.toHv(f)
		}
		if ps.key() != f.per.key() || nonneg != f.nonneg {
			f.per, f.nonneg = ps, nonneg
			return true
		}
		return false
	case "lag":
		b, ok := r.mergeAlts(cont, next, base, alts)
		if !ok {
			return r.toHv(f)
		}
		if subst(b, j, f.kv).key() != f.body.key() {
			// one refinement, then give up
			if f.step == nil {
				f.step = IntC(1)
				f.body = subst(b, j, f.kv)
				return true
			}
			return r.toHv(f)
		}
		return false
	case "acc", "filt":
		f.nonneg = false
		if r.checkAcc(sum, f, cont, next, base, alts) {
			return false
		}
		if f.nonneg {
			return true // refined
		}
		return r.toHv(f)
	}
	return false
}

func (r *Run) sumVal(f *form, j *Term) *Term {
	s := App(SInt, "sum:"+f.hv, nil, append(append([]Val{}, r.st.ctx...), j)...)
	if f.nonneg {
		s.lo = bigZero
	}
	return Add(f.entry.(*Term), s)
}

// sumTerm: next = cur + contribution on every path.
func (r *Run) sumTerm(cur *Term, cont []*Outcome, next func(o *Outcome) Val, alts []alt) (Val, bool, bool) {
	var res Val
	nonneg := true
	common := map[*Term]bool{}
	for _, c := range commonConds(alts) {
		common[c] = true
	}
	for i := len(cont) - 1; i >= 0; i-- {
		nt, ok := next(cont[i]).(*Term)
		if !ok {
			return nil, false, false
		}
		d := Sub(nt, cur)
		bad := false
		for _, m := range curAtoms(cur) {
			for _, x := range curAtoms(d) {
				if m == x && m.op != "lin" {
					bad = true
				}
			}
		}
		if bad {
			return nil, false, false
		}
		if !cont[i].st.f.entails(Ge0(d)) {
			nonneg = false
		}
		if res == nil {
			res = d
		} else {
			res = mkIte(And(distinct(alts[i].conds, common)...), d, res)
		}
	}
	return res, nonneg, res != nil
}

func curAtoms(t *Term) []*Term {
	_, ms := lin(t)
	var out []*Term
	for _, m := range ms {
		out = append(out, m.a)
	}
	return out
}

func distinct(conds []*Term, common map[*Term]bool) []*Term {
	var out []*Term
	for _, c := range conds {
		if !common[c] {
			out = append(out, c)
		}
	}
	return out
}

// mergeAlts joins the per-path values of one iteration into one value.
func (r *Run) mergeAlts(cont []*Outcome, next func(o *Outcome) Val, base int, alts []alt) (Val, bool) {
	common := map[*Term]bool{}
	for _, c := range commonConds(alts) {
		common[c] = true
	}
	var res Val
	for i := len(cont) - 1; i >= 0; i-- {
		v, ok := r.freezeFrom(cont[i].st, next(cont[i]), base, 0)
		if !ok {
			return nil, false
		}
		if res == nil {
			res = v
		} else {
			res = mkIte(And(distinct(alts[i].conds, common)...), v, res)
		}
	}
	return res, true
}

func (r *Run) tryLag(sum *loopSum, f *form, cont []*Outcome, next func(o *Outcome) Val, base int, alts []alt) bool {
	b, ok := r.mergeAlts(cont, next, base, alts)
	if !ok {
		return r.toHv(f)
	}
	// the value must not depend on the carried value itself
	f.kind = "lag"
	f.kv = BoundVar("·l" + f.hv)
	f.body = subst(b, sum.j, f.kv)
	f.step = nil
	return true
}

func (r *Run) toHv(f *form) bool {
	f.kind = "hv"
	return true
}

// appended: the slice v is content0 followed by exactly the given number of
// elements; returns the element.
func lastElem(st *State, v Val, n *Term) (segs []Seg, x Val, ok bool) {
	s, isS := v.(*SliceV)
	if !isS || s.obj == 0 || len(s.path) != 0 {
		return nil, nil, false
	}
	a, isA := st.heap[s.obj].(*ArrayV)
	if !isA {
		return nil, nil, false
	}
	if z, isZ := s.off.int64(); !isZ || z != 0 {
		return nil, nil, false
	}
	if s.len != AddC(n, 1) {
		return nil, nil, false
	}
	// segments below n, and the one at n
	for i, g := range a.segs {
		if g.lo == n || (g.hi == AddC(n, 1)) {
			if g.hi != AddC(n, 1) {
				return nil, nil, false
			}
			if g.lo != n {
				// merged with its predecessor
				segs = append(append([]Seg{}, a.segs[:i]...), Seg{g.lo, n, g.kv, g.body})
				return segs, g.at(n), true
			}
			return a.segs[:i], g.at(n), true
		}
	}
	return nil, nil, false
}

func (r *Run) tryAcc(sum *loopSum, f *form, cont []*Outcome, next func(o *Outcome) Val, base int, alts []alt) bool {
	e := f.entry.(*SliceV)
	f.elem = r.sliceElem(e)
	f.n0 = e.len
	if e.obj != 0 {
		// content at entry
		a, ok := r.st.heap[e.obj].(*ArrayV)
		if !ok || len(e.path) != 0 {
			return false
		}
		if z, ok := e.off.int64(); !ok || z != 0 {
			return false
		}
		if m := r.st.meta[e.obj]; m == nil || !m.fresh {
			return false
		}
		for _, g := range a.segs {
			if g.lo == e.len || r.st.f.entails(Ge(g.lo, e.len)) {
				break
			}
			if g.hi == e.len || r.st.f.entails(Le(g.hi, e.len)) {
				f.segs0 = append(f.segs0, g)
				continue
			}
			f.segs0 = append(f.segs0, Seg{g.lo, e.len, g.kv, g.body})
		}
	}
	return r.findAcc(sum, f, cont, next, base, alts, f.n0, true)
}

// findAcc determines (or, with set false, checks) what iteration J appends.
func (r *Run) findAcc(sum *loopSum, f *form, cont []*Outcome, next func(o *Outcome) Val, base int, alts []alt, n *Term, set bool) bool {
	var conds []*Term
	var body Val
	skips := false
	common := map[*Term]bool{}
	for _, c := range commonConds(alts) {
		common[c] = true
	}
	type add struct {
		c *Term
		v Val
	}
	var adds []add
	for i, o := range cont {
		v := next(o)
		s, ok := v.(*SliceV)
		if !ok {
			return false
		}
		if s.len == n {
			// nothing appended: must be the same slice
			skips = true
			continue
		}
		_, x, ok := lastElem(o.st, v, n)
		if !ok {
			return false
		}
		fx, ok := r.freezeFrom(o.st, x, base, 0)
		if !ok {
			return false
		}
		c := And(distinct(alts[i].conds, common)...)
		conds = append(conds, c)
		adds = append(adds, add{c, fx})
	}
	if len(adds) == 0 {
		return false
	}
	for i := len(adds) - 1; i >= 0; i-- {
		if body == nil {
			body = adds[i].v
		} else {
			body = mkIte(adds[i].c, adds[i].v, body)
		}
	}
	kind := "acc"
	var cond *Term
	if skips {
		kind = "filt"
		cond = Or(conds...)
	}
	if set {
		f.kind = kind
		f.kv = BoundVar("·b" + f.hv)
		f.body = subst(body, sum.j, f.kv)
		f.cond = cond
		return true
	}
	return f.kind == kind && subst(body, sum.j, f.kv).key() == f.body.key() && f.cond == cond
}

func (r *Run) checkAcc(sum *loopSum, f *form, cont []*Outcome, next func(o *Outcome) Val, base int, alts []alt) bool {
	n := Add(f.n0, sum.j)
	if f.kind == "filt" {
		n = Add(f.n0, r.filtLen(f, sum.j))
	}
	if r.findAcc(sum, f, cont, next, base, alts, n, false) {
		return true
	}
	// the appended element changed with the other forms: take the new one
	if f.step == nil {
		f.step = IntC(0)
	}
	if k, _ := f.step.int64(); k < 4 {
		f.step = IntC(k + 1)
		old := f.body
		if r.findAcc(sum, f, cont, next, base, alts, n, true) && old.key() != f.body.key() {
			sum.alts = nil
			f.nonneg = true // refined
			return false
		}
	}
	return false
}

// sameUnder: equal values, using the facts of the state.
func sameUnder(st *State, a, b Val) bool {
	if a.key() == b.key() {
		return true
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if ok1 && ok2 && at.sort == SInt && bt.sort == SInt {
		return st.f.entails(EqI(at, bt))
	}
	if ok1 && ok2 && at.sort == SBool && bt.sort == SBool {
		if bt == True {
			return st.f.entails(at)
		}
		if bt == False {
			return st.f.entails(Not(at))
		}
	}
	return false
}

func (r *Run) refineObj(sum *loopSum, id int, cont []*Outcome, hyp map[int]Val, base int, alts []alt, facts0 map[*Term]bool) (bool, string) {
	o := sum.objs[id]
	cell := r.st.heap[id]
	switch c := cell.(type) {
	case *SinkV:
		if o == nil {
			sum.objs[id] = &objForm{kind: "sink", cell: c}
			return true, ""
		}
		for _, x := range cont {
			s, ok := x.st.heap[id].(*SinkV)
			h := hyp[id].(*SinkV)
			if !ok || len(s.evs) < len(h.evs) {
				return false, "a buffer is reset inside the loop"
			}
		}
		return false, ""
	case *StructV:
		if o == nil {
			o = &objForm{kind: "fields", cell: c, fields: make([]*form, len(c.fields))}
			sum.objs[id] = o
		}
		ch := false
		for i := range c.fields {
			i := i
			get := func(x *Outcome) Val { return x.st.heap[id].(*StructV).fields[i] }
			if o.fields[i] == nil {
				diff := false
				for _, x := range cont {
					if get(x).key() != c.fields[i].key() {
						diff = true
					}
				}
				if !diff {
					continue
				}
				var t types.Type
				if st, ok := fieldTypes(c, r.st.meta[id]); ok && i < st.NumFields() {
					t = st.Field(i).Type()
				} else if tm, ok := c.fields[i].(*Term); ok && tm.sort == SInt {
					t = types.Typ[types.Int]
				} else {
					return false, "untyped field changed"
				}
				if av, ok := c.fields[i].(*ArrayV); ok {
					_ = av
					o.fields[i] = &form{kind: "hv", entry: c.fields[i], typ: t, hv: fmt.Sprintf("%s.o%d.%d", sum.inst, id, i)}
					ch = true
					continue
				}
				o.fields[i] = &form{kind: "inv", entry: c.fields[i], typ: t, hv: fmt.Sprintf("%s.o%d.%d", sum.inst, id, i)}
			}
			if r.refineForm(sum, o.fields[i], cont, get, base, alts, facts0) {
				ch = true
			}
			if o.fields[i].kind == "flag" {
				o.fields[i].kind = "hv"
				ch = true
			}
		}
		return ch, ""
	case *ArrayV:
		return r.refineArr(sum, id, c, cont, hyp, base, alts)
	case *MapV:
		return r.refineMap(sum, id, c, cont, hyp, base, alts)
	default:
		if o == nil {
			var t types.Type
			if m := r.st.meta[id]; m != nil {
				t = m.typ
			}
			if t == nil {
				return false, "untyped object changed"
			}
			o = &objForm{kind: "scalar", cell: cell, scalar: &form{kind: "inv", entry: cell, typ: t, hv: fmt.Sprintf("%s.o%d", sum.inst, id)}}
			sum.objs[id] = o
		}
		ch := r.refineForm(sum, o.scalar, cont, func(x *Outcome) Val { return x.st.heap[id] }, base, alts, facts0)
		if o.scalar.kind == "flag" {
			o.scalar.kind = "hv"
			ch = true
		}
		return ch, ""
	}
}

func fieldTypes(s *StructV, m *Meta) (*types.Struct, bool) {
	t := s.typ
	if t == nil && m != nil {
		t = m.typ
	}
	if t == nil {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

// refineArr: one element store per iteration at index at+J.
func (r *Run) refineArr(sum *loopSum, id int, c *ArrayV, cont []*Outcome, hyp map[int]Val, base int, alts []alt) (bool, string) {
	o := sum.objs[id]
	if o != nil && o.kind == "havocarr" {
		return false, ""
	}
	havoc := func() (bool, string) {
		if r.e.debug {
			_, _, line, _ := runtime.Caller(1)
			fmt.Fprintf(os.Stderr, "   array %d given up at line %d\n", id, line)
		}
		sum.objs[id] = &objForm{kind: "havocarr", cell: c}
		return true, ""
	}
	common := map[*Term]bool{}
	for _, x := range commonConds(alts) {
		common[x] = true
	}
	var at *Term
	h := hyp[id].(*ArrayV)
	// element index written on each path
	type wr struct {
		c *Term
		v Val
	}
	var ws []wr
	nothing := []int{}
	for i, x := range cont {
		a, ok := x.st.heap[id].(*ArrayV)
		if !ok {
			return havoc()
		}
		if a.key() == h.key() {
			nothing = append(nothing, i)
			continue
		}
		var idx *Term
		cnt := 0
		for _, w := range x.st.writes {
			if w.obj == id {
				if w.bulk || w.idx == nil || len(w.path) != 0 {
					return havoc()
				}
				if idx == nil || idx != w.idx {
					cnt++
				}
				idx = w.idx
			}
		}
		if cnt != 1 {
			return havoc()
		}
		off := Sub(idx, sum.j)
		if off.bnd {
			return havoc()
		}
		if at == nil {
			at = off
		} else if at != off {
			return havoc()
		}
		// value now at idx
		var v Val
		for _, g := range a.segs {
			if g.lo == idx && g.hi == AddC(idx, 1) {
				v = g.at(idx)
			}
		}
		if v == nil {
			return havoc()
		}
		fv, ok := r.freezeFrom(x.st, v, base, 0)
		if !ok {
			return havoc()
		}
		ws = append(ws, wr{And(distinct(alts[i].conds, common)...), fv})
	}
	if len(ws) == 0 {
		return false, ""
	}
	var body Val
	if len(nothing) > 0 {
		// unchanged: the old element
		var old Val
		idx := Add(at, sum.j)
		for _, g := range c.segs {
			if r.st.f.entails(Le(g.lo, at)) && (r.st.f.entails(Lt(at, g.hi)) || len(c.segs) == 1) {
				old = g.at(idx)
			}
		}
		// the array must be uniform from at on
		if old == nil || !uniformFrom(r.st, c, at) {
			return havoc()
		}
		body = old
	}
	for i := len(ws) - 1; i >= 0; i-- {
		if body == nil {
			body = ws[i].v
		} else {
			body = mkIte(ws[i].c, ws[i].v, body)
		}
	}
	if o == nil {
		kv := BoundVar("·w" + sum.inst)
		sum.objs[id] = &objForm{kind: "arr", cell: c, at: at, kv: kv, body: subst(body, sum.j, kv)}
		return true, ""
	}
	if o.at == at && subst(body, sum.j, o.kv).key() == o.body.key() {
		return false, ""
	}
	if o.scalar == nil {
		// the stored value changed with the other forms
		o.scalar = &form{}
		o.at, o.body = at, subst(body, sum.j, o.kv)
		return true, ""
	}
	return havoc()
}

func uniformFrom(st *State, c *ArrayV, at *Term) bool {
	n := 0
	for _, g := range c.segs {
		if st.f.entails(Le(g.hi, at)) {
			continue
		}
		n++
	}
	return n == 1
}

func (r *Run) refineMap(sum *loopSum, id int, c *MapV, cont []*Outcome, hyp map[int]Val, base int, alts []alt) (bool, string) {
	o := sum.objs[id]
	h := hyp[id].(*MapV)
	var ups []MapUp
	may := false
	for _, x := range cont {
		m, ok := x.st.heap[id].(*MapV)
		if !ok || len(m.ups) < len(h.ups) {
			return false, "map replaced"
		}
		may = may || len(m.ups)-len(h.ups) != 1
		for _, u := range m.ups[len(h.ups):] {
			k, ok1 := r.freezeFrom(x.st, u.k, base, 0)
			v, ok2 := r.freezeFrom(x.st, u.v, base, 0)
			if !ok1 || !ok2 {
				return false, "map element"
			}
			dup := false
			for _, p := range ups {
				if p.k.key() == k.key() && p.v.key() == v.key() {
					dup = true
				}
			}
			if !dup {
				ups = append(ups, MapUp{k: k, v: v})
			}
		}
	}
	may = may || len(ups) != 1
	if o == nil {
		sum.objs[id] = &objForm{kind: "map", cell: c, mapup: ups, mapmay: may}
		return true, ""
	}
	same := len(ups) == len(o.mapup) && may == o.mapmay
	if same {
		for i := range ups {
			if ups[i].k.key() != o.mapup[i].k.key() || ups[i].v.key() != o.mapup[i].v.key() {
				same = false
			}
		}
	}
	if same {
		return false, ""
	}
	if o.scalar == nil {
		o.scalar = &form{}
	}
	if o.scalar.kind == "xxx" {
		return false, "map updates are not uniform"
	}
	o.scalar.kind += "x"
	o.mapup, o.mapmay = ups, o.mapmay || may
	return true, ""
}

// applyLoop puts the state after T completed iterations in place and lets
// the analysis run the last, incomplete iteration.
func (r *Run) applyLoop(fr *frame, li *loopInfo, phis []*ssa.Phi, vals []Val, sum *loopSum) []Val {
	r.st.cnt["loop:"+li.name]++
	var T *Term
	if sum.dead {
		T = IntC(0)
	} else {
		T = AppR("trips:"+sum.inst, bigZero, nil, r.ctxArgs()...)
	}
	out := make([]Val, len(phis))
	for i := range phis {
		out[i] = r.formVal(sum.forms[i], T, sum.inst)
		if sum.forms[i].kind == "filt" {
			r.assumeFilter(sum, sum.forms[i], T)
		}
	}
	ids := make([]int, 0, len(sum.objs))
	for id := range sum.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if sum.dead {
			continue
		}
		r.st.heap[id] = r.objVal(sum.objs[id], id, T, sum)
	}
	if !sum.dead {
		if le := r.loopEvent(sum, T, 0); le != nil {
			r.st.evs = append(r.st.evs, *le)
		}
		r.st.writes = append(r.st.writes, sum.writes...)
		r.st.allocs = append(r.st.allocs, sum.allocs...)
		fa := &Forall{j: sum.j, from: IntC(0), to: T, conds: sum.common}
		if len(sum.alts) > 1 {
			fa2 := &Forall{j: sum.j, from: IntC(0), to: T}
			for _, a := range sum.alts {
				fa2.alts = append(fa2.alts, a.conds)
			}
			if len(fa.conds) > 0 {
				r.st.f.all = append(r.st.f.all, fa)
			}
			r.st.f.all = append(r.st.f.all, fa2)
		} else if len(fa.conds) > 0 {
			r.st.f.all = append(r.st.f.all, fa)
		}
		for _, v := range sum.invs {
			if t := v.on(out); t != nil {
				r.st.f.assume(t)
			}
		}
		r.tripFacts(sum, T)
		for _, p := range r.st.pivots {
			if r.deep(EqI(T, p)) {
				r.st.f.assume(EqI(T, p))
				break
			}
		}
	}
	m := &loopMode{kind: "exit", flags: map[*ssa.Phi]Val{}, ctxLen: len(r.st.ctx)}
	for i, p := range phis {
		if sum.forms[i].kind == "flag" {
			m.flags[p] = sum.forms[i].entry
		}
	}
	fr.modes[li.header] = m
	r.st.ctx = append(r.st.ctx[:len(r.st.ctx):len(r.st.ctx)], StrC(sum.inst), T)
	return out
}

// tripFacts: linear consequences of "every completed iteration satisfied its
// continuation conditions", instantiated at the last completed one.
func (r *Run) tripFacts(sum *loopSum, T *Term) {
	var lins []*Term
	for _, c := range sum.common {
		if c.op != "ge0" {
			continue
		}
		l := c.args[0].(*Term)
		_, ms := lin(l)
		for _, m := range ms {
			if m.a == sum.j {
				lins = append(lins, c)
			}
		}
	}
	if len(lins) == 0 {
		return
	}
	last := AddC(T, -1)
	pending := []*Term{}
	for _, c := range lins {
		at := substT(c, sum.j, last)
		// also true for T = 0?
		if r.st.f.entails(substT(c, sum.j, IntC(-1))) {
			r.st.f.assume(at)
		} else {
			pending = append(pending, at)
		}
	}
	if len(pending) > 0 {
		if r.Decide(Eq0(T)) {
			return
		}
		for _, p := range pending {
			r.assume(p)
		}
	}
}

// assumeFilter: the k-th appended element comes from iteration src(k), an
// increasing sequence of exactly the contributing iterations.
func (r *Run) assumeFilter(sum *loopSum, f *form, T *Term) {
	m := r.filtLen(f, T)
	r.st.f.assume(Le(m, T))
	k := BoundVar("k:" + f.hv)
	src := r.filtSrc(f, k)
	conds := []*Term{Ge0(src), Lt(src, T), Ge(src, k), Lt(src, r.filtSrc(f, AddC(k, 1)))}
	if f.cond != nil {
		conds = append(conds, substT(f.cond, sum.j, src))
	}
	for _, c := range sum.common {
		conds = append(conds, substT(c, sum.j, src))
	}
	r.st.f.all = append(r.st.f.all, &Forall{j: k, from: IntC(0), to: m, conds: conds})
	r.e.filters["src:"+f.hv] = &filterDesc{inst: f.hv, j: sum.j, n: T, cond: f.cond, all: sum.common}
}
