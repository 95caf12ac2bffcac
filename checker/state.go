package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Meta struct {
	id     int
	fresh  bool   // allocated by the analysed code in this run
	origin string // for inputs: what they are
	appnd  bool   // allocated by append (capacity irrelevant)
	term   *Term  // symbolic origin, if any
	typ    types.Type
	global string
	nilIf  *Term // the slice is nil when this holds
}

type Write struct {
	obj  int
	path []Acc
	idx  *Term // element index, for single element stores
	val  Val
	bulk bool
	pos  string
	fn   string
	n    *Term // bulk: count
	from Val
	m    *Meta // of the object when it was written
}

type Alloc struct {
	n   *Term // element count
	pos string
	f   *Facts // facts at the allocation
	fn  string
}

type State struct {
	f      *Facts
	heap   map[int]Val
	meta   map[int]*Meta
	next   int
	evs    []Event
	writes []Write
	allocs []Alloc
	cnt    map[string]int
	ctx    []Val
	sym    map[string]int
	trace  []string
	depth  int
	hints  []Val
	pivots []*Term
	impre  []int          // loops whose summary lost information
	grown  map[string]int // result of append by prefix; prefixes already extended by append (copy on write)
}

func newState() *State {
	return &State{f: newFacts(), heap: map[int]Val{}, meta: map[int]*Meta{}, next: 1, cnt: map[string]int{}, sym: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{f: s.f.clone(), next: s.next, depth: s.depth, impre: s.impre, hints: s.hints, pivots: s.pivots, grown: s.grown}
	n.heap = make(map[int]Val, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.meta = make(map[int]*Meta, len(s.meta)+8)
	for k, v := range s.meta {
		n.meta[k] = v
	}
	n.cnt = make(map[string]int, len(s.cnt))
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	n.sym = make(map[string]int, len(s.sym))
	for k, v := range s.sym {
		n.sym[k] = v
	}
	n.evs = s.evs[:len(s.evs):len(s.evs)]
	n.writes = s.writes[:len(s.writes):len(s.writes)]
	n.allocs = s.allocs[:len(s.allocs):len(s.allocs)]
	n.ctx = s.ctx[:len(s.ctx):len(s.ctx)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return n
}

func (s *State) newObj(cell Val, m *Meta) int {
	id := s.next
	s.next++
	m.id = id
	s.heap[id] = cell
	s.meta[id] = m
	return id
}

// ---- runs

type pathEnd struct {
	kind string // "infeasible", "panic", "stuck", "violation", "back", "exit"
	msg  string
	pos  string
	fn   string
	loop *loopEnd
}

type Run struct {
	e       *Engine
	st      *State
	dec     []int
	alts    []int
	pos     int
	depth   int
	steps   int
	stack   []*ssa.Function
	cur     ssa.Instruction
	cache   map[string]*loopSum
	visit   int
	pre     string // prefix of the names of arbitrary inputs
	collLen *Term  // length of the collection built last
}

type Outcome struct {
	kind string // "ret", "panic", "stuck"
	res  []Val
	st   *State
	msg  string
	pos  string
	fn   string
	loop *loopEnd
}

func (o *Outcome) path() string { return showConds(o.st.f.list) }

// Explore enumerates all decision sequences of f from state st.
func (e *Engine) Explore(st *State, stack []*ssa.Function, f func(r *Run) []Val) []*Outcome {
	var out []*Outcome
	var dec []int
	var alts []int
	cache := map[string]*loopSum{}
	for n := 0; ; n++ {
		e.paths++
		if n > 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
			return append(out, &Outcome{kind: "stuck", st: st, msg: "time limit"})
		}
		if n > e.maxPaths {
			out = append(out, &Outcome{kind: "stuck", st: st, msg: "too many paths"})
			return out
		}
		r := &Run{e: e, st: st.clone(), dec: dec, alts: alts, depth: len(stack), stack: stack, cache: cache}
		outer := e.curRun
		e.curRun = r
		o := r.protect(f)
		e.curRun = outer
		if o != nil {
			out = append(out, o)
		}
		// backtrack
		dec, alts = r.dec[:r.pos], r.alts[:r.pos]
		for len(dec) > 0 && dec[len(dec)-1]+1 >= alts[len(alts)-1] {
			dec = dec[:len(dec)-1]
			alts = alts[:len(alts)-1]
		}
		if len(dec) == 0 {
			return out
		}
		dec = append([]int{}, dec...)
		alts = append([]int{}, alts...)
		dec[len(dec)-1]++
	}
}

func (r *Run) protect(f func(r *Run) []Val) (o *Outcome) {
	defer func() {
		if x := recover(); x != nil {
			pe, ok := x.(pathEnd)
			if !ok {
				if r.e.debug {
					panic(x)
				}
				pe = pathEnd{kind: "stuck", msg: fmt.Sprintf("internal: %v", x)}
				pe.pos, pe.fn = r.where()
			}
			if pe.kind == "infeasible" {
				o = nil
				return
			}
			o = &Outcome{kind: pe.kind, msg: pe.msg, pos: pe.pos, fn: pe.fn, st: r.st, loop: pe.loop}
		}
	}()
	res := f(r)
	if r.st.f.dead {
		return nil
	}
	return &Outcome{kind: "ret", res: res, st: r.st}
}

func (r *Run) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if r.pos < len(r.dec) {
		d := r.dec[r.pos]
		r.pos++
		return d
	}
	r.dec = append(r.dec, 0)
	r.alts = append(r.alts, n)
	r.pos++
	return 0
}

func (r *Run) infeasible() { panic(pathEnd{kind: "infeasible"}) }

func (r *Run) where() (pos, fn string) {
	if r.cur != nil {
		fn = r.cur.Parent().String()
		p := r.cur.Pos()
		if !p.IsValid() {
			// closest position in the block
			for _, in := range r.cur.Block().Instrs {
				if in.Pos().IsValid() {
					p = in.Pos()
				}
				if in == r.cur && p.IsValid() {
					break
				}
			}
		}
		if p.IsValid() {
			ps := r.e.prog.Fset.Position(p)
			pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, r.e.dir+"/"), ps.Line)
		}
	}
	return
}

// refute tries to show that the current path cannot happen, using the
// quantified facts and case splits.
func (r *Run) refute() {
	budget := 1000
	defer limitRefute(15 * time.Second)()
	f := r.st.f.clone()
	f.order(r.st.hints)
	if os.Getenv("VC_DBGR") != "" {
		g := f.clone()
		fmt.Fprintln(os.Stderr, "REFUTE", f.dead, g.saturate(r.st.hints), g.dead, g.unsat(nil))
		for _, t := range g.list {
			fmt.Fprintln(os.Stderr, "   ", t)
		}
	}
	if f.dead || f.refutes(r.st.hints, &budget) {
		r.infeasible()
	}
}

// order: positions found by searching, of which the quantified facts know
// what lies before them, are compared with each other.
func (f *Facts) order(hints []Val) {
	if len(f.all) == 0 {
		return
	}
	tests := 0
	for _, is := range f.groundElems(hints) {
		for x, a := range is {
			for _, b := range is[x+1:] {
				if a == b || !a.isSearch() || !b.isSearch() {
					continue
				}
				for _, c := range []*Term{Lt(a, b), Lt(b, a)} {
					if f.entails(c) || f.entails(Not(c)) {
						continue
					}
					if tests++; tests > 40 {
						continue
					}
					g := f.clone()
					g.assume(c)
					if !g.dead && !g.unsat(nil) {
						g.saturate(hints)
					}
					if g.dead || g.unsat(nil) {
						f.assume(Not(c))
					}
				}
			}
		}
	}
}

// isSearch: a position that is not a constant.
func (t *Term) isSearch() bool {
	_, ms := lin(t)
	return len(ms) > 0
}

// deep: the facts imply c, using the quantified facts and case splits.
func (r *Run) deep(c *Term) bool { return r.st.deep(c) }

func (st *State) deep(c *Term) bool {
	if st.f.entails(c) {
		return true
	}
	defer limitRefute(5 * time.Second)()
	no := func(d *Term) bool {
		g := st.f.clone()
		g.assume(d)
		budget := 120
		return g.refutes(st.hints, &budget)
	}
	if c.op == "eq0" {
		l := c.args[0].(*Term)
		return no(Ge0(AddC(l, -1))) && no(Ge0(AddC(Neg(l), -1)))
	}
	return no(Not(c))
}

// locate replaces a position by one of the positions the rule speaks about
// if it is provably the same.
func (r *Run) locate(i *Term) *Term {
	for _, p := range r.st.pivots {
		if p == i || r.deep(EqI(i, p)) {
			return p
		}
	}
	return i
}

// refuteStop ends a search for a contradiction that takes too long.
var refuteStop time.Time

func limitRefute(d time.Duration) func() {
	old := refuteStop
	refuteStop = time.Now().Add(d)
	return func() { refuteStop = old }
}

// refutes shows that the facts are contradictory. f is used up.
func (f *Facts) refutes(hints []Val, budget *int) bool {
	for i := 0; i < 6; i++ {
		if !refuteStop.IsZero() && time.Now().After(refuteStop) {
			*budget = 0
			return false
		}
		ch := f.saturate(hints)
		if f.dead || f.unsat(nil) {
			return true
		}
		if !ch {
			break
		}
	}
	if *budget <= 0 {
		return false
	}
	for _, alt := range f.split(hints) {
		*budget--
		if *budget < 0 {
			return false
		}
		g := f.clone()
		for _, c := range alt {
			g.assume(c)
		}
		if g.dead || g.unsat(nil) {
			continue
		}
		if !g.refutes(hints, budget) {
			return false
		}
	}
	return f.splitDone
}

// split proposes a case distinction that covers all cases.
func (f *Facts) split(hints []Val) [][]*Term {
	f.splitDone = true
	ne := func(tags bool) [][]*Term {
		for i := len(f.ne) - 1; i >= 0; i-- {
			x := f.ne[i]
			if tagTerm(x) == tags && !x.lam() && !f.entails(Ge0(x)) && !f.entails(Ge0(Neg(x))) {
				return [][]*Term{{Ge0(AddC(x, -1))}, {Ge0(AddC(Neg(x), -1))}}
			}
		}
		return nil
	}
	if c := ne(false); c != nil {
		return c
	}
	ground := f.groundElems(hints)
	for _, fa := range f.all {
		if fa.alts != nil {
			continue
		}
		for _, cand := range f.candidates(fa, ground) {
			above, below := Ge(cand, fa.from), Lt(cand, fa.to)
			if f.entails(Not(above)) || f.entails(Not(below)) {
				continue
			}
			for _, c := range []*Term{above, below} {
				if !f.entails(c) {
					return [][]*Term{{c}, {Not(c)}}
				}
			}
		}
	}
	for fi, fa := range f.all {
		if fa.alts == nil {
			continue
		}
		for _, cand := range f.candidates(fa, ground) {
			ik := fmt.Sprint(fi, "@", cand.key())
			if f.insts[ik] || !f.entails(Ge(cand, fa.from)) || !f.entails(Lt(cand, fa.to)) {
				continue
			}
			f.insts[ik] = true
			var out [][]*Term
			for _, a := range fa.alts {
				var cs []*Term
				for _, c := range a {
					cs = append(cs, substT(c, fa.j, cand))
				}
				out = append(out, cs)
			}
			return out
		}
	}
	if c := ne(true); c != nil {
		return c
	}
	f.splitDone = false
	return nil
}

// tagTerm: the order of the values of x means nothing.
func tagTerm(x *Term) bool {
	_, ms := lin(x)
	for _, m := range ms {
		switch m.a.op {
		case "call:Kind", "call:Type", "stridx":
		default:
			return false
		}
	}
	return true
}

// groundElems: the indexes of the elements mentioned by facts and hints.
func (f *Facts) groundElems(hints []Val) map[string][]*Term {
	ground := map[string][]*Term{}
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		if !seen[t] && !t.lam() && (t.op == "elem" || strings.HasPrefix(t.op, "src:")) {
			seen[t] = true
			ground[trigKey(t)] = append(ground[trigKey(t)], t.args[len(t.args)-1].(*Term))
		}
	}
	for _, t := range f.list {
		subterms(t, visit)
	}
	for _, h := range hints {
		subterms(h, visit)
	}
	return ground
}

// hint: terms the quantified facts are instantiated on before a failure is
// reported.
func (r *Run) hint(vs ...Val) {
	r.st.hints = append(r.st.hints[:len(r.st.hints):len(r.st.hints)], vs...)
}

func (r *Run) progPanic(msg string) {
	r.refute()
	pos, fn := r.where()
	panic(pathEnd{kind: "panic", msg: msg, pos: pos, fn: fn})
}

func (r *Run) stuck(format string, a ...interface{}) {
	r.refute()
	pos, fn := r.where()
	panic(pathEnd{kind: "stuck", msg: fmt.Sprintf(format, a...), pos: pos, fn: fn})
}

func (r *Run) assume(t *Term) {
	switch t.op {
	case "and":
		for _, a := range t.args {
			r.assume(a.(*Term))
		}
		return
	case "or":
		if !r.Decide(t) {
			r.infeasible()
		}
		return
	case "true":
		return
	}
	if r.st.f.entails(Not(t)) {
		r.infeasible()
	}
	r.st.f.assume(t)
	if r.st.f.dead {
		r.infeasible()
	}
}

// Decide resolves a condition, splitting the path when it is open.
func (r *Run) Decide(c *Term) bool {
	switch c.op {
	case "true":
		return true
	case "false":
		return false
	case "and":
		for _, a := range c.args {
			if !r.Decide(a.(*Term)) {
				return false
			}
		}
		return true
	case "or":
		for _, a := range c.args {
			if r.Decide(a.(*Term)) {
				return true
			}
		}
		return false
	}
	f := r.st.f
	if r.e.textOn {
		if v, ok := r.textKnown(c); ok {
			return v
		}
	}
	if f.entails(c) {
		return true
	}
	if f.entails(Not(c)) {
		return false
	}
	if f.instantiate(c) {
		if f.dead {
			r.infeasible()
		}
		if f.entails(c) {
			return true
		}
		if f.entails(Not(c)) {
			return false
		}
	}
	if r.choose(2) == 0 {
		r.assume(c)
		return true
	}
	r.assume(Not(c))
	return false
}

// known: true/false/undetermined without splitting.
func (r *Run) entails(c *Term) bool {
	if r.st.f.entails(c) {
		return true
	}
	if r.st.f.instantiate(c) {
		return r.st.f.entails(c)
	}
	return false
}

// require: a safety condition; the violating side is a program panic.
func (r *Run) require(c *Term, msg string) {
	r.e.obligations++
	if !r.Decide(c) {
		r.progPanic(msg)
	}
}

// ---- fresh symbols (functions of the enclosing iteration variables)

func (r *Run) freshName(base string) string {
	n := r.st.cnt[base]
	r.st.cnt[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, n)
}

func (r *Run) ctxArgs() []Val {
	return append([]Val{}, r.st.ctx...)
}

func sortOf(t types.Type) Sort {
	if t == nil {
		return SOpaque
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsInteger != 0:
			return SInt
		case b.Info()&types.IsBoolean != 0:
			return SBool
		case b.Info()&types.IsString != 0:
			return SStr
		case b.Info()&types.IsFloat != 0:
			return SFloat
		}
	}
	return SOpaque
}

// opaqueVal wraps an uninterpreted term of Go type t as a Val.
func (r *Run) opaqueVal(t types.Type, op string, args ...Val) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x := App(SOpaque, op, t, args...)
		return r.symSlice(x, t)
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, r.opaqueVal(u.At(i).Type(), fmt.Sprintf("%s.%d", op, i), args...))
		}
		return tv
	case *types.Array:
		x := App(SOpaque, op, t, args...)
		return symArray(x, u.Elem(), IntC(u.Len()))
	case *types.Struct:
		if r.e.inPkg(t) {
			sv := &StructV{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				sv.fields = append(sv.fields, r.opaqueVal(u.Field(i).Type(), fmt.Sprintf("%s.%s", op, u.Field(i).Name()), args...))
			}
			return sv
		}
	}
	return App(sortOf(t), op, t, args...)
}

func (r *Run) fresh(t types.Type, base string) Val {
	return r.opaqueVal(t, "fresh:"+r.freshName(base), r.ctxArgs()...)
}

func (r *Run) freshInt(base string, lo *big.Int) *Term {
	t := App(SInt, "fresh:"+r.freshName(base), nil, r.ctxArgs()...)
	if t.lo == nil {
		t.lo = lo
	}
	return t
}

func (r *Run) freshBool(base string) *Term {
	return App(SBool, "fresh:"+r.freshName(base), nil, r.ctxArgs()...)
}

func symArray(x Val, elem types.Type, n *Term) *ArrayV {
	kv := BoundVar("·e")
	return &ArrayV{elem, n, []Seg{{IntC(0), n, kv, elemOf(x, elem, kv)}}}
}

// elemOf is element idx of the opaque sequence x.
func elemOf(x Val, elem types.Type, idx *Term) Val {
	return App(sortOf(elem), "elem", elem, x, idx)
}

// symSlice is the slice value of an opaque slice term.
func (r *Run) symSlice(x *Term, t types.Type) *SliceV {
	elem := t.Underlying().(*types.Slice).Elem()
	k := x.key()
	id, ok := r.st.sym[k]
	n := AppR("len", bigZero, nil, x)
	c := AppR("cap", bigZero, nil, x)
	if !ok {
		id = r.st.newObj(symArray(x, elem, c), &Meta{origin: x.String(), term: x, typ: t})
		r.st.sym[k] = id
	}
	r.st.f.assume(Ge(c, n))
	return &SliceV{obj: id, off: IntC(0), len: n, cap: c, typ: t}
}

// symPtr is the object an opaque pointer refers to.
func (r *Run) symPtr(x *Term) int {
	k := x.key()
	if id, ok := r.st.sym[k]; ok {
		return id
	}
	pt := x.typ.Underlying().(*types.Pointer)
	cell := r.opaqueVal(pt.Elem(), "deref", x)
	id := r.st.newObj(cell, &Meta{origin: x.String(), term: x, typ: pt.Elem()})
	r.st.sym[k] = id
	return id
}

// ---- zero values

func (r *Run) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntC(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return StrC("")
		case u.Info()&types.IsFloat != 0:
			return FloatC("0")
		case u.Kind() == types.UntypedNil:
			return &NilV{t}
		}
	case *types.Slice:
		return nilSlice(t)
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return &NilV{t}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && r.e.sinkType(n) != "" {
			return &SinkV{kind: r.e.sinkType(n)}
		}
		if !r.e.inPkg(t) && u.NumFields() > 0 {
			return App(SOpaque, "zero", t)
		}
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, r.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		z := r.zero(u.Elem())
		return &ArrayV{u.Elem(), IntC(u.Len()), []Seg{{IntC(0), IntC(u.Len()), nil, z}}}
	}
	return App(SOpaque, "zero", t)
}

func nilSlice(t types.Type) *SliceV {
	return &SliceV{obj: 0, off: IntC(0), len: IntC(0), cap: IntC(0), typ: t}
}

// ---- heap access

func (r *Run) load(p *PtrV) Val {
	return r.getPath(r.st.heap[p.obj], p.path)
}

func (r *Run) getPath(v Val, path []Acc) Val {
	for _, a := range path {
		v = r.pick(v)
		switch c := v.(type) {
		case *StructV:
			if a.field < 0 {
				r.stuck("index into struct")
			}
			v = c.fields[a.field]
		case *ArrayV:
			if a.field >= 0 {
				r.stuck("field of array")
			}
			v = r.arrRead(c, a.idx)
		case *Term:
			if a.field >= 0 {
				st, ok := c.typ.Underlying().(*types.Struct)
				if !ok {
					r.stuck("field of %s", c)
				}
				v = r.opaqueVal(st.Field(a.field).Type(), "field."+st.Field(a.field).Name(), c)
			} else {
				r.stuck("index of %s", c)
			}
		default:
			r.stuck("path into %s", show(v))
		}
	}
	return v
}

// pick resolves IteV by splitting the path.
func (r *Run) pick(v Val) Val {
	for {
		i, ok := v.(*IteV)
		if !ok {
			return v
		}
		if r.Decide(i.c) {
			v = i.a
		} else {
			v = i.b
		}
	}
}

func (r *Run) store(p *PtrV, v Val) {
	r.st.heap[p.obj] = r.setPath(r.st.heap[p.obj], p.path, v)
	w := Write{obj: p.obj, path: p.path, val: v}
	if n := len(p.path); n > 0 && p.path[n-1].field < 0 {
		w.idx = p.path[n-1].idx
		w.path = p.path[:n-1]
	}
	r.noteWrite(w)
}

func (r *Run) noteWrite(w Write) {
	w.pos, w.fn = r.where()
	w.m = r.st.meta[w.obj]
	r.st.writes = append(r.st.writes, w)
}

func (r *Run) setPath(c Val, path []Acc, v Val) Val {
	if len(path) == 0 {
		return v
	}
	a := path[0]
	switch c := c.(type) {
	case *StructV:
		n := &StructV{c.typ, append([]Val{}, c.fields...)}
		n.fields[a.field] = r.setPath(c.fields[a.field], path[1:], v)
		return n
	case *ArrayV:
		nv := v
		if len(path) > 1 {
			nv = r.setPath(r.arrRead(c, a.idx), path[1:], v)
		}
		return r.arrStore(c, a.idx, nv)
	case *Term:
		if c.typ != nil {
			if st, ok := c.typ.Underlying().(*types.Struct); ok {
				n := &StructV{typ: c.typ}
				for i := 0; i < st.NumFields(); i++ {
					n.fields = append(n.fields, r.opaqueVal(st.Field(i).Type(), "field."+st.Field(i).Name(), c))
				}
				return r.setPath(n, path, v)
			}
		}
	}
	r.stuck("store into %s", show(c))
	return nil
}

// ---- arrays

func (s Seg) at(i *Term) Val {
	if s.kv == nil {
		return s.body
	}
	return subst(s.body, s.kv, i)
}

func (r *Run) arrRead(a *ArrayV, i *Term) Val {
	return r.segRead(a.segs, i)
}

func (r *Run) segRead(segs []Seg, i *Term) Val {
	for n, s := range segs {
		if n == len(segs)-1 {
			return s.at(i)
		}
		if r.entails(Ge(i, s.hi)) {
			continue
		}
		if r.Decide(Lt(i, s.hi)) {
			return s.at(i)
		}
	}
	r.stuck("read of element %s outside of the known content", i)
	return nil
}

// cut returns the parts of segs before and from position p.
func (r *Run) cut(segs []Seg, p *Term) (l, rt []Seg) {
	for n, s := range segs {
		switch {
		case r.entails(Ge(p, s.hi)):
			l = append(l, s)
		case r.entails(Le(p, s.lo)):
			rt = append(rt, segs[n:]...)
			return
		case r.entails(Le(p, s.hi)) && r.entails(Ge(p, s.lo)):
			// possibly empty parts are fine
			l = append(l, Seg{s.lo, p, s.kv, s.body})
			rt = append(rt, Seg{p, s.hi, s.kv, s.body})
			rt = append(rt, segs[n+1:]...)
			return
		case r.Decide(Le(p, s.lo)):
			rt = append(rt, segs[n:]...)
			return
		case r.Decide(Lt(p, s.hi)):
			l = append(l, Seg{s.lo, p, s.kv, s.body})
			rt = append(rt, Seg{p, s.hi, s.kv, s.body})
			rt = append(rt, segs[n+1:]...)
			return
		default:
			l = append(l, s)
		}
	}
	return
}

func (r *Run) arrStore(a *ArrayV, i *Term, v Val) *ArrayV {
	l, rest := r.cut(a.segs, i)
	_, rt := r.cut(rest, AddC(i, 1))
	segs := append([]Seg{}, l...)
	segs = append(segs, Seg{i, AddC(i, 1), nil, v})
	segs = append(segs, rt...)
	return &ArrayV{a.elem, a.n, r.clean(segs)}
}

// clean drops empty segments and merges neighbours with the same body.
func (r *Run) clean(segs []Seg) []Seg {
	var out []Seg
	for _, s := range segs {
		if s.lo == s.hi || r.st.f.entails(Ge(s.lo, s.hi)) {
			continue
		}
		if n := len(out); n > 0 && out[n-1].hi == s.lo && sameBody(out[n-1], s) {
			out[n-1].hi = s.hi
			continue
		}
		out = append(out, s)
	}
	return out
}

func sameBody(a, b Seg) bool {
	if a.kv == nil && b.kv == nil {
		return a.body.key() == b.body.key()
	}
	x, y := a.body, b.body
	if a.kv != nil {
		x = subst(x, a.kv, canonKV)
	}
	if b.kv != nil {
		y = subst(y, b.kv, canonKV)
	}
	return x.key() == y.key()
}

// slice of a content: elements [a,b) rebased so that a becomes base.
func (r *Run) subSegs(segs []Seg, a, b, base *Term) []Seg {
	_, rest := r.cut(segs, a)
	mid, _ := r.cut(rest, b)
	return shiftSegs(mid, Sub(base, a))
}

func shiftSegs(segs []Seg, d *Term) []Seg {
	if c, ok := d.int64(); ok && c == 0 {
		return segs
	}
	var out []Seg
	for _, s := range segs {
		n := Seg{lo: Add(s.lo, d), hi: Add(s.hi, d), kv: s.kv, body: s.body}
		if s.kv != nil {
			n.body = subst(s.body, s.kv, Sub(s.kv, d))
		}
		out = append(out, n)
	}
	return out
}

// arrCopy writes segs (already rebased to lo) over [lo,hi) of a.
func (r *Run) arrCopy(a *ArrayV, lo, hi *Term, segs []Seg) *ArrayV {
	l, rest := r.cut(a.segs, lo)
	_, rt := r.cut(rest, hi)
	out := append([]Seg{}, l...)
	out = append(out, segs...)
	out = append(out, rt...)
	return &ArrayV{a.elem, a.n, r.clean(out)}
}

// content of a slice value, rebased to 0.
func (r *Run) sliceSegs(s *SliceV) []Seg {
	if s.obj == 0 {
		return nil
	}
	a, ok := r.getPath(r.st.heap[s.obj], s.path).(*ArrayV)
	if !ok {
		r.stuck("slice of %s", show(r.st.heap[s.obj]))
	}
	return r.clean(r.subSegs(a.segs, s.off, Add(s.off, s.len), IntC(0)))
}

func (r *Run) sliceElem(s *SliceV) types.Type {
	return s.typ.Underlying().(*types.Slice).Elem()
}

// freezeSlice takes an immutable snapshot.
func (r *Run) freezeSlice(s *SliceV) *SeqV {
	return &SeqV{r.sliceElem(s), s.len, r.sliceSegs(s)}
}

// newSlice allocates a fresh slice with given content (based at 0).
func (r *Run) newSlice(t types.Type, n *Term, segs []Seg, m *Meta) *SliceV {
	el := t.Underlying().(*types.Slice).Elem()
	if m == nil {
		m = &Meta{fresh: true, typ: t}
	}
	id := r.st.newObj(&ArrayV{el, n, segs}, m)
	return &SliceV{obj: id, off: IntC(0), len: n, cap: n, typ: t}
}

// bulk write into a slice: [at, at+n) := segs (rebased to 0)
func (r *Run) writeSlice(s *SliceV, at, n *Term, segs []Seg, from Val) {
	if r.entails(Le(n, IntC(0))) {
		return
	}
	lo := Add(s.off, at)
	cell := r.st.heap[s.obj]
	a, ok := r.getPath(cell, s.path).(*ArrayV)
	if !ok {
		r.stuck("write into %s", show(cell))
	}
	na := r.arrCopy(a, lo, Add(lo, n), shiftSegs(segs, lo))
	r.st.heap[s.obj] = r.setPath(cell, s.path, na)
	w := Write{obj: s.obj, path: s.path, bulk: true, idx: lo, n: n, from: from}
	r.noteWrite(w)
}
