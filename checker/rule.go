package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

// A property's check is a list of obligations; each obligation is analysed
// on its own from the state after package initialisation.
type Obligation struct {
	name string
	f    func(r *Run)
	// state prepares the engine (hooks); reset afterwards
	prep func(e *Engine)
}

type Finding struct {
	Obl   string `json:"obligation"`
	Kind  string `json:"kind"` // violation, panic, undecided
	Msg   string `json:"message"`
	Pos   string `json:"position"`
	Fn    string `json:"function"`
	Path  string `json:"path"`
	Rule  string `json:"rule"`
	Count int    `json:"paths"`
}

type Check struct {
	e         *Engine
	id        string
	findings  []Finding
	obls      []oblStat
	rules     []string
	notes     []string
	filter    string
	extra     map[string]int
	seq       int
	usedNames map[string]bool
	undecided []Finding
	part      int
	noPanic   bool // paths that end in a panic are another property's business
	onlyPanic bool // only paths that end in a panic matter
	parts     int
}

// oblTime bounds the analysis of one obligation; beyond it the obligation is
// reported as undecided.
const (
	oblTime   = 150 * time.Second
	totalTime = 600 * time.Second
)

var startTime = time.Now()

type oblStat struct {
	name    string
	seq     int
	paths   int
	conds   int
	dur     time.Duration
	bounded []string
}

func (c *Check) rule(s string) { c.rules = append(c.rules, s) }

func (c *Check) fail(obl, kind, msg, pos, fn, path string) {
	for i := range c.findings {
		f := &c.findings[i]
		if f.Obl == obl && f.Kind == kind && f.Msg == msg && f.Pos == pos {
			f.Count++
			return
		}
	}
	c.findings = append(c.findings, Finding{Obl: obl, Kind: kind, Msg: msg, Pos: pos, Fn: fn, Path: path, Count: 1})
}

func (c *Check) obl(name string, f func(r *Run)) []*Outcome {
	if c.filter != "" && !strings.Contains(name, c.filter) {
		return nil
	}
	c.seq++
	if c.parts > 1 && c.seq%c.parts != c.part {
		return nil
	}
	e := c.e
	hook, inv, rec := e.hook, e.invokeHook, e.recur
	defer func() {
		e.hook, e.invokeHook, e.recur, e.reenter = hook, inv, rec, nil
		e.packLog, e.packFails, e.notePayload, e.unrollAll, e.reflectOn, e.textOn = false, false, false, false, false, false
	}()
	e.paths = 0
	e.deadline = time.Now().Add(oblTime)
	if stop := startTime.Add(totalTime); stop.Before(e.deadline) {
		e.deadline = stop
	}
	o0 := e.obligations
	t0 := time.Now()
	var outs []*Outcome
	e.unroll = map[int]bool{}
	e.bounded = map[string]int{}
	for try := 0; ; try++ {
		e.obligations = o0
		e.bounded = map[string]int{}
		outs = e.Explore(e.start(), nil, func(r *Run) []Val {
			f(r)
			return nil
		})
		// a finding behind a loop summary that lost information is not
		// believed: the loop is then analysed iteration by iteration
		again := false
		for _, o := range outs {
			if o.kind == "ret" || o.kind == "bound" || try >= 5 {
				continue
			}
			for _, id := range o.st.impre {
				if !e.unroll[id] {
					e.unroll[id] = true
					again = true
				}
			}
		}
		if !again {
			break
		}
	}
	// what the summaries leave undecided is looked at once more with every
	// loop analysed iteration by iteration: what that refutes, for inputs of
	// a few elements, is refuted
	und := os.Getenv("VC_FORCE") != ""
	for _, o := range outs {
		und = und || o.kind == "stuck"
	}
	if und {
		o1, b1 := e.obligations, e.bounded
		e.forceUnroll = true
		e.bounded = map[string]int{}
		e.deadline = time.Now().Add(oblTime / 2)
		if stop := startTime.Add(totalTime); stop.Before(e.deadline) {
			e.deadline = stop
		}
		for _, o := range e.Explore(e.start(), nil, func(r *Run) []Val {
			f(r)
			return nil
		}) {
			if os.Getenv("VC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "FORCED", o.kind, o.msg, o.st.f.aliased())
			}
			if (o.kind == "panic" || o.kind == "violation") && !o.st.f.aliased() {
				outs = append(outs, o)
			}
		}
		e.forceUnroll = false
		e.obligations, e.bounded = o1, b1
	}
	rets := 0
	for _, o := range outs {
		if o.kind == "ret" {
			rets++
			continue
		}
		if o.kind == "bound" || o.kind == "panic" && c.noPanic || o.kind == "violation" && c.onlyPanic {
			continue
		}
		kind := o.kind
		if kind == "stuck" {
			kind = "undecided"
		}
		c.fail(name, kind, o.msg, o.pos, o.fn, o.path())
	}
	if rets == 0 && len(outs) == 0 {
		c.fail(name, "undecided", "no feasible path", "", "", "")
	}
	st := oblStat{name: name, seq: c.seq, paths: len(outs), conds: e.obligations - o0, dur: time.Since(t0)}
	for n := range e.bounded {
		st.bounded = append(st.bounded, n)
	}
	sort.Strings(st.bounded)
	e.unroll = map[int]bool{}
	c.obls = append(c.obls, st)
	if e.debug || os.Getenv("VC_STAT") != "" {
		fmt.Fprintf(os.Stderr, "%-50s outs=%d explored=%d conds=%d %v %v\n", name, st.paths, e.paths, st.conds, st.dur.Round(time.Millisecond), st.bounded)
	}
	return outs
}

// pre explores f to collect facts that decide which obligations there are; in
// every worker, and without judging.
func (c *Check) pre(f func(r *Run)) {
	e := c.e
	hook, inv, rec := e.hook, e.invokeHook, e.recur
	defer func() {
		e.hook, e.invokeHook, e.recur, e.reenter = hook, inv, rec, nil
		e.packLog, e.packFails, e.notePayload, e.unrollAll, e.reflectOn, e.textOn = false, false, false, false, false, false
	}()
	e.paths = 0
	e.deadline = time.Now().Add(oblTime)
	o0 := e.obligations
	e.unroll = map[int]bool{}
	e.bounded = map[string]int{}
	e.Explore(e.start(), nil, func(r *Run) []Val {
		f(r)
		return nil
	})
	e.obligations = o0
}

// ---- building blocks for rules

func (r *Run) T(name string) types.Type {
	t := r.e.typ(name)
	if t == nil {
		r.violation("exported type %s is missing", name)
	}
	return t
}

func (r *Run) sliceOf(t types.Type) types.Type { return types.NewSlice(t) }

func (r *Run) call(fn string, args ...Val) Val {
	f := r.e.pkg.Func(fn)
	if f == nil {
		r.violation("exported function %s is missing", fn)
	}
	res := r.callFn(f, args, nil)
	if len(res) == 0 {
		return nil
	}
	if len(res) > 1 {
		return &TupleV{res}
	}
	return res[0]
}

func (r *Run) m1(recv Val, name string, args ...Val) Val {
	res := r.method(recv, name, args...)
	if len(res) == 0 {
		return nil
	}
	return res[0]
}

// in is a symbolic input of the given type.
func (r *Run) in(name string, t types.Type) Val {
	s := Sym(sortOf(t), name, t)
	switch t.Underlying().(type) {
	case *types.Slice:
		return r.symSlice(s, t)
	}
	return s
}

func (r *Run) inInt(name string) *Term { return Sym(SInt, name, types.Typ[types.Int]) }

// inSlice is a symbolic non-nil slice with capacity equal to or above its length.
func (r *Run) inSlice(name string, elem types.Type) *SliceV {
	return r.in(name, types.NewSlice(elem)).(*SliceV)
}

func (r *Run) null() Val {
	v := r.pkgVar("Null")
	if _, ok := v.(*IfaceV); ok {
		return v
	}
	return &IfaceV{r.e.pkg.Var("Null").Type().Underlying().(*types.Pointer).Elem(), v}
}

func (r *Run) pkgVar(name string) Val {
	g := r.e.pkg.Var(name)
	if g == nil {
		r.violation("exported variable %s is missing", name)
	}
	return r.load(&PtrV{obj: r.globalObj(g), typ: g.Type()})
}

// norm: nil is stored as Null.
func (r *Run) norm(v Val) Val {
	if t, ok := v.(*Term); ok {
		return mkIte(IsNilAtom(t), r.null(), v)
	}
	return v
}

// index is an arbitrary position 0 <= k < n.
func (r *Run) index(name string, n *Term) *Term {
	if r.e.forceUnroll {
		// short inputs: one position after the other
		for i := int64(0); i <= 3*int64(r.e.unrollMax); i++ {
			r.assume(Gt(n, IntC(i)))
			if r.choose(2) == 0 {
				return IntC(i)
			}
		}
		panic(pathEnd{kind: "bound"})
	}
	k := r.freshInt(name, bigZero)
	r.assume(Lt(k, n))
	return k
}

// must reports a violation on every path where c does not follow.
func (r *Run) must(c *Term, format string, a ...interface{}) {
	r.e.obligations++
	if !r.Decide(c) {
		r.violation(format, a...)
	}
}

// same: the two values are identical.
func (r *Run) same(a, b Val, what string) {
	r.e.obligations++
	a, b = r.pick(a), r.pick(b)
	if a.key() == b.key() {
		return
	}
	if r.st.f.congr(a, b) {
		return
	}
	c := r.sameAtom(a, b)
	if !r.Decide(c) {
		r.violation("%s: got %s, want %s", what, show(a), show(b))
	}
}

func (r *Run) sameAtom(a, b Val) *Term {
	a, b = r.pick(a), r.pick(b)
	if a.key() == b.key() {
		return True
	}
	switch x := a.(type) {
	case *NewV:
		switch y := b.(type) {
		case *NewV:
			return r.sameAtom(x.cell, y.cell)
		}
		return False
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.fields) != len(y.fields) {
			return False
		}
		var cs []*Term
		for i := range x.fields {
			cs = append(cs, r.sameAtom(x.fields[i], y.fields[i]))
		}
		return And(cs...)
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if !types.Identical(x.dyn, y.dyn) {
				return False
			}
			return r.sameAtom(x.v, y.v)
		}
		if y, ok := b.(*Term); ok {
			return r.eqIfaceTerm(y, x)
		}
	case *SliceV:
		return BoolC(r.sameSlice(a, b))
	case *Term:
		if x.sort == SFloat {
			return BoolC(r.st.f.congr(a, b))
		}
		if y, ok := b.(*Term); ok && x.sort != y.sort {
			return False
		}
	}
	switch b.(type) {
	case *Term, *IfaceV, *NilV, *PtrV, *SliceV:
		return r.eqVal(a, b)
	}
	return False
}

func (r *Run) sameSlice(a, b Val) bool { return a.key() == b.key() }

// ESeq is an expected sequence.
type ESeq struct {
	n  *Term
	at func(r *Run, k *Term) Val
}

func (r *Run) seqOf(s *SliceV) ESeq {
	segs := r.sliceSegs(s)
	return ESeq{s.len, func(r *Run, k *Term) Val { return r.segRead(segs, k) }}
}

// checkSeq: slice s has exactly the expected elements.
func (r *Run) checkSeq(v Val, want ESeq, what string) {
	s, ok := r.pick(v).(*SliceV)
	if !ok {
		r.violation("%s: got %s", what, show(v))
	}
	r.e.obligations++
	if !r.Decide(EqI(s.len, want.n)) {
		r.violation("%s: length is %s, want %s", what, s.len, want.n)
	}
	k := r.index("k", want.n)
	got := r.readElem(s, k)
	r.same(got, want.at(r, k), fmt.Sprintf("%s: element %s", what, k))
}

func (r *Run) readElem(s *SliceV, k *Term) Val {
	if s.obj == 0 {
		r.violation("element %s of an empty slice", k)
	}
	a := r.getPath(r.st.heap[s.obj], s.path).(*ArrayV)
	return r.pick(r.arrRead(a, Add(s.off, k)))
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// sliceLit: a new slice with one element.
func (r *Run) sliceLit(el types.Type, v Val) Val {
	return r.newSlice(types.NewSlice(el), IntC(1), []Seg{{IntC(0), IntC(1), nil, v}}, nil)
}
