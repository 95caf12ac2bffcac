package main

import (
	"fmt"
	"go/types"
)

// ---- collections under test

// coll is one collection value with symbolic contents.
type coll struct {
	v     Val
	n     *Term // number of elements or entries
	elem  func(r *Run, k *Term) Val
	key   func(r *Run, k *Term) Val // nil for dense lists
	value func(r *Run, k *Term) Val
	src   *SliceV
}

type collRig struct {
	name string
	kind string // "list", "sparse", "map"
	ctor string
	mk   func(r *Run) *coll
}

// forAllElems assumes conds(elem) for every element of the symbolic slice.
func (r *Run) forAllElems(s *SliceV, from, to *Term, conds func(j *Term, x *Term) []*Term) {
	j := BoundVar("·q")
	segs := r.sliceSegs(s)
	if len(segs) != 1 {
		r.stuck("not a plain symbolic slice")
	}
	b := segs[0]
	body := b.body
	if b.kv != nil {
		body = subst(body, b.kv, j)
	}
	x, ok := body.(*Term)
	if !ok {
		r.stuck("elements of a symbolic slice")
	}
	r.st.f.all = append(r.st.f.all[:len(r.st.f.all):len(r.st.f.all)], &Forall{j: j, from: from, to: to, conds: conds(j, x)})
}

func (r *Run) nonNilElems(s *SliceV) {
	r.forAllElems(s, IntC(0), s.len, func(j, x *Term) []*Term { return []*Term{Not(IsNilAtom(x))} })
}

func collRigs() []collRig {
	dense := func(fn string) collRig {
		return collRig{fn, "list", fn, func(r *Run) *coll {
			xs := r.inSlice(r.pre+"xs", r.T("Value"))
			seq := r.seqOf(xs)
			return &coll{v: r.call(fn, xs), n: xs.len, elem: seq.at, value: seq.at, src: xs}
		}}
	}
	keyed := func(fn, kind, elem string) collRig {
		return collRig{fn, kind, fn, func(r *Run) *coll {
			xs := r.inSlice(r.pre+"xs", r.T(elem))
			r.nonNilElems(xs)
			seq := r.seqOf(xs)
			return &coll{v: r.call(fn, xs, True), n: xs.len, elem: seq.at, src: xs,
				key:   func(r *Run, k *Term) Val { return r.m1(seq.at(r, k), "Key") },
				value: func(r *Run, k *Term) Val { return r.m1(seq.at(r, k), "Value") }}
		}}
	}
	return []collRig{
		dense("ImmutableList"), dense("MutableList"),
		keyed("SparseList", "sparse", "ListItem"),
		keyed("ImmutableMap", "map", "MapEntry"), keyed("SortedMap", "map", "MapEntry"),
	}
}

// ---- matching a log of events against an expected sequence

type expEv struct {
	op   string
	args []Val                   // nil entries are not compared
	same func(r *Run, got Event) // instead of args
}

// matchChildren: evs are exactly the groups child(0) .. child(n-1), each a
// list of events, in order. Loops in the log contribute one group per
// iteration. ok reports false when this path stops inside an iteration.
type matcher struct {
	n     *Term
	child func(r *Run, k *Term) []expEv
	pos   *Term
	pend  int
	group []expEv
	what  string
}

func (m *matcher) expect(r *Run) expEv {
	if m.pend == 0 {
		r.e.obligations++
		if !r.Decide(Lt(m.pos, m.n)) {
			r.violation("%s: more is written than the announced %s", m.what, m.n)
		}
		m.group = m.child(r, m.pos)
	}
	return m.group[m.pend]
}

func (m *matcher) advance() {
	m.pend++
	if m.pend == len(m.group) {
		m.pend = 0
		m.pos = AddC(m.pos, 1)
	}
}

func (m *matcher) single(r *Run, e Event) {
	x := m.expect(r)
	what := fmt.Sprintf("%s: child %s", m.what, m.pos)
	r.e.obligations++
	if e.op != x.op {
		r.violation("%s: got %s, want %s%s", what, e, x.op, showArgs(x.args))
	}
	if x.same != nil {
		x.same(r, e)
	}
	for i, a := range x.args {
		if a == nil {
			continue
		}
		if i >= len(e.args) {
			r.violation("%s: got %s", what, e)
		}
		r.same(e.args[i], a, what+": "+e.op)
	}
	m.advance()
}

func showArgs(vs []Val) string {
	s := "("
	for i, v := range vs {
		if i > 0 {
			s += ", "
		}
		s += show(v)
	}
	return s + ")"
}

// run matches the events; false: the path was cut inside a loop iteration.
func (m *matcher) run(r *Run, evs []Event) bool {
	for _, e := range evs {
		if e.loop == nil {
			m.single(r, e)
			continue
		}
		l := e.loop
		if !r.Decide(Lt(l.from, l.n)) {
			continue
		}
		if r.choose(2) == 0 {
			j := r.freshInt("it", nil)
			r.assume(Ge(j, l.from))
			r.assume(Lt(j, l.n))
			alt := l.alts[r.choose(len(l.alts))]
			for _, c := range alt.conds {
				r.assume(substT(c, l.j, j))
			}
			in := &matcher{n: m.n, child: m.child, pos: Add(m.pos, Sub(j, l.from)), pend: m.pend, what: m.what}
			if in.pend > 0 {
				in.group = m.child(r, in.pos)
			}
			start, pend := in.pos, in.pend
			s := &substituter{x: l.j, by: j, memo: map[*Term]*Term{}}
			var body []Event
			for _, x := range alt.evs {
				body = append(body, s.event(x))
			}
			if in.run(r, body) {
				r.e.obligations++
				if in.pend != pend || !r.entails(EqI(in.pos, AddC(start, 1))) {
					r.violation("%s: one step of the loop writes %s complete children (and %d parts), want one: %s", m.what, Sub(in.pos, start), in.pend-pend, e)
				}
			}
			return false
		}
		m.pos = Add(m.pos, Sub(l.n, l.from))
		if m.pend > 0 {
			m.group = m.child(r, m.pos)
		}
	}
	return true
}

func (m *matcher) end(r *Run) {
	r.e.obligations++
	if m.pend != 0 {
		r.violation("%s: child %s is incomplete", m.what, m.pos)
	}
	if !r.Decide(EqI(m.pos, m.n)) {
		r.violation("%s: %s children are written but %s are announced", m.what, m.pos, m.n)
	}
}

// ---- C12

func (r *Run) inPacker() *Term {
	p := Sym(SOpaque, "packer", r.T("Packer"))
	p.non = true
	return p
}

func packEv(name string, args ...Val) expEv { return expEv{op: "Packer." + name, args: args} }

// packedValue: the value is packed, or nil in its place.
func (r *Run) packedValue(v Val, p Val) expEv {
	v = r.pick(v)
	if r.Decide(r.isNil(v)) {
		return packEv("PackNil", p)
	}
	return expEv{op: "Value.Pack", args: []Val{v, p}}
}

func checkC12(c *Check) {
	for _, rig := range collRigs() {
		rig := rig
		c.obl(rig.name+".Pack", func(r *Run) {
			q := rig.mk(r)
			p := r.inPacker()
			e0 := len(r.st.evs)
			r.m1(q.v, "Pack", p)
			evs := r.st.evs[e0:]
			header := packEv("PackMap", p, q.n)
			if rig.kind == "list" {
				header = packEv("PackList", p, q.n)
			}
			r.e.obligations++
			if len(evs) == 0 || evs[0].op != header.op {
				r.violation("%s: the packing does not start with %s", rig.name, header.op)
			}
			r.same(evs[0].args[1], q.n, rig.name+": announced count")
			r.same(evs[0].args[0], p, rig.name+": packer")
			m := &matcher{n: q.n, pos: IntC(0), what: rig.name, child: func(r *Run, k *Term) []expEv {
				var g []expEv
				switch rig.kind {
				case "map":
					g = append(g, packEv("PackStr", p, q.key(r, k)))
				case "sparse":
					g = append(g, packEv("PackLong", p, q.key(r, k)))
				}
				return append(g, r.packedValue(q.value(r, k), p))
			}}
			if m.run(r, evs[1:]) {
				m.end(r)
			}
		})
	}
	for _, s := range scalarRigs() {
		s := s
		c.obl(s.name+".Pack", func(r *Run) {
			v, want := s.mk(r)
			p := r.inPacker()
			e0 := len(r.st.evs)
			r.m1(v, "Pack", p)
			evs := r.st.evs[e0:]
			r.e.obligations++
			if len(evs) != 1 {
				r.violation("%s: %d tokens are written, want one", s.name, len(evs))
			}
			if evs[0].op != "Packer."+want.op {
				r.violation("%s: got %s, want %s", s.name, evs[0], want.op)
			}
			r.same(evs[0].args[0], p, s.name+": packer")
			for i, a := range want.args {
				if a == nil {
					continue
				}
				r.sameArg(evs[0].args[i+1], a, s.name+": "+want.op)
			}
			if want.same != nil {
				want.same(r, evs[0])
			}
		})
	}
}

// sameArg compares slice arguments (frozen) by content.
func (r *Run) sameArg(got, want Val, what string) {
	q, ok := r.pick(got).(*SeqV)
	if !ok {
		r.same(got, want, what)
		return
	}
	w, ok := r.freezeArg(want).(*SeqV)
	if !ok {
		r.violation("%s: got %s, want %s", what, show(got), show(want))
	}
	if q.key() == w.key() {
		return
	}
	r.checkSeqs(ESeq{q.n, func(r *Run, k *Term) Val { return r.segRead(q.segs, k) }}, ESeq{w.n, func(r *Run, k *Term) Val { return r.segRead(w.segs, k) }}, what)
}

func (r *Run) checkSeqs(got, want ESeq, what string) {
	r.e.obligations++
	if !r.Decide(EqI(got.n, want.n)) {
		r.violation("%s: length is %s, want %s", what, got.n, want.n)
	}
	k := r.index("k", want.n)
	r.same(got.at(r, k), want.at(r, k), fmt.Sprintf("%s: element %s", what, k))
}

type scalarRig struct {
	name string
	kind string // Kind constant
	typ  string // number or string type tag
	mk   func(r *Run) (Val, expEv)
}

func (r *Run) inBig(name string) Val {
	t := r.e.pkg.Func("BigInt").Signature.Params().At(0).Type()
	x := Sym(SOpaque, r.pre+name, t)
	x.non = true
	return x
}

func scalarRigs() []scalarRig {
	return []scalarRig{
		{"Null", "NULL", "", func(r *Run) (Val, expEv) { return r.null(), expEv{op: "PackNil"} }},
		{"Boolean", "BOOL", "", func(r *Run) (Val, expEv) {
			b := Sym(SBool, r.pre+"b", types.Typ[types.Bool])
			return r.call("Boolean", b), expEv{op: "PackBool", args: []Val{b}}
		}},
		{"Long", "NUMBER", "LONG", func(r *Run) (Val, expEv) {
			x := Sym(SInt, r.pre+"v", types.Typ[types.Int64])
			return r.call("Long", x), expEv{op: "PackLong", args: []Val{x}}
		}},
		{"Double", "NUMBER", "DOUBLE", func(r *Run) (Val, expEv) {
			x := Sym(SFloat, r.pre+"v", types.Typ[types.Float64])
			return r.call("Double", x), expEv{op: "PackDouble", args: []Val{x}}
		}},
		{"Utf8", "STRING", "UTF8", func(r *Run) (Val, expEv) {
			x := Sym(SStr, r.pre+"s", types.Typ[types.String])
			return r.call("Utf8", x), expEv{op: "PackStr", args: []Val{x}}
		}},
		{"Raw", "STRING", "RAW", func(r *Run) (Val, expEv) {
			x := r.inSlice(r.pre+"data", byteT)
			f := r.freezeSlice(x)
			return r.call("Raw", x, r.freshBool("copy")), expEv{op: "PackBin", args: []Val{f}}
		}},
		{"Unknown", "UNKNOWN", "", func(r *Run) (Val, expEv) {
			x := r.inSlice(r.pre+"data", byteT)
			if r.Decide(Eq0(x.len)) {
				return r.iface(r.call("Unknown", x)), expEv{op: "PackExt", args: []Val{nil, &SeqV{byteT, IntC(0), nil}}}
			}
			tag := r.readElem(x, IntC(0))
			segs := r.subSegs(r.sliceSegs(x), IntC(1), x.len, IntC(0))
			return r.iface(r.call("Unknown", x)), expEv{op: "PackExt", args: []Val{tag, &SeqV{byteT, AddC(x.len, -1), segs}}}
		}},
		{"BigInt", "NUMBER", "BIGINT", func(r *Run) (Val, expEv) {
			x := r.inBig("big")
			return r.call("BigInt", x), expEv{op: "PackExt", args: []Val{r.cons("BigIntExt"), nil}, same: func(r *Run, e Event) {
				t := r.call("UnpackBigInt", r.thaw(e.args[2])).(*TupleV)
				r.must(r.isNil(t.vs[1]), "the packed big integer is not accepted by UnpackBigInt")
				r.same(r.bigCell(t.vs[0]), r.bigCell(x), "the packed big integer")
			}}
		}},
		{"Decimal", "NUMBER", "DECIMAL", func(r *Run) (Val, expEv) {
			t := r.e.pkg.Func("Decimal").Signature.Params().At(0).Type()
			x := r.in(r.pre+"dec", t)
			return r.call("Decimal", x), expEv{op: "PackExt", args: []Val{r.cons("DecimalExt"), nil}, same: func(r *Run, e Event) {
				t := r.call("UnpackDecimal", r.thaw(e.args[2])).(*TupleV)
				r.must(r.isNil(t.vs[1]), "the packed decimal is not accepted by UnpackDecimal")
				r.same(t.vs[0], x, "the packed decimal")
			}}
		}},
	}
}

// thaw turns a snapshot into a fresh slice again.
func (r *Run) thaw(v Val) Val {
	q, ok := v.(*SeqV)
	if !ok {
		return v
	}
	return r.newSlice(types.NewSlice(q.elem), q.n, q.segs, &Meta{fresh: true})
}
