package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
)

// ---- plumbing shared by the wire format rules

// cons is an integer constant of the package.
func (r *Run) cons(name string) *Term {
	c, ok := r.e.tpkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		r.violation("exported constant %s is missing", name)
	}
	b, ok := new(big.Int).SetString(constant.ToInt(c.Val()).ExactString(), 10)
	if !ok {
		r.violation("constant %s is not an integer", name)
	}
	return IntB(b)
}

// stdType finds a type of an imported package.
func (e *Engine) stdType(pkg, name string) types.Type {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

var byteT = types.Typ[types.Uint8]
var bytesT = types.NewSlice(byteT)

// buffer is a fresh *bytes.Buffer as an io.Writer.
func (r *Run) buffer() (Val, *PtrV) {
	bt := r.e.stdType("bytes", "Buffer")
	if bt == nil {
		r.stuck("package bytes is not imported")
	}
	pt := types.NewPointer(bt)
	id := r.st.newObj(&SinkV{kind: "buffer"}, &Meta{origin: "output buffer", typ: bt})
	p := &PtrV{obj: id, typ: pt}
	return &IfaceV{pt, p}, p
}

// packerOn is the library's packer writing to w.
func (r *Run) packerOn(w Val) Val { return r.call("MessagePacker", w) }

// asPacker wraps the concrete packer as the Packer interface.
func (r *Run) iface(v Val) Val {
	switch x := v.(type) {
	case *IfaceV:
		return x
	}
	return &IfaceV{valType(v), v}
}

// output is everything written to the buffer, as one sequence of bytes.
func (r *Run) output(p *PtrV) ESeq {
	s, ok := r.load(p).(*SinkV)
	if !ok {
		r.stuck("output buffer")
	}
	segs, n := r.sinkSegs(s)
	return ESeq{n, func(r *Run, k *Term) Val { return r.segRead(segs, k) }}
}

func (r *Run) sinkSegs(s *SinkV) ([]Seg, *Term) {
	var segs []Seg
	n := IntC(0)
	for _, e := range s.evs {
		switch e.op {
		case "b":
			q := e.args[0].(*SeqV)
			segs = append(segs, shiftSegs(q.segs, n)...)
			n = Add(n, q.n)
		case "s":
			b := r.bytesOf(e.args[0].(*Term), bytesT)
			segs = append(segs, shiftSegs(r.sliceSegs(b), n)...)
			n = Add(n, b.len)
		default:
			r.stuck("output event %s", e)
		}
	}
	return r.clean(segs), n
}

// input is a caller's byte slice with the given first bytes followed by rest.
func (r *Run) input(head []*Term, rest *SliceV) *SliceV {
	var segs []Seg
	for i, b := range head {
		segs = append(segs, Seg{IntC(int64(i)), IntC(int64(i + 1)), nil, b})
	}
	n := IntC(int64(len(head)))
	segs = append(segs, shiftSegs(r.sliceSegs(rest), n)...)
	n = Add(n, rest.len)
	c := r.inInt("incap")
	r.assume(Ge(c, n))
	segs = append(segs, Seg{n, c, nil, IntC(0)})
	id := r.st.newObj(&ArrayV{byteT, c, segs}, &Meta{origin: "input", typ: bytesT})
	return &SliceV{obj: id, off: IntC(0), len: n, cap: c, typ: bytesT}
}

// concat is the slice made of a sequence followed by rest.
func (r *Run) inputSegs(segs []Seg, n *Term, rest *SliceV) *SliceV {
	all := append([]Seg{}, segs...)
	all = append(all, shiftSegs(r.sliceSegs(rest), n)...)
	n = Add(n, rest.len)
	id := r.st.newObj(&ArrayV{byteT, n, r.clean(all)}, &Meta{origin: "input", typ: bytesT})
	return &SliceV{obj: id, off: IntC(0), len: n, cap: n, typ: bytesT}
}

// ---- byte streams

// stream is an io.Reader delivering exactly the given bytes, in reads of any
// size; its position is kept in an abstract object.
type stream struct {
	term *Term
	data *SliceV
	obj  int
	fail Val // what ends it; nil: the end of the stream
	// a buffered or limited reader: the stream it reads from, where it
	// began, and how much it may take
	under *stream
	base  *Term
	limit *Term
	self  int // the io.LimitedReader in memory this is the state of
}

// eof is the error reported behind the last byte; part: after some bytes of
// a full read.
func (r *Run) streamEnd(s *stream, part bool) Val {
	if f := r.streamFailure(s); f != nil {
		return f
	}
	if part {
		return r.globalVal("io", "ErrUnexpectedEOF")
	}
	return r.globalVal("io", "EOF")
}

// streamFailure is the reader's own error that ends s here, if any.
func (r *Run) streamFailure(s *stream) Val {
	if s.limit == nil {
		return s.fail
	}
	f := r.streamFailure(s.under)
	if f == nil || r.Decide(Le(s.limit, r.streamPos(s))) {
		return nil
	}
	return f
}

func (r *Run) stream(name string, data *SliceV) *stream {
	rt := r.e.stdType("io", "Reader")
	t := Sym(SOpaque, name, rt)
	t.non = true
	s := &stream{term: t, data: data}
	s.obj = r.st.newObj(&StructV{fields: []Val{IntC(0)}}, &Meta{fresh: true, origin: "stream position"})
	if r.e.streams == nil {
		r.e.streams = map[*Term]*stream{}
	}
	r.e.streams[t] = s
	return s
}

func (r *Run) streamOf(v Val) *stream {
	v = r.pick(v)
	if iv, ok := v.(*IfaceV); ok {
		v = r.pick(iv.v)
	}
	if p, ok := v.(*PtrV); ok {
		return r.limitedAt(p)
	}
	t, ok := v.(*Term)
	if !ok {
		return nil
	}
	s := r.e.streams[t]
	if s == nil {
		return nil
	}
	if _, ok := r.st.heap[s.obj].(*StructV); !ok {
		return nil
	}
	return s
}

func (r *Run) streamPos(s *stream) *Term { return r.st.heap[s.obj].(*StructV).fields[0].(*Term) }

// buffered is a reader that takes bytes from s ahead of what it is asked for.
func (r *Run) buffered(s *stream, t types.Type) *Term {
	if s.data == nil {
		r.stuck("a buffered limited reader")
	}
	id := r.st.newObj(&StructV{fields: []Val{IntC(0)}}, &Meta{fresh: true, origin: "buffered reader"})
	p := r.streamPos(s)
	d := *s.data
	d.off, d.len, d.cap = Add(d.off, p), Sub(d.len, p), Sub(d.cap, p)
	x := App(SOpaque, fmt.Sprintf("buffered#%d", id), t, s.term)
	x.non = true
	r.e.streams[x] = &stream{term: x, data: &d, obj: id, fail: s.fail, under: s, base: p}
	return x
}

// take delivers the next n bytes (n <= what is left) as segments based at 0.
func (r *Run) streamTake(s *stream, n *Term) []Seg {
	p := r.streamPos(s)
	if s.limit != nil {
		segs := r.streamTake(s.under, n)
		r.st.heap[s.obj] = &StructV{fields: []Val{Add(p, n)}}
		return segs
	}
	segs := r.subSegs(r.sliceSegs(s.data), p, Add(p, n), IntC(0))
	r.st.heap[s.obj] = &StructV{fields: []Val{Add(p, n)}}
	if u := s.under; u != nil {
		at := r.freshInt("ahead", bigZero)
		r.assume(Le(Add(s.base, Add(p, n)), at))
		r.assume(Le(at, u.data.len))
		r.st.heap[u.obj] = &StructV{fields: []Val{at}}
	}
	return segs
}

// streamFull is io.ReadFull on a stream.
func (r *Run) streamFull(s *stream, b *SliceV, want *Term) []Val {
	if r.Decide(Eq0(want)) {
		return []Val{IntC(0), r.nilErr()}
	}
	if r.Decide(Ge(r.streamLeft(s), want)) {
		r.writeSlice(b, IntC(0), want, r.streamTake(s, want), nil)
		return []Val{want, r.nilErr()}
	}
	n := r.streamLeft(s)
	if r.Decide(Eq0(n)) {
		return []Val{IntC(0), r.streamEnd(s, false)}
	}
	r.writeSlice(b, IntC(0), n, r.streamTake(s, n), nil)
	return []Val{n, r.streamEnd(s, true)}
}

// streamAtLeast is io.ReadAtLeast on a stream: reads of any size until min
// bytes have arrived.
func (r *Run) streamAtLeast(s *stream, b *SliceV, min *Term) []Val {
	if r.Decide(Lt(b.len, min)) {
		return []Val{IntC(0), r.globalVal("io", "ErrShortBuffer")}
	}
	if r.Decide(Le(min, IntC(0))) {
		return []Val{IntC(0), r.nilErr()}
	}
	if !r.Decide(Ge(r.streamLeft(s), min)) {
		n := r.streamLeft(s)
		if r.Decide(Eq0(n)) {
			return []Val{IntC(0), r.streamEnd(s, false)}
		}
		r.writeSlice(b, IntC(0), n, r.streamTake(s, n), nil)
		return []Val{n, r.streamEnd(s, true)}
	}
	n := r.freshInt("rn", bigOne)
	r.assume(Le(min, n))
	r.assume(Le(n, b.len))
	r.assume(Le(n, r.streamLeft(s)))
	r.writeSlice(b, IntC(0), n, r.streamTake(s, n), nil)
	return []Val{n, r.nilErr()}
}

// streamRead is one Read of any size the io.Reader contract allows.
func (r *Run) streamRead(s *stream, b *SliceV) []Val {
	if r.Decide(Eq0(b.len)) {
		return []Val{IntC(0), r.nilErr()}
	}
	if r.Decide(Eq0(r.streamLeft(s))) {
		return []Val{IntC(0), r.streamEnd(s, false)}
	}
	n := r.freshInt("rn", bigOne)
	r.assume(Le(n, b.len))
	r.assume(Le(n, r.streamLeft(s)))
	r.writeSlice(b, IntC(0), n, r.streamTake(s, n), nil)
	if r.Decide(Eq0(r.streamLeft(s))) && r.choose(2) == 0 {
		return []Val{n, r.streamEnd(s, false)}
	}
	return []Val{n, r.nilErr()}
}

func (r *Run) streamLeft(s *stream) *Term {
	if s.limit == nil {
		return Sub(s.data.len, r.streamPos(s))
	}
	rem := Sub(s.limit, r.streamPos(s))
	if !r.Decide(Ge0(rem)) {
		return IntC(0)
	}
	if left := r.streamLeft(s.under); r.Decide(Lt(left, rem)) {
		return left
	}
	return rem
}

// limitedAt is the stream behind a pointer to an io.LimitedReader. From the
// first use on, the reader's own field holds the stream that keeps its
// position; what is left of N is not modelled any further.
func (r *Run) limitedAt(p *PtrV) *stream {
	pt, ok := p.typ.Underlying().(*types.Pointer)
	if !ok || pt.Elem().String() != "io.LimitedReader" {
		return nil
	}
	st, ok := r.load(p).(*StructV)
	if !ok || len(st.fields) != 2 {
		return nil
	}
	under := r.streamOf(st.fields[0])
	if under == nil {
		return nil
	}
	if under.self == p.obj {
		return under
	}
	l := r.limited(under, r.intVal(st.fields[1])).(*IfaceV)
	s := r.e.streams[l.v.(*Term)]
	s.self = p.obj
	r.storePtr(p, &StructV{typ: st.typ, fields: []Val{l, r.freshInt("left", nil)}})
	return s
}

// limited is io.LimitReader on a stream.
func (r *Run) limited(s *stream, n *Term) Val {
	id := r.st.newObj(&StructV{fields: []Val{IntC(0)}}, &Meta{fresh: true, origin: "limited reader"})
	pt := types.NewPointer(r.e.stdType("io", "LimitedReader"))
	x := App(SOpaque, fmt.Sprintf("limited#%d", id), pt, s.term, n)
	x.non = true
	r.e.streams[x] = &stream{term: x, obj: id, under: s, limit: n}
	return &IfaceV{dyn: pt, v: x}
}

// ---- MessagePack as specified

type wireCase struct {
	cond  *Term
	bytes []*Term
}

func beBytes(lead int64, v *Term, n int) []*Term {
	out := []*Term{IntC(lead)}
	for i := n - 1; i >= 0; i-- {
		out = append(out, Byte(v, i))
	}
	return out
}

func rng(v *Term, lo, hi string) *Term {
	l, _ := new(big.Int).SetString(lo, 0)
	h, _ := new(big.Int).SetString(hi, 0)
	return And(Ge(v, IntB(l)), Le(v, IntB(h)))
}

// u is v modulo 2^64 when v is negative.
func twos(v *Term, bits uint) *Term { return Add(v, IntB(pow2(bits))) }

func specLong(v *Term) []wireCase {
	return []wireCase{
		{rng(v, "0", "127"), []*Term{v}},
		{rng(v, "128", "255"), beBytes(0xcc, v, 1)},
		{rng(v, "256", "65535"), beBytes(0xcd, v, 2)},
		{rng(v, "65536", "0xffffffff"), beBytes(0xce, v, 4)},
		{rng(v, "0x100000000", "0x7fffffffffffffff"), beBytes(0xcf, v, 8)},
		{rng(v, "-32", "-1"), []*Term{twos(v, 8)}},
		{rng(v, "-128", "-33"), beBytes(0xd0, twos(v, 8), 1)},
		{rng(v, "-32768", "-129"), beBytes(0xd1, twos(v, 16), 2)},
		{rng(v, "-0x80000000", "-32769"), beBytes(0xd2, twos(v, 32), 4)},
		{rng(v, "-0x8000000000000000", "-0x80000001"), beBytes(0xd3, twos(v, 64), 8)},
	}
}

func specStr(n *Term) []wireCase {
	return []wireCase{
		{rng(n, "0", "31"), []*Term{AddC(n, 0xa0)}},
		{rng(n, "32", "255"), beBytes(0xd9, n, 1)},
		{rng(n, "256", "65535"), beBytes(0xda, n, 2)},
		{rng(n, "65536", "0xffffffff"), beBytes(0xdb, n, 4)},
	}
}

func specBin(n *Term) []wireCase {
	return []wireCase{
		{rng(n, "0", "255"), beBytes(0xc4, n, 1)},
		{rng(n, "256", "65535"), beBytes(0xc5, n, 2)},
		{rng(n, "65536", "0xffffffff"), beBytes(0xc6, n, 4)},
	}
}

func specList(n *Term) []wireCase {
	return []wireCase{
		{rng(n, "0", "15"), []*Term{AddC(n, 0x90)}},
		{rng(n, "16", "65535"), beBytes(0xdc, n, 2)},
		{rng(n, "65536", "0xffffffff"), beBytes(0xdd, n, 4)},
	}
}

func specMap(n *Term) []wireCase {
	return []wireCase{
		{rng(n, "0", "15"), []*Term{AddC(n, 0x80)}},
		{rng(n, "16", "65535"), beBytes(0xde, n, 2)},
		{rng(n, "65536", "0xffffffff"), beBytes(0xdf, n, 4)},
	}
}

func specExt(n, tag *Term) []wireCase {
	ex := func(bs []*Term) []*Term { return append(bs, tag) }
	cs := []wireCase{}
	var not []*Term
	for i, k := range []int64{1, 2, 4, 8, 16} {
		cs = append(cs, wireCase{EqI(n, IntC(k)), ex([]*Term{IntC(0xd4 + int64(i))})})
		not = append(not, Not(EqI(n, IntC(k))))
	}
	o := And(not...)
	return append(cs,
		wireCase{And(o, rng(n, "0", "255")), ex(beBytes(0xc7, n, 1))},
		wireCase{rng(n, "256", "65535"), ex(beBytes(0xc8, n, 2))},
		wireCase{rng(n, "65536", "0xffffffff"), ex(beBytes(0xc9, n, 4))})
}

func f64bits(x *Term) *Term {
	return App(SInt, "f64bits", types.Typ[types.Uint64], x)
}

// pickCase splits on the cases of a specification.
func (r *Run) pickCase(cs []wireCase) []*Term {
	c := cs[r.choose(len(cs))]
	r.assume(c.cond)
	return c.bytes
}

// checkOutput: the output is exactly head followed by payload.
func (r *Run) checkOutput(out ESeq, head []*Term, payload ESeq, what string) {
	n := IntC(int64(len(head)))
	if payload.n != nil {
		n = Add(n, payload.n)
	}
	r.e.obligations++
	if !r.Decide(EqI(out.n, n)) {
		r.violation("%s: %s bytes written, the specification wants %s", what, out.n, n)
	}
	k := r.choose(len(head) + 1)
	if k < len(head) {
		r.same(out.at(r, IntC(int64(k))), head[k], fmt.Sprintf("%s: byte %d", what, k))
		return
	}
	if payload.n == nil {
		return
	}
	i := r.index("k", payload.n)
	r.same(out.at(r, Add(IntC(int64(len(head))), i)), payload.at(r, i), what+": payload byte")
}

var maxLen32 = new(big.Int).Sub(pow2(32), bigOne)

// token is one kind of wire token with a symbolic value.
type wireToken struct {
	name   string
	format string
	parse  string
	// write packs the token and returns what the specification wants
	write func(r *Run, p Val) (spec []wireCase, payload ESeq, want []Val, hdrPayload bool)
}

func (r *Run) inLen(name string) *Term {
	n := r.inInt(name)
	r.assume(rng(n, "0", "0xffffffff"))
	return n
}

func wireTokens() []wireToken {
	return []wireToken{
		{"PackNil", "NilToken", "", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			r.m1(p, "PackNil")
			return []wireCase{{True, []*Term{IntC(0xc0)}}}, ESeq{}, nil, false
		}},
		{"PackBool", "BoolToken", "ParseBool", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			b := r.choose(2)
			r.m1(p, "PackBool", BoolC(b == 1))
			return []wireCase{{True, []*Term{IntC(0xc2 + int64(b))}}}, ESeq{}, []Val{BoolC(b == 1)}, false
		}},
		{"PackLong", "LongToken", "ParseLong", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			v := Sym(SInt, "v", types.Typ[types.Int64])
			r.m1(p, "PackLong", v)
			return specLong(v), ESeq{}, []Val{v}, false
		}},
		{"PackDouble", "DoubleToken", "ParseDouble", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			v := Sym(SFloat, "v", types.Typ[types.Float64])
			r.m1(p, "PackDouble", v)
			return []wireCase{{True, beBytes(0xcb, f64bits(v), 8)}}, ESeq{}, []Val{v}, false
		}},
		{"PackStr", "StrHeader", "ParseStr", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			s := Sym(SStr, "s", types.Typ[types.String])
			n := strLen(s)
			r.assume(Le(n, IntB(maxLen32)))
			pay := r.seqOf(r.bytesOf(s, bytesT))
			r.m1(p, "PackStr", s)
			return specStr(n), pay, []Val{n}, false
		}},
		{"PackBin", "BinHeader", "ParseBin", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			s := r.inSlice("data", byteT)
			r.assume(Le(s.len, IntB(maxLen32)))
			pay := r.seqOf(s)
			r.m1(p, "PackBin", s)
			return specBin(s.len), pay, []Val{s.len}, false
		}},
		{"PackExt", "ExtHeader", "ParseExt", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			s := r.inSlice("data", byteT)
			r.assume(Le(s.len, IntB(maxLen32)))
			tag := Sym(SInt, "tag", r.T("Ext"))
			pay := r.seqOf(s)
			r.m1(p, "PackExt", tag, s)
			return specExt(s.len, tag), pay, []Val{s.len, tag}, true
		}},
		{"PackList", "ListHeader", "ParseList", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			n := r.inLen("n")
			r.m1(p, "PackList", n)
			return specList(n), ESeq{}, []Val{n}, false
		}},
		{"PackMap", "MapHeader", "ParseMap", func(r *Run, p Val) ([]wireCase, ESeq, []Val, bool) {
			n := r.inLen("n")
			r.m1(p, "PackMap", n)
			return specMap(n), ESeq{}, []Val{n}, false
		}},
	}
}

// C10: bytes written are the specification's.
func checkC10(c *Check) {
	for _, t := range wireTokens() {
		t := t
		c.obl("Packer."+t.name, func(r *Run) {
			w, buf := r.buffer()
			p := r.packerOn(w)
			spec, pay, _, _ := t.write(r, p)
			head := r.pickCase(spec)
			r.checkOutput(r.output(buf), head, pay, t.name)
			r.must(r.isNil(r.m1(p, "Error")), "%s: the packer reports an error", t.name)
		})
	}
	c.obl("Packer.PackRaw", func(r *Run) {
		w, buf := r.buffer()
		p := r.packerOn(w)
		s := r.inSlice("data", byteT)
		pay := r.seqOf(s)
		r.m1(p, "PackRaw", s)
		r.checkOutput(r.output(buf), nil, pay, "PackRaw")
		r.must(r.isNil(r.m1(p, "Error")), "PackRaw: the packer reports an error")
	})
}

// decoders under test: the slice unpacker with either copy flag and the
// stream reader, byte readers or not.
func (r *Run) unpackerOn(in *SliceV) (Val, string) {
	switch r.choose(3) {
	case 0:
		return r.call("MessageUnpacker", in, False), "MessageUnpacker"
	case 1:
		return r.call("MessageUnpacker", in, True), "MessageUnpacker(copy)"
	default:
		s := r.stream("stream", in)
		return r.call("MessageReader", s.term), "MessageReader"
	}
}

// next reads one token header.
func (r *Run) nextToken(u Val) (*Term, *SliceV) {
	res := r.method(u, "Next")
	if len(res) != 2 {
		r.violation("Next returns %d results", len(res))
	}
	f := r.intVal(res[0])
	h, ok := r.pick(res[1]).(*SliceV)
	if !ok {
		r.violation("Next returns header %s", show(res[1]))
	}
	return f, h
}

// readN reads n payload bytes and checks them.
func (r *Run) readPayload(u Val, want ESeq, what string) {
	res := r.method(u, "Read", want.n)
	if !r.Decide(r.isNil(res[1])) {
		r.violation("%s: payload of %s bytes is not read although it is present", what, want.n)
	}
	r.checkSeq(res[0], want, what+": payload")
}

// C08 and C09: what the packer wrote is read back.
func roundTrip(c *Check, only func(name string) bool) {
	for _, t := range wireTokens() {
		if !only(t.name) {
			continue
		}
		t := t
		c.obl("roundtrip."+t.name, func(r *Run) {
			w, buf := r.buffer()
			p := r.packerOn(w)
			spec, pay, want, hdrPayload := t.write(r, p)
			_ = r.pickCase(spec) // split the value range
			out, ok := r.load(buf).(*SinkV)
			if !ok {
				r.stuck("output buffer")
			}
			segs, n := r.sinkSegs(out)
			rest := r.inSlice("rest", byteT)
			in := r.inputSegs(segs, n, rest)
			u, who := r.unpackerOn(in)
			what := t.name + " read by " + who
			f, h := r.nextToken(u)
			format := t.format
			if hdrPayload {
				for _, k := range []int64{1, 2, 4, 8, 16} {
					if r.entails(EqI(pay.n, IntC(k))) {
						format = "FixExtToken"
					}
				}
			}
			r.same(f, r.cons(format), what+": format")
			ps := r.call("MessageParser")
			if t.parse != "" {
				res := r.method(ps, t.parse, h)
				r.same(res[0], want[0], what+": decoded value")
				r.must(r.isNil(r.m1(ps, "Error")), "%s: the parser reports an error", what)
				if hdrPayload {
					full := ESeq{AddC(pay.n, 1), func(r *Run, k *Term) Val {
						if r.Decide(EqI(k, IntC(0))) {
							return want[1]
						}
						return pay.at(r, AddC(k, -1))
					}}
					if format == "FixExtToken" {
						r.checkSeq(res[1], full, what+": tag and data")
					} else {
						r.readPayload(u, full, what+": tag and data")
					}
					pay = ESeq{}
				}
			}
			if pay.n != nil {
				r.readPayload(u, pay, what)
			}
			// exactly the bytes written were consumed
			r.readPayload(u, r.seqOf(rest), what+": bytes after the token")
		})
	}
}

// ---- C11: lead bytes

type leadCase struct {
	lo, hi int64
	format string
	parse  string
	extra  int                                              // bytes after the lead byte in the header
	value  func(r *Run, lead *Term, in *SliceV) (Val, bool) // expected result; false: an error
}

func (r *Run) be(in *SliceV, from, n int64) *Term {
	v := IntC(0)
	for i := int64(0); i < n; i++ {
		b := r.intVal(r.readElem(in, IntC(from+i)))
		v = Add(v, scale(b, pow2(uint(8*(n-1-i)))))
	}
	return v
}

func leadCases() []leadCase {
	sub := func(k int64) func(r *Run, l *Term, in *SliceV) (Val, bool) {
		return func(r *Run, l *Term, in *SliceV) (Val, bool) { return AddC(l, -k), true }
	}
	konst := func(v Val) func(r *Run, l *Term, in *SliceV) (Val, bool) {
		return func(r *Run, l *Term, in *SliceV) (Val, bool) { return v, true }
	}
	uns := func(n int64) func(r *Run, l *Term, in *SliceV) (Val, bool) {
		return func(r *Run, l *Term, in *SliceV) (Val, bool) {
			v := r.be(in, 1, n)
			return v, n < 8 || r.Decide(Lt(v, IntB(pow2(63))))
		}
	}
	sig := func(n int64) func(r *Run, l *Term, in *SliceV) (Val, bool) {
		return func(r *Run, l *Term, in *SliceV) (Val, bool) {
			v := r.be(in, 1, n)
			if r.Decide(Ge(v, IntB(pow2(uint(8*n-1))))) {
				v = Sub(v, IntB(pow2(uint(8*n))))
			}
			return v, true
		}
	}
	cs := []leadCase{
		{0x00, 0x7f, "LongToken", "ParseLong", 0, sub(0)},
		{0x80, 0x8f, "MapHeader", "ParseMap", 0, sub(0x80)},
		{0x90, 0x9f, "ListHeader", "ParseList", 0, sub(0x90)},
		{0xa0, 0xbf, "StrHeader", "ParseStr", 0, sub(0xa0)},
		{0xe0, 0xff, "LongToken", "ParseLong", 0, sub(256)},
		{0xc0, 0xc0, "NilToken", "", 0, nil},
		{0xc2, 0xc2, "BoolToken", "ParseBool", 0, konst(False)},
		{0xc3, 0xc3, "BoolToken", "ParseBool", 0, konst(True)},
		{0xca, 0xca, "DoubleToken", "ParseDouble", 4, func(r *Run, l *Term, in *SliceV) (Val, bool) {
			return App(SFloat, "math.Float32frombits", types.Typ[types.Float32], r.be(in, 1, 4)), true
		}},
		{0xcb, 0xcb, "DoubleToken", "ParseDouble", 8, func(r *Run, l *Term, in *SliceV) (Val, bool) {
			return App(SFloat, "f64frombits", nil, r.be(in, 1, 8)), true
		}},
	}
	for i, n := range []int{1, 2, 4} {
		k := int64(i)
		cs = append(cs,
			leadCase{0xc4 + k, 0xc4 + k, "BinHeader", "ParseBin", n, uns(int64(n))},
			leadCase{0xc7 + k, 0xc7 + k, "ExtHeader", "ParseExt", n, uns(int64(n))},
			leadCase{0xd9 + k, 0xd9 + k, "StrHeader", "ParseStr", n, uns(int64(n))})
	}
	for i, n := range []int{2, 4} {
		k := int64(i)
		cs = append(cs,
			leadCase{0xdc + k, 0xdc + k, "ListHeader", "ParseList", n, uns(int64(n))},
			leadCase{0xde + k, 0xde + k, "MapHeader", "ParseMap", n, uns(int64(n))})
	}
	for i, n := range []int{1, 2, 4, 8} {
		k := int64(i)
		cs = append(cs,
			leadCase{0xcc + k, 0xcc + k, "LongToken", "ParseLong", n, uns(int64(n))},
			leadCase{0xd0 + k, 0xd0 + k, "LongToken", "ParseLong", n, sig(int64(n))})
	}
	for i, n := range []int{1, 2, 4, 8, 16} {
		k := int64(i)
		cs = append(cs, leadCase{0xd4 + k, 0xd4 + k, "FixExtToken", "ParseExt", n + 1, konst(IntC(int64(n)))})
	}
	return cs
}

// leadInput: an input whose first byte is in [lo,hi] followed by at least
// extra arbitrary bytes.
func (r *Run) leadInput(lo, hi int64, extra int) (*Term, *SliceV) {
	lead := IntC(lo)
	if hi > lo {
		lead = Sym(SInt, "lead", byteT)
		r.assume(Ge(lead, IntC(lo)))
		r.assume(Le(lead, IntC(hi)))
	}
	rest := r.inSlice("rest", byteT)
	r.assume(Ge(rest.len, IntC(int64(extra))))
	return lead, r.input([]*Term{lead}, rest)
}

func checkC11(c *Check) {
	for _, lc := range leadCases() {
		lc := lc
		c.obl(fmt.Sprintf("lead byte %#02x-%#02x", lc.lo, lc.hi), func(r *Run) {
			lead, in := r.leadInput(lc.lo, lc.hi, lc.extra)
			u, who := r.unpackerOn(in)
			f, h := r.nextToken(u)
			r.same(f, r.cons(lc.format), who+": format")
			seq := r.seqOf(in)
			r.checkSeq(h, ESeq{IntC(int64(1 + lc.extra)), seq.at}, who+": header")
			if lc.parse == "" {
				return
			}
			ps := r.call("MessageParser")
			res := r.method(ps, lc.parse, h)
			want, ok := lc.value(r, lead, in)
			e := r.isNil(r.m1(ps, "Error"))
			if !ok {
				r.must(Not(e), "%s accepts an integer above the int64 range", lc.parse)
				return
			}
			r.must(e, "%s reports an error for its header", lc.parse)
			r.same(res[0], want, lc.parse+": value")
			if lc.format == "FixExtToken" {
				r.checkSeq(res[1], ESeq{IntC(int64(lc.extra)), func(r *Run, k *Term) Val { return seq.at(r, AddC(k, 1)) }}, "ParseExt: tag and data")
			}
		})
	}
	c.obl("lead byte 0xc1", func(r *Run) {
		_, in := r.leadInput(0xc1, 0xc1, 0)
		v, err, who := r.decode(in)
		r.mustFail(v, err, who, "the reserved byte 0xc1")
	})
}

// decode runs one of the three decoding entry points on the input.
func (r *Run) decode(in *SliceV) (Val, Val, string) {
	var v Val
	var who string
	switch r.choose(3) {
	case 0:
		who = "Unpack"
		v = r.call("Unpack", in, r.freshBool("copy"))
	case 1:
		who = "Read"
		v = r.call("Read", r.stream("stream", in).term)
	default:
		who = "Parse"
		u := r.iface(r.call("MessageUnpacker", in, r.freshBool("copy")))
		v = r.call("Parse", u, r.iface(r.call("MessageParser")))
	}
	t := v.(*TupleV)
	return t.vs[0], t.vs[1], who
}

func (r *Run) mustFail(v, err Val, who string, what string) {
	r.must(Not(r.isNil(err)), "%s: %s is accepted", who, what)
}

func checkC08(c *Check) {
	roundTrip(c, func(n string) bool { return n == "PackLong" })
	c.obl("unsigned overflow", func(r *Run) {
		_, in := r.leadInput(0xcf, 0xcf, 8)
		r.assume(Ge(r.be(in, 1, 8), IntB(pow2(63))))
		v, err, who := r.decode(in)
		r.mustFail(v, err, who, "an integer above the int64 range")
	})
	c.obl("value", func(r *Run) {
		x := Sym(SInt, "v", types.Typ[types.Int64])
		w, buf := r.buffer()
		p := r.iface(r.packerOn(w))
		num := r.call("Long", x)
		r.m1(num, "Pack", p)
		out, ok := r.load(buf).(*SinkV)
		if !ok {
			r.stuck("output buffer")
		}
		segs, n := r.sinkSegs(out)
		in := r.inputSegs(segs, n, r.inSlice("rest", byteT))
		v, err, who := r.decode(in)
		r.must(r.isNil(err), "%s: a packed long is not decoded", who)
		num2, ok := r.pick(v).(*IfaceV)
		if !ok {
			r.violation("%s: decoded %s", who, show(v))
		}
		r.same(r.m1(num2, "Type"), r.cons("LONG"), who+": number type")
		r.same(r.m1(num2, "Long"), x, who+": decoded integer")
	})
}
