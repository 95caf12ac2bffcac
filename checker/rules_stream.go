package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- streams of values, sealing, hashing, failing writers

// anyWriter is a writer nothing is known about: each write may fail.
func (r *Run) anyWriter() *Term {
	t := Sym(SOpaque, "writer", r.e.stdType("io", "Writer"))
	t.non = true
	return t
}

// param is an arbitrary non-nil argument for parameter i of an exported function.
func (r *Run) param(fn string, i int, name string) *Term {
	f := r.e.pkg.Func(fn)
	if f == nil {
		r.violation("exported function %s is missing", fn)
	}
	if i >= f.Signature.Params().Len() {
		r.stuck("%s has no parameter %d", fn, i)
	}
	t := Sym(SOpaque, name, f.Signature.Params().At(i).Type())
	t.non = true
	return t
}

// packed is a piece of output: a packed value, or bytes.
type packed struct {
	val   Val
	bytes *SeqV
}

func (p packed) String() string {
	if p.val != nil {
		return "packed " + show(p.val)
	}
	return show(p.bytes)
}

// packedOf: the pieces a byte sequence consists of.
func (r *Run) packedOf(q *SeqV) []packed {
	if len(q.segs) == 1 && q.segs[0].kv != nil {
		if b, ok := q.segs[0].body.(*Term); ok && b.op == "elem" && b.args[1] == Val(q.segs[0].kv) {
			if x, ok := b.args[0].(*Term); ok && x.op == "sinkbytes" && r.st.f.entails(EqI(q.n, AppR("len", bigZero, nil, x))) {
				var out []packed
				for _, e := range x.args[0].(*SinkV).evs {
					switch e.op {
					case "pack":
						out = append(out, packed{val: e.args[0]})
					case "b":
						out = append(out, packed{bytes: e.args[0].(*SeqV)})
					default:
						r.stuck("output %s", e)
					}
				}
				return out
			}
		}
	}
	return []packed{{bytes: q}}
}

// joinSeqs: the sequences one after another, with neighbouring parts of the
// same sequence made one.
func (r *Run) joinSeqs(qs []*SeqV) *SeqV {
	var out *SeqV
	for _, q := range qs {
		if out == nil {
			out = q
			continue
		}
		if r.st.f.entails(EqI(q.n, IntC(0))) {
			continue
		}
		if r.st.f.entails(EqI(out.n, IntC(0))) {
			out = q
			continue
		}
		segs := append([]Seg{}, out.segs...)
		for _, g := range shiftSegs(q.segs, out.n) {
			l := &segs[len(segs)-1]
			if l.kv != nil && g.kv != nil && subst(g.body, g.kv, l.kv).key() == l.body.key() && r.st.f.entails(EqI(l.hi, g.lo)) {
				l.hi = g.hi
				continue
			}
			segs = append(segs, g)
		}
		out = &SeqV{out.elem, Add(out.n, q.n), segs}
	}
	return out
}

// outputs: what the events write to w, with the error of each write.
type output struct {
	packed
	err Val
	at  int
}

func (r *Run) outputOf(w Val, e Event) ([]packed, Val, bool) {
	switch e.op {
	case "PackTo":
		if e.args[0].key() != w.key() {
			r.stuck("a packer on %s", show(e.args[0]))
		}
		return []packed{{val: e.args[1]}}, e.args[2], true
	case "Write":
		if e.args[0].key() != w.key() {
			return nil, nil, false
		}
		q, ok := e.args[1].(*SeqV)
		if !ok {
			r.stuck("output %s", show(e.args[1]))
		}
		return r.packedOf(q), e.args[2], true
	}
	return nil, nil, false
}

// isPacked: the pieces are exactly the packed form of v (nil: the nil token).
func (r *Run) isPacked(ps []packed, v Val, what string) {
	r.e.obligations++
	if len(ps) != 1 {
		r.violation("%s: writes %v", what, ps)
	}
	p := ps[0]
	if p.val != nil {
		r.same(p.val, v, what+": packed value")
		return
	}
	if !r.Decide(r.isNil(v)) {
		r.violation("%s: writes %v for a value that is not nil", what, p)
	}
	r.must(EqI(p.bytes.n, IntC(1)), "%s: writes %v for nil", what, p)
	r.same(r.segRead(p.bytes.segs, IntC(0)), IntC(0xc0), what+": byte written for nil")
}

// ---- C33

const (
	stRead = iota
	stHave
	stFailed
	stClosed
)

// readTrace follows the decodes, sends and the close of a run.
func (r *Run) readTrace(evs []Event, ch Val, st int, cur Val) (int, Val, Val) {
	var failed Val
	for _, e := range evs {
		switch e.op {
		case "decode":
			r.e.obligations++
			if st != stRead {
				r.violation("ReadStream: decodes another value %s", [...]string{"", "before the previous one is sent", "after an error", "after the channel is closed"}[st])
			}
			if r.Decide(r.isNil(e.res[1])) {
				st, cur = stHave, e.res[0]
			} else {
				st, failed = stFailed, e.res[1]
			}
		case "send":
			r.e.obligations++
			if e.args[0].key() != ch.key() {
				r.stuck("send on %s", show(e.args[0]))
			}
			if st != stHave {
				r.violation("ReadStream: sends %s", [...]string{"a value twice or one that was not decoded", "", "after an error", "after the channel is closed"}[st])
			}
			r.same(e.args[1], cur, "ReadStream: value sent")
			st = stRead
		case "close":
			r.e.obligations++
			if e.args[0].key() != ch.key() {
				r.stuck("close of %s", show(e.args[0]))
			}
			if st == stClosed {
				r.violation("ReadStream: closes its channel twice")
			}
			if st == stHave {
				r.violation("ReadStream: closes its channel before a decoded value is sent")
			}
			st = stClosed
		case "recv", "loop":
			r.stuck("%s in ReadStream", e.op)
		}
	}
	return st, cur, failed
}

func checkC33(c *Check) {
	c.rule("ReadStream: on every path decode, send of that value, decode, ...; the first failing decode is followed by exactly one close and its error is returned")
	c.rule("WriteStream: every received value is packed once, in order; after the channel ends nil is returned, after a failed write nothing more is received and its error is returned")
	c.noPanic = false
	read := func(r *Run) (Val, Val) {
		r.e.contracts()
		ch := r.param("ReadStream", 1, "out")
		return r.call("ReadStream", r.anyReader(), ch), ch
	}
	c.obl("ReadStream: up to three values", func(r *Run) {
		r.e.unrollAll = true
		err, ch := read(r)
		st, _, failed := r.readTrace(r.st.evs, ch, stRead, nil)
		r.e.obligations++
		if st != stClosed {
			r.violation("ReadStream: returns without closing its channel")
		}
		if failed == nil {
			r.violation("ReadStream: returns although no decode failed")
		}
		r.same(err, failed, "ReadStream: error returned")
	})
	c.obl("ReadStream: any number of values", func(r *Run) {
		_, ch := read(r)
		for _, e := range r.st.evs {
			if e.loop == nil {
				continue
			}
			r.eachAlt(e, func(evs []Event) bool { return len(evs) > 0 && evs[0].op == "decode" }, func(evs []Event) {
				if st, _, _ := r.readTrace(evs, ch, stRead, nil); st != stRead {
					r.violation("ReadStream: goes on to the next value although the last one %s", [...]string{"", "was not sent", "failed", "was followed by a close"}[st])
				}
			})
		}
	})
	write := func(r *Run) (Val, Val, Val) {
		r.e.packFails = true
		ch, w := r.param("WriteStream", 1, "in"), r.anyWriter()
		return r.call("WriteStream", w, ch), ch, w
	}
	c.obl("WriteStream: up to three values", func(r *Run) {
		r.e.unrollAll = true
		err, ch, w := write(r)
		pending, ended, failed, _ := r.writeTrace(r.st.evs, ch, w)
		r.e.obligations++
		if failed != nil {
			r.same(err, failed, "WriteStream: error returned")
			return
		}
		if pending {
			r.violation("WriteStream: returns before a received value is written")
		}
		if !ended {
			r.violation("WriteStream: returns before the channel ends although no write failed")
		}
		r.must(r.isNil(err), "WriteStream: an error although no write failed")
	})
	c.obl("WriteStream: any number of values", func(r *Run) {
		_, ch, w := write(r)
		for _, e := range r.st.evs {
			if e.loop == nil {
				continue
			}
			r.eachAlt(e, func(evs []Event) bool { return len(evs) > 0 && evs[0].op == "recv" }, func(evs []Event) {
				if pending, ended, failed, _ := r.writeTrace(evs, ch, w); failed == nil && (pending || ended) {
					r.violation("WriteStream: goes on although the last value %s", map[bool]string{true: "was not written", false: "was received"}[pending])
				}
			})
		}
	})
	writeErrors(c)
}

// eachAlt judges one iteration of a loop of events, if every iteration begins
// in the expected way; loops shaped differently are covered by the bounded
// analysis only.
func (r *Run) eachAlt(e Event, ok func(evs []Event) bool, f func(evs []Event)) {
	l := e.loop
	if !r.Decide(Lt(l.from, l.n)) {
		return
	}
	for _, a := range l.alts {
		if !ok(a.evs) {
			return
		}
	}
	j := r.freshInt("it", nil)
	r.assume(Ge(j, l.from))
	r.assume(Lt(j, l.n))
	if len(l.alts) == 0 {
		return
	}
	alt := l.alts[r.choose(len(l.alts))]
	for _, c := range alt.conds {
		r.assume(substT(c, l.j, j))
	}
	s := &substituter{x: l.j, by: j, memo: map[*Term]*Term{}}
	var body []Event
	for _, x := range alt.evs {
		body = append(body, s.event(x))
	}
	f(body)
}

// writeTrace follows what is received and written.
func (r *Run) writeTrace(evs []Event, ch, w Val) (pending, ended bool, failed Val, cur Val) {
	for _, e := range evs {
		if e.op == "recv" {
			r.e.obligations++
			if e.args[0].key() != ch.key() {
				r.stuck("receive from %s", show(e.args[0]))
			}
			switch {
			case failed != nil:
				r.violation("WriteStream: receives another value after a write failed")
			case pending:
				r.violation("WriteStream: receives another value before the previous one is written")
			case ended:
				r.violation("WriteStream: receives again after the channel ended")
			}
			if len(e.args) > 2 && !r.Decide(e.args[2].(*Term)) {
				ended = true
				continue
			}
			pending, cur = true, e.args[1]
			continue
		}
		if e.op == "loop" || e.op == "send" {
			r.stuck("%s in WriteStream", e.op)
		}
		ps, err, ok := r.outputOf(w, e)
		if !ok {
			continue
		}
		r.e.obligations++
		if failed != nil {
			r.violation("WriteStream: writes on after a write failed")
		}
		if !pending {
			r.violation("WriteStream: writes %v although no value is due", ps)
		}
		r.isPacked(ps, cur, "WriteStream")
		pending = false
		if !r.Decide(r.isNil(err)) {
			failed = err
		}
	}
	return
}

// writeErrors: Write packs its value once and returns the error of the write.
func writeErrors(c *Check) {
	c.obl("Write", func(r *Run) {
		r.e.packFails = true
		w, v := r.anyWriter(), r.in("val", r.T("Value"))
		err := r.call("Write", w, v)
		var errs []Val
		for _, e := range r.st.evs {
			ps, err, ok := r.outputOf(w, e)
			if !ok {
				continue
			}
			r.isPacked(ps, v, "Write")
			errs = append(errs, err)
		}
		r.e.obligations++
		if len(errs) != 1 {
			r.violation("Write: writes its value %d times", len(errs))
		}
		r.same(err, errs[0], "Write: error returned")
	})
}

// ---- C18

func checkC18(c *Check) {
	c.rule("every packer method on a writer that may fail at any write: no write follows a failed one, and Error returns the error of the failed write")
	c.noPanic = false
	type op struct {
		name string
		args func(r *Run, tag string) []Val
	}
	ops := []op{
		{"PackNil", func(r *Run, t string) []Val { return nil }},
		{"PackBool", func(r *Run, t string) []Val { return []Val{r.freshBool("b" + t)} }},
		{"PackLong", func(r *Run, t string) []Val { return []Val{Sym(SInt, "i"+t, types.Typ[types.Int64])} }},
		{"PackDouble", func(r *Run, t string) []Val { return []Val{Sym(SFloat, "d"+t, types.Typ[types.Float64])} }},
		{"PackStr", func(r *Run, t string) []Val { return []Val{Sym(SStr, "s"+t, types.Typ[types.String])} }},
		{"PackBin", func(r *Run, t string) []Val { return []Val{r.inSlice("bin"+t, byteT)} }},
		{"PackExt", func(r *Run, t string) []Val {
			return []Val{Sym(SInt, "tag"+t, r.T("Ext")), r.inSlice("ext"+t, byteT)}
		}},
		{"PackList", func(r *Run, t string) []Val { return []Val{r.inInt("n" + t)} }},
		{"PackMap", func(r *Run, t string) []Val { return []Val{r.inInt("n" + t)} }},
		{"PackRaw", func(r *Run, t string) []Val { return []Val{r.inSlice("raw"+t, byteT)} }},
	}
	// one writer failure at most; Error reports it, and nothing follows it
	verify := func(r *Run, p Val, w Val, what string) {
		var failed Val
		for _, e := range r.st.evs {
			switch e.op {
			case "loop":
				r.stuck("a loop of writes")
			case "Write", "PackTo":
			default:
				continue
			}
			if e.args[0].key() != w.key() {
				continue
			}
			r.e.obligations++
			if failed != nil {
				r.violation("%s: writes on after a write failed", what)
			}
			if err := e.args[2]; !r.Decide(r.isNil(err)) {
				failed = err
			}
		}
		err := r.m1(p, "Error")
		if failed == nil {
			r.must(r.isNil(err), "%s: an error although no write failed", what)
			return
		}
		r.same(err, failed, what+": Error after a failed write")
	}
	for _, a := range ops {
		for _, b := range ops {
			a, b := a, b
			c.obl(a.name+", "+b.name, func(r *Run) {
				w := r.anyWriter()
				p := r.iface(r.packerOn(w))
				r.m1(p, a.name, a.args(r, "1")...)
				verify(r, p, w, a.name)
				r.m1(p, b.name, b.args(r, "2")...)
				verify(r, p, w, a.name+" and "+b.name)
			})
		}
	}
	for _, s := range scalarRigs() {
		s := s
		c.obl(s.name+".Pack", func(r *Run) {
			v, _ := s.mk(r)
			w := r.anyWriter()
			p := r.iface(r.packerOn(w))
			r.m1(v, "Pack", p)
			verify(r, p, w, s.name+".Pack")
		})
	}
	writeErrors(c)
	c.obl("WriteStream", func(r *Run) {
		r.e.packFails = true
		r.e.unrollAll = true
		ch, w := r.param("WriteStream", 1, "in"), r.anyWriter()
		err := r.call("WriteStream", w, ch)
		var failed Val
		for _, e := range r.st.evs {
			_, err, ok := r.outputOf(w, e)
			if !ok {
				continue
			}
			r.e.obligations++
			if failed != nil {
				r.violation("WriteStream: writes on after a write failed")
			}
			if !r.Decide(r.isNil(err)) {
				failed = err
			}
		}
		if failed != nil {
			r.same(err, failed, "WriteStream: error returned")
		}
	})
}

// ---- C34

func checkC34(c *Check) {
	c.rule("Seal: the nonce handed to box.Seal and the first 24 bytes of the message are the bytes one full read of crypto/rand.Reader delivered in this call; what is sealed is the packed value; every failure is returned")
	c.rule("Unseal: nonce and ciphertext are the first 24 bytes and the rest of the message; a value is returned only if box.Open succeeded, and it is decoded from exactly what was opened")
	c.noPanic = false
	c.obl("Seal", func(r *Run) {
		r.e.packFails = true
		k1, k2, v := r.param("Seal", 1, "recipient"), r.param("Seal", 2, "sender"), r.in("val", r.T("Value"))
		t := r.call("Seal", v, k1, k2).(*TupleV)
		res, err := r.pick(t.vs[0]), r.pick(t.vs[1])
		random := r.globalVal("crypto/rand", "Reader")
		var seal *Event
		for i := range r.st.evs {
			e := &r.st.evs[i]
			switch e.op {
			case "io.ReadFull", "Read":
				r.e.obligations++
				if e.args[0].key() == random.key() && len(e.res) > 1 && !r.Decide(r.isNil(e.res[1])) {
					r.must(Not(r.isNil(err)), "Seal: succeeds although the random source failed")
					return
				}
			case "box.Seal":
				r.e.obligations++
				if seal != nil {
					r.violation("Seal: seals twice")
				}
				seal = e
			}
		}
		if !r.Decide(r.isNil(err)) {
			return
		}
		r.e.obligations++
		if seal == nil {
			r.violation("Seal: succeeds without sealing anything")
		}
		msg, ok1 := seal.args[1].(*SeqV)
		nonce, ok2 := seal.args[2].(*SeqV)
		if !ok1 || !ok2 {
			r.stuck("arguments of box.Seal")
		}
		ps := r.packedOf(msg)
		r.isPacked(ps, v, "Seal: the sealed message")
		if packErr := r.packError(); packErr != nil && len(ps) > 0 {
			r.must(r.isNil(packErr), "Seal: succeeds although packing failed")
		}
		r.same(seal.args[3], k1, "Seal: recipient's key")
		r.same(seal.args[4], k2, "Seal: sender's key")
		// nonce byte k is byte k of one full random read of this call
		k := r.index("k", IntC(24))
		b, ok := r.segRead(nonce.segs, k).(*Term)
		if !ok || b.op != "elem" || !r.Decide(EqI(b.args[1].(*Term), k)) {
			r.violation("Seal: byte %s of the nonce is %s", k, show(r.segRead(nonce.segs, k)))
		}
		fresh := false
		for _, e := range r.st.evs {
			if len(e.res) < 2 || e.args[0].key() != random.key() || e.res[0].key() != b.args[0].key() {
				continue
			}
			if e.op == "io.ReadFull" || e.op == "Read" && r.entails(EqI(e.res[2].(*Term), IntC(24))) {
				fresh = true
			}
		}
		if !fresh {
			r.violation("Seal: the nonce is not read in full from crypto/rand.Reader in this call")
		}
		sealed := r.boxTerm(*seal)
		n := AppR("len", bigZero, nil, sealed)
		r.checkSeq(res, ESeq{AddC(n, 24), func(r *Run, k *Term) Val {
			if r.Decide(Lt(k, IntC(24))) {
				return r.segRead(nonce.segs, k)
			}
			return elemOf(sealed, sealed.typ.Underlying().(*types.Slice).Elem(), AddC(k, -24))
		}}, "Seal: message")
	})
	c.obl("Unseal", func(r *Run) {
		in := r.in("encrypted", bytesT).(*SliceV)
		q := r.seqOf(in)
		k1, k2 := r.param("Unseal", 1, "sender"), r.param("Unseal", 2, "recipient")
		r.e.contracts()
		hook := r.e.hook
		r.e.hook = func(r *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
			if len(r.stack) > 0 && r.e.isDecode(fn) && r.countEv("decode") == 0 {
				r.decodesOpened(fn, args)
			}
			return hook(r, fn, args)
		}
		t := r.call("Unseal", in, k1, k2).(*TupleV)
		res, err := r.pick(t.vs[0]), r.pick(t.vs[1])
		var open *Event
		var dec *Event
		for i := range r.st.evs {
			e := &r.st.evs[i]
			switch e.op {
			case "box.Open":
				r.e.obligations++
				if open != nil {
					r.violation("Unseal: opens twice")
				}
				open = e
			case "decode":
				dec = e
			}
		}
		r.e.obligations++
		if open == nil {
			if !r.Decide(Lt(in.len, IntC(24))) {
				r.violation("Unseal: does not open a message of at least 24 bytes")
			}
			r.must(Not(r.isNil(err)), "Unseal: accepts a message that was not opened")
			return
		}
		if r.Decide(Lt(in.len, IntC(24))) {
			r.must(Not(r.isNil(err)), "Unseal: accepts a message shorter than a nonce")
			return
		}
		cipher, ok1 := open.args[1].(*SeqV)
		nonce, ok2 := open.args[2].(*SeqV)
		if !ok1 || !ok2 {
			r.stuck("arguments of box.Open")
		}
		r.same(nonce.n, IntC(24), "Unseal: length of the nonce")
		r.must(EqI(cipher.n, AddC(in.len, -24)), "Unseal: opens %s of the %s bytes behind the nonce", cipher.n, AddC(in.len, -24))
		k := r.index("k", IntC(24))
		r.same(r.segRead(nonce.segs, k), q.at(r, k), "Unseal: byte of the nonce")
		if r.Decide(Gt(cipher.n, IntC(0))) {
			k = r.index("k2", cipher.n)
			r.same(r.segRead(cipher.segs, k), q.at(r, AddC(k, 24)), "Unseal: byte of the ciphertext")
		}
		r.same(open.args[3], k1, "Unseal: sender's key")
		r.same(open.args[4], k2, "Unseal: recipient's key")
		okT := App(SBool, "box.Open.ok", nil, open.args[1:]...)
		if !r.Decide(okT) {
			r.must(Not(r.isNil(err)), "Unseal: accepts a message that is not authentic")
			r.must(r.isNil(res), "Unseal: returns a value for a message that is not authentic")
			return
		}
		r.e.obligations++
		if dec == nil {
			if r.Decide(r.isNil(err)) {
				r.violation("Unseal: succeeds without decoding what was opened")
			}
			r.violation("Unseal: rejects an authentic message")
		}
		if !r.Decide(r.isNil(dec.res[1])) {
			r.must(Not(r.isNil(err)), "Unseal: succeeds although decoding failed")
			return
		}
		r.must(r.isNil(err), "Unseal: rejects an authentic message")
		r.same(res, dec.res[0], "Unseal: value")
	})
}

// packError: the error with which packing ended, if it was noted.
func (r *Run) packError() Val {
	for _, e := range r.st.evs {
		if e.op == "packed" {
			return e.args[1]
		}
	}
	return nil
}

// boxTerm: the term for what box.Seal or box.Open produced.
func (r *Run) boxTerm(e Event) *Term {
	return e.res[0].(*Term)
}

// decodesOpened: the unpacker a decode step gets delivers exactly the bytes
// that were opened.
func (r *Run) decodesOpened(fn *ssa.Function, args []Val) {
	var open *Event
	for i := range r.st.evs {
		if r.st.evs[i].op == "box.Open" {
			open = &r.st.evs[i]
		}
	}
	r.e.obligations++
	if open == nil {
		r.violation("Unseal: decodes before anything was opened")
	}
	x := r.boxTerm(*open)
	n := AppR("len", bigZero, nil, x)
	for i, a := range args {
		if !types.Identical(fn.Signature.Params().At(i).Type(), r.e.typ("Unpacker")) {
			continue
		}
		iv, ok := r.pick(a).(*IfaceV)
		if !ok {
			r.stuck("unpacker %s", show(a))
		}
		saved := r.st.heap[iv.v.(*PtrV).obj]
		res := r.method(iv, "Read", n)
		r.must(r.isNil(res[1]), "Unseal: not everything that was opened is decoded")
		r.checkSeq(res[0], ESeq{n, func(r *Run, k *Term) Val { return elemOf(x, x.typ.Underlying().(*types.Slice).Elem(), k) }}, "Unseal: bytes decoded")
		f, _ := r.nextToken(iv)
		r.same(f, r.cons("EOF"), "Unseal: end of what is decoded")
		r.st.heap[iv.v.(*PtrV).obj] = saved
	}
}

// ---- C35

func checkC35(c *Check) {
	c.rule("Hash: the data returned is the packed value, the digest is Sum(nil) of a new hash of the requested algorithm that was written exactly that data, and a pack error is returned instead")
	c.noPanic = false
	c.obl("Hash", func(r *Run) {
		r.e.packFails = true
		f := r.e.pkg.Func("Hash")
		if f == nil {
			r.violation("exported function Hash is missing")
		}
		alg := Sym(SInt, "alg", f.Signature.Params().At(1).Type())
		v := r.in("val", r.T("Value"))
		t := r.call("Hash", v, alg).(*TupleV)
		if len(t.vs) != 3 {
			r.stuck("results of Hash")
		}
		data, digest, err := r.pick(t.vs[0]), r.pick(t.vs[1]), r.pick(t.vs[2])
		pe := r.packError()
		if pe != nil && !r.Decide(r.isNil(pe)) {
			r.same(err, pe, "Hash: error when packing fails")
			return
		}
		r.must(r.isNil(err), "Hash: an error although packing succeeded")
		q, ok := r.freezeArg(data).(*SeqV)
		if !ok {
			r.stuck("data %s", show(data))
		}
		r.isPacked(r.packedOf(q), v, "Hash: data")
		var h, sum Val
		var written []*SeqV
		for _, e := range r.st.evs {
			switch e.op {
			case "Write":
				r.e.obligations++
				if sum != nil {
					continue
				}
				if h != nil && h.key() != e.args[0].key() {
					r.stuck("two hashes")
				}
				h = e.args[0]
				x, ok := e.args[1].(*SeqV)
				if !ok {
					r.stuck("hash input %s", show(e.args[1]))
				}
				written = append(written, x)
			case "hash.Sum":
				r.e.obligations++
				if sum != nil {
					r.stuck("two sums")
				}
				if h != nil && h.key() != e.args[0].key() {
					r.violation("Hash: the digest is of another hash")
				}
				h = e.args[0]
				sum = e.res[0]
				p, ok := e.args[1].(*SeqV)
				if !ok || !r.Decide(Eq0(p.n)) {
					r.violation("Hash: the digest is appended to %s", show(e.args[1]))
				}
			case "hash.Reset":
				written = nil
			case "loop":
				r.stuck("a loop in Hash")
			}
		}
		r.e.obligations++
		if sum == nil {
			r.violation("Hash: no digest is computed")
		}
		ht, ok := h.(*Term)
		if !ok || len(ht.args) == 0 || ht.args[0].key() != alg.key() {
			r.violation("Hash: the digest is computed by %s", show(h))
		}
		var digested []packed
		if q := r.joinSeqs(written); q != nil {
			digested = r.packedOf(q)
		}
		r.isPacked(digested, v, "Hash: what is digested")
		d := sum.(*Term)
		el := d.typ.Underlying().(*types.Slice).Elem()
		r.checkSeq(digest, ESeq{AppR("len", bigZero, nil, d), func(r *Run, k *Term) Val { return elemOf(d, el, k) }}, "Hash: digest")
	})
}
