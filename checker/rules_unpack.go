package main

import "fmt"

// ---- what both unpackers must deliver, from every position

// unpackKind is one way to read an input.
type unpackKind struct {
	name   string
	stream bool
	copy   bool
}

var unpackKinds = []unpackKind{
	{"MessageUnpacker", false, false},
	{"MessageUnpacker(copy)", false, true},
	{"MessageReader", true, false},
}

// unpackEnv is an unpacker over an arbitrary input, at an arbitrary position.
type unpackEnv struct {
	k    unpackKind
	in   *SliceV
	s    *stream
	u    Val
	pos  *Term // bytes consumed so far
	fail Val
}

// newUnpack: an unpacker over in; a stream may end in a failure of its own.
func (r *Run) newUnpack(k unpackKind, in *SliceV) *unpackEnv {
	env := &unpackEnv{k: k, in: in, pos: IntC(0)}
	if !k.stream {
		if m := r.st.meta[in.obj]; m != nil {
			m2 := *m
			m2.origin = "the caller's input"
			r.st.meta[in.obj] = &m2
		}
		env.u = r.call("MessageUnpacker", in, BoolC(k.copy))
		return env
	}
	env.s = r.stream("stream", in)
	if r.choose(2) == 1 {
		env.s.fail = r.readerFailure()
		env.fail = env.s.fail
	}
	env.u = r.call("MessageReader", env.s.term)
	return env
}

// advance brings the unpacker to some position: fresh, after a token with or
// without header bytes, or after reading any number of bytes.
func (r *Run) advance(env *unpackEnv, how int) {
	switch how {
	case 1:
		n := r.inInt("skip")
		r.assume(Ge(n, IntC(0)))
		r.assume(Le(n, env.in.len))
		r.method(env.u, "Read", n)
		env.pos = n
	case 2, 3:
		lead, extra := int64(0x01), int64(0)
		if how == 3 {
			lead, extra = 0xd3, 8
		}
		r.assume(Ge(env.in.len, IntC(1+extra)))
		r.assume(EqI(r.intVal(r.readElem(env.in, IntC(0))), IntC(lead)))
		r.nextToken(env.u)
		env.pos = IntC(1 + extra)
	}
}

func (env *unpackEnv) left() *Term { return Sub(env.in.len, env.pos) }

// rest: the input from the current position on.
func (env *unpackEnv) rest(r *Run, n *Term) ESeq {
	q := r.seqOf(env.in)
	pos := env.pos
	return ESeq{n, func(r *Run, k *Term) Val { return q.at(r, Add(pos, k)) }}
}

// atEnd: nothing is left, and the unpacker says so.
func (r *Run) expectEnd(env *unpackEnv, what string) {
	f, _ := r.nextToken(env.u)
	r.same(f, r.cons("EOF"), what+": format at the end of the input")
}

// remainder: reading on yields exactly the bytes from the current position.
func (r *Run) expectRest(env *unpackEnv, what string) {
	n := env.left()
	res := r.method(env.u, "Read", n)
	r.must(r.isNil(res[1]), "%s: the bytes that follow cannot be read", what)
	r.checkSeq(res[0], env.rest(r, n), what+": bytes that follow")
}

// within: the position is still inside the input.
func (r *Run) within(env *unpackEnv, what string) {
	if env.k.stream {
		return
	}
	res := r.method(env.u, "Read", IntC(0))
	r.must(r.isNil(res[1]), "%s the position lies past the end of the input", what)
}

// unpackCases: the obligations of Next and Read.
func unpackCases(c *Check, kinds func(k unpackKind) bool) {
	for _, k := range unpackKinds {
		if !kinds(k) {
			continue
		}
		k := k
		for how := 0; how < 4; how++ {
			how := how
			at := [...]string{"at the start", "after reading", "after a token", "after a long token"}[how]
			c.obl(fmt.Sprintf("%s.Next %s: end of input", k.name, at), func(r *Run) {
				env := r.newUnpack(k, r.inSlice("input", byteT))
				r.advance(env, how)
				r.assume(EqI(env.left(), IntC(0)))
				r.expectEnd(env, k.name)
				r.expectEnd(env, k.name+" (again)")
			})
			c.obl(fmt.Sprintf("%s.Read %s", k.name, at), func(r *Run) {
				env := r.newUnpack(k, r.inSlice("input", byteT))
				r.advance(env, how)
				n := r.inInt("n")
				r.assume(Ge(n, IntC(0)))
				res := r.method(env.u, "Read", n)
				if !r.Decide(Le(n, env.left())) {
					r.must(Not(r.isNil(res[1])), "%s.Read: %s bytes are reported although only %s are left", k.name, n, env.left())
					if env.fail != nil {
						r.same(res[1], env.fail, k.name+".Read: error of a failing reader")
					}
					r.within(env, k.name+".Read: after a failure")
					return
				}
				r.must(r.isNil(res[1]), "%s.Read: bytes that are present are not delivered", k.name)
				r.checkSeq(res[0], env.rest(r, n), k.name+".Read")
				env.pos = Add(env.pos, n)
				r.expectRest(env, k.name+".Read")
			})
		}
		for _, lc := range leadCases() {
			lc := lc
			for how := 0; how < 2; how++ {
				how := how
				at := [...]string{"", " after reading"}[how]
				if lc.extra > 0 {
					c.obl(fmt.Sprintf("%s.Next%s: %#02x-%#02x cut short", k.name, at, lc.lo, lc.hi), func(r *Run) {
						env := r.newUnpack(k, r.inSlice("input", byteT))
						r.advance(env, how)
						r.assume(Ge(env.left(), IntC(1)))
						r.assume(Le(env.left(), IntC(int64(lc.extra))))
						r.leadAt(env, lc)
						f, _ := r.nextToken(env.u)
						r.same(f, r.cons("UnexpectedEOF"), k.name+": format of a token cut short")
						r.within(env, k.name+": after a token cut short")
					})
				}
				c.obl(fmt.Sprintf("%s.Next%s: %#02x-%#02x", k.name, at, lc.lo, lc.hi), func(r *Run) {
					env := r.newUnpack(k, r.inSlice("input", byteT))
					r.advance(env, how)
					n := IntC(int64(1 + lc.extra))
					r.assume(Ge(env.left(), n))
					r.leadAt(env, lc)
					f, h := r.nextToken(env.u)
					r.same(f, r.cons(lc.format), k.name+": format")
					r.checkSeq(h, env.rest(r, n), k.name+": header")
					env.pos = Add(env.pos, n)
					r.expectRest(env, k.name+".Next")
				})
			}
		}
	}
}

// leadAt: the next byte is one of the lead bytes of the case.
func (r *Run) leadAt(env *unpackEnv, lc leadCase) {
	b := r.intVal(r.readElem(env.in, env.pos))
	r.assume(Ge(b, IntC(lc.lo)))
	r.assume(Le(b, IntC(lc.hi)))
}

// readerFailure: an error that is none of the end-of-stream errors.
func (r *Run) readerFailure() Val {
	f := r.freshErr("readerfailure")
	r.assume(Not(IsNilAtom(f)))
	for _, n := range []string{"EOF", "ErrUnexpectedEOF"} {
		r.assume(Not(r.eqVal(f, r.globalVal("io", n))))
	}
	return f
}
