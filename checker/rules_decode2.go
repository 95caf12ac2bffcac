package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C17: what a stream delivers does not depend on how

func checkC17(c *Check) {
	c.rule("Next and Read of the stream reader deliver exactly the bytes of the stream, in order, for every split into reads and with or without ReadByte; a stream that ends inside a value ends the decode with io.ErrUnexpectedEOF, a failing reader with its own error")
	unpackCases(c, func(k unpackKind) bool { return k.stream })
	readExact(c)
	k := unpackKinds[2]
	// a stream that ends inside of one value
	for _, lc := range leadCases() {
		lc := lc
		name := fmt.Sprintf("Read: %#02x-%#02x", lc.lo, lc.hi)
		if lc.extra > 0 {
			c.obl(name+" cut inside the token", func(r *Run) {
				in := r.inSlice("input", byteT)
				r.assume(Ge(in.len, IntC(1)))
				r.assume(Le(in.len, IntC(int64(lc.extra))))
				r.leadAt(&unpackEnv{in: in, pos: IntC(0)}, lc)
				r.readCut(k, in, name)
			})
		}
		body := int64(0)
		switch lc.format {
		case "ExtHeader":
			body = 1
		case "StrHeader", "BinHeader":
		case "ListHeader", "MapHeader":
			if lc.extra > 0 {
				continue
			}
			per := int64(1)
			if lc.format == "MapHeader" {
				per = 2
			}
			for n := int64(1); n < 3; n++ {
				for have := int64(0); have < n*per; have++ {
					n, have := n, have
					c.obl(fmt.Sprintf("%s of %d, cut after %d elements", name, n, have), func(r *Run) {
						var bs []*Term
						bs = append(bs, IntC(lc.lo+n))
						for i := int64(0); i < have; i++ {
							bs = append(bs, IntC(0xc0))
						}
						r.readCut(k, r.input(bs, nilSlice(bytesT)), name)
					})
				}
			}
			continue
		default:
			continue
		}
		c.obl(name+" cut inside the body", func(r *Run) {
			in := r.inSlice("input", byteT)
			r.assume(Ge(in.len, IntC(int64(1+lc.extra))))
			env := &unpackEnv{in: in, pos: IntC(0)}
			r.leadAt(env, lc)
			v, _ := lc.value(r, r.intVal(r.readElem(in, IntC(0))), in)
			r.assume(Lt(in.len, AddC(v.(*Term), int64(1+lc.extra)+body)))
			r.readCut(k, in, name)
		})
	}
}

// readExact: Read takes no more from its reader than the value it returns.
func readExact(c *Check) {
	exact := func(name string, mk func(r *Run) (*SliceV, *Term)) {
		c.obl("Read leaves the reader behind the value: "+name, func(r *Run) {
			in, n := mk(r)
			s := r.stream("stream", in)
			r.e.reenter = func(r *Run, fn *ssa.Function) bool { return r.e.isDecode(fn) && len(r.stack) < 20 }
			t := r.call("Read", s.term).(*TupleV)
			if !r.Decide(r.isNil(r.pick(t.vs[1]))) {
				return
			}
			r.same(r.streamPos(s), n, "Read: bytes taken from the reader")
		})
	}
	for _, lc := range leadCases() {
		lc := lc
		name := fmt.Sprintf("%#02x-%#02x", lc.lo, lc.hi)
		switch lc.format {
		case "ListHeader", "MapHeader":
			if lc.extra > 0 {
				continue
			}
			n := int64(2)
			exact(name, func(r *Run) (*SliceV, *Term) {
				bs := []*Term{IntC(lc.lo + n)}
				if lc.format == "MapHeader" {
					bs = append(bs, IntC(1), IntC(0xc0), IntC(2), IntC(0xc0))
				} else {
					bs = append(bs, IntC(0xc0), IntC(0xc0))
				}
				return r.input(bs, r.inSlice("rest", byteT)), IntC(int64(len(bs)))
			})
			continue
		}
		exact(name, func(r *Run) (*SliceV, *Term) {
			in := r.inSlice("input", byteT)
			n := IntC(int64(1 + lc.extra))
			r.assume(Ge(in.len, n))
			r.leadAt(&unpackEnv{in: in, pos: IntC(0)}, lc)
			switch lc.format {
			case "StrHeader", "BinHeader", "ExtHeader":
				v, _ := lc.value(r, r.intVal(r.readElem(in, IntC(0))), in)
				n = Add(n, v.(*Term))
				if lc.format == "ExtHeader" {
					n = AddC(n, 1)
				}
				r.assume(Ge(in.len, n))
			}
			return in, n
		})
	}
}

// readCut: Read on a stream that ends inside of a value.
func (r *Run) readCut(k unpackKind, in *SliceV, what string) {
	s := r.stream("stream", in)
	var fail Val
	if r.choose(2) == 1 {
		s.fail = r.readerFailure()
		fail = s.fail
	}
	r.e.reenter = func(r *Run, fn *ssa.Function) bool { return r.e.isDecode(fn) && len(r.stack) < 20 }
	t := r.call("Read", s.term).(*TupleV)
	err := r.pick(t.vs[1])
	r.must(Not(r.isNil(err)), "%s: a value is reported although the stream ends inside of it", what)
	want := fail
	if want == nil {
		want = r.globalVal("io", "ErrUnexpectedEOF")
	}
	r.same(err, want, what+": error")
}

// ---- C19: no sharing with transient memory

// reach: the memory objects a value refers to.
func (r *Run) reach(vs ...Val) map[int]bool {
	seen := map[int]bool{}
	var walk func(v Val)
	obj := func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		walk(r.st.heap[id])
	}
	walk = func(v Val) {
		switch v := v.(type) {
		case *IfaceV:
			walk(v.v)
		case *PtrV:
			obj(v.obj)
		case *SliceV:
			obj(v.obj)
		case *StructV:
			for _, f := range v.fields {
				walk(f)
			}
		case *ArrayV:
			for _, s := range v.segs {
				walk(s.body)
			}
		case *SeqV:
			for _, s := range v.segs {
				walk(s.body)
			}
		case *TupleV:
			for _, x := range v.vs {
				walk(x)
			}
		case *NewV:
			walk(v.cell)
		case *IteV:
			walk(v.a)
			walk(v.b)
		case *FuncV:
			for _, x := range v.bind {
				walk(x)
			}
		case *MapV:
			for _, u := range v.ups {
				walk(u.k)
				walk(u.v)
			}
		}
	}
	for _, v := range vs {
		if v != nil {
			walk(r.pick(v))
		}
	}
	return seen
}

// unshared: v has no memory in common with the others.
func (r *Run) unshared(v Val, what string, others ...Val) {
	r.e.obligations++
	mine := r.reach(v)
	for _, o := range others {
		for id := range r.reach(o) {
			if mine[id] {
				m := r.st.meta[id]
				if m != nil && (m.global != "" || m.origin == "package-level data") {
					continue
				}
				org := ""
				if m != nil {
					org = m.origin
				}
				r.violation("%s: shares memory with %s", what, org)
			}
		}
	}
}

func checkC19(c *Check) {
	c.rule("what a decode returns is not reachable from the unpacker, from the header it returned, or (copy flag, streams) from the input")
	c.noPanic = true
	for _, pc := range parseCases() {
		pc := pc
		if pc.lead == nil || pc.format == "ListHeader" || pc.format == "MapHeader" {
			continue
		}
		c.obl("Parse: "+pc.name, func(r *Run) {
			env := r.absUnpacker(pc)
			v, err := r.parse(env)
			if r.Decide(r.isNil(err)) {
				r.unshared(v, "Parse: "+pc.name, env.hdr)
			}
		})
	}
	for _, k := range unpackKinds {
		if !k.stream && !k.copy {
			continue
		}
		k := k
		for how := 0; how < 4; how++ {
			how := how
			c.obl(fmt.Sprintf("%s.Read %d", k.name, how), func(r *Run) {
				env := r.newUnpack(k, r.inSlice("input", byteT))
				r.advance(env, how)
				n := r.inInt("n")
				r.assume(Ge(n, IntC(1)))
				res := r.method(env.u, "Read", n)
				if !r.Decide(r.isNil(res[1])) {
					return
				}
				r.unshared(res[0], k.name+".Read", env.u, env.in)
				res2 := r.method(env.u, "Read", n)
				r.unshared(res[0], k.name+".Read (twice)", env.u, res2[0])
			})
		}
	}
	// complete values, through the entry points
	for _, lc := range leadCases() {
		lc := lc
		if lc.format == "ListHeader" || lc.format == "MapHeader" {
			continue
		}
		name := fmt.Sprintf("%#02x-%#02x", lc.lo, lc.hi)
		c.obl("Unpack(copy): "+name, func(r *Run) {
			_, in := r.leadInput(lc.lo, lc.hi, lc.extra)
			t := r.call("Unpack", in, True).(*TupleV)
			if r.Decide(r.isNil(t.vs[1])) {
				r.unshared(t.vs[0], "Unpack with the copy flag", in)
			}
		})
		c.obl("Parse(MessageReader): "+name, func(r *Run) {
			_, in := r.leadInput(lc.lo, lc.hi, lc.extra)
			s := r.stream("stream", in)
			u := r.iface(r.call("MessageReader", s.term))
			t := r.call("Parse", u, r.iface(r.call("MessageParser"))).(*TupleV)
			if r.Decide(r.isNil(t.vs[1])) {
				r.unshared(t.vs[0], "Parse of a stream", u)
			}
		})
	}
	c.obl("Raw(copy)", func(r *Run) {
		x := r.inSlice("data", byteT)
		v := r.call("Raw", x, True)
		r.unshared(v, "Raw with the copy flag", x)
	})
}

// ---- C38: containers hold exactly the decoded children

func checkC38(c *Check) {
	c.rule("the value decoded for a list holds the result of the i-th nested decode at position i; for a map, the sorted pairs of the nested decodes, indexed by integers exactly when every key is a 64-bit integer")
	c.noPanic = false
	for _, pc := range parseCases() {
		pc := pc
		if pc.format != "ListHeader" {
			continue
		}
		c.obl("Parse: list "+pc.name, func(r *Run) {
			env := r.absUnpacker(pc)
			v, err := r.parse(env)
			if !r.Decide(r.isNil(err)) {
				return
			}
			x, _ := r.value(env)
			n := x.(*Term)
			r.listOf(v, n, pc.name)
			r.children(env, r.afterNext(env), n, 1, false, func(r *Run, k *Term, part int, e Event) {
				if r.Decide(r.isNil(e.res[1])) {
					r.same(r.m1(v, "GetAt", k), e.res[0], fmt.Sprintf("Parse: %s: element %s", pc.name, k))
				}
			})
		})
	}
	c.obl("string form of 64-bit integers", func(r *Run) {
		x := Sym(SInt, "v", types.Typ[types.Int64])
		r.same(r.m1(r.call("Long", x), "String"), itoa(x), "String of a 64-bit integer")
	})
	for n := int64(0); n < 4; n++ {
		n := n
		c.obl(fmt.Sprintf("Parse: list of %d", n), func(r *Run) {
			env := r.absUnpacker(countCase("list", n))
			v, err := r.parse(env)
			if !r.Decide(r.isNil(err)) {
				return
			}
			r.listOf(v, IntC(n), "list")
			k := int64(0)
			for _, e := range r.afterNext(env) {
				if e.op == "decode" {
					r.same(r.m1(v, "GetAt", IntC(k)), e.res[0], fmt.Sprintf("Parse: list of %d: element %d", n, k))
					k++
				}
			}
		})
		c.obl(fmt.Sprintf("Parse: map of %d", n), func(r *Run) {
			env := r.absUnpacker(countCase("map", n))
			v, err := r.parse(env)
			if !r.Decide(r.isNil(err)) {
				return
			}
			r.mapOf(env, v, n)
		})
	}
}

func (r *Run) dynType(v Val) types.Type {
	if iv, ok := r.pick(v).(*IfaceV); ok {
		return iv.dyn
	}
	return valType(v)
}

func (r *Run) listOf(v Val, n *Term, what string) {
	want := r.dynType(r.call("ImmutableList", r.inSlice("any", r.T("Value"))))
	r.e.obligations++
	if got := r.dynType(v); !types.Identical(got, want) {
		r.violation("Parse: %s: the list is a %s", what, shortType(got))
	}
	r.same(r.m1(v, "Len"), n, "Parse: "+what+": length")
}

// mapOf: the value holds the pairs of the nested decodes.
func (r *Run) mapOf(env *parseEnv, v Val, n int64) {
	what := fmt.Sprintf("Parse: map of %d", n)
	var keys, vals []Val
	for _, e := range r.afterNext(env) {
		if e.op != "decode" {
			continue
		}
		if len(keys) == len(vals) {
			keys = append(keys, e.res[0])
		} else {
			vals = append(vals, e.res[0])
		}
	}
	r.e.obligations++
	if int64(len(keys)) != n || int64(len(vals)) != n {
		r.violation("%s: %d keys and %d values are decoded", what, len(keys), len(vals))
	}
	indexes := n > 0
	for _, k := range keys {
		t := k.(*Term)
		if !r.Decide(r.implAtom(t, r.T("Number"))) || !r.Decide(EqI(r.intVal(r.methodAs(k, "Number", "Type")), r.cons("LONG"))) {
			indexes = false
			break
		}
	}
	for _, k := range keys {
		// a 64-bit integer prints in decimal, as shown separately
		if r.Decide(r.implAtom(k.(*Term), r.T("Number"))) && r.Decide(EqI(r.intVal(r.methodAs(k, "Number", "Type")), r.cons("LONG"))) {
			r.assume(r.eqVal(r.m1(k, "String"), itoa(r.methodAs(k, "Number", "Long").(*Term))))
		}
	}
	anyItems, anyEntries := r.inSlice("anyitems", r.T("ListItem")), r.inSlice("anyentries", r.T("MapEntry"))
	ctor, part := r.call("ImmutableMap", anyEntries, True), "Entries"
	if indexes {
		ctor, part = r.call("SparseList", anyItems, True), "Items"
	}
	if got, want := r.dynType(v), r.dynType(ctor); !types.Identical(got, want) {
		r.violation("%s: the result is a %s, want a %s", what, shortType(got), shortType(want))
	}
	r.sortedFrom(r.m1(v, part), what, IntC(n), func(r *Run, i *Term) (Val, Val) {
		for j := int64(0); j < n; j++ {
			if j < n-1 && !r.Decide(EqI(i, IntC(j))) {
				continue
			}
			if indexes {
				return r.methodAs(keys[j], "Number", "Long"), vals[j]
			}
			return r.m1(keys[j], "String"), vals[j]
		}
		return nil, nil
	})
}

// ---- C09, values: what is packed is decoded to the same value

func scalarRoundTrip(c *Check) {
	for _, s := range scalarRigs() {
		s := s
		c.obl("value."+s.name, func(r *Run) {
			v, want := s.mk(r)
			if s.name == "Unknown" {
				if len(want.args) == 0 || want.args[0] == nil {
					return // without data there is no tag to keep
				}
				for _, t := range []string{"BigIntExt", "DecimalExt"} {
					r.assume(Not(EqI(r.intVal(want.args[0]), r.cons(t))))
				}
			}
			for _, a := range want.args {
				if q, ok := a.(*SeqV); ok {
					r.assume(Le(q.n, IntB(maxLen32)))
				}
				if t, ok := a.(*Term); ok && t.sort == SStr {
					r.assume(Le(strLen(t), IntB(maxLen32)))
				}
			}
			w, buf := r.buffer()
			r.m1(v, "Pack", r.iface(r.packerOn(w)))
			out, ok := r.load(buf).(*SinkV)
			if !ok {
				r.stuck("output buffer")
			}
			segs, n := r.sinkSegs(out)
			r.assume(Le(n, IntB(maxLen32))) // what the format can announce
			in := r.inputSegs(segs, n, r.inSlice("rest", byteT))
			d, err, who := r.decode(in)
			what := who + " of a packed " + s.name
			r.must(r.isNil(err), "%s: an error", what)
			r.e.obligations++
			if got, want := r.dynType(d), r.dynType(v); !types.Identical(got, want) {
				r.violation("%s: yields a %s", what, shortType(got))
			}
			p := r.inPacker()
			e0 := len(r.st.evs)
			r.m1(d, "Pack", p)
			evs := r.st.evs[e0:]
			r.e.obligations++
			if len(evs) != 1 || evs[0].op != "Packer."+want.op {
				r.violation("%s: packs again as %v", what, evs)
			}
			for i, a := range want.args {
				if a != nil {
					r.sameArg(evs[0].args[i+1], a, what+": "+want.op)
				}
			}
			if want.same != nil {
				want.same(r, evs[0])
			}
		})
	}
}
