package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- decoding: the parse functions over an arbitrary unpacker

// parseCase is one thing the unpacker's Next can deliver.
type parseCase struct {
	name string
	lead *leadCase // nil: no token
	// constant of the format for a token that carries nothing
	format string
}

func parseCases() []parseCase {
	var out []parseCase
	for i := int64(0); i < 5; i++ {
		n := IntC(i)
		lc := leadCase{0x80 + i, 0x80 + i, "MapHeader", "ParseMap", 0, func(*Run, *Term, *SliceV) (Val, bool) { return n, true }}
		out = append(out, parseCase{name: fmt.Sprintf("map of %d", i), lead: &lc, format: lc.format})
	}
	for _, lc := range leadCases() {
		lc := lc
		out = append(out, parseCase{name: fmt.Sprintf("token %#02x-%#02x", lc.lo, lc.hi), lead: &lc, format: lc.format})
	}
	return append(out,
		parseCase{name: "end of input", format: "EOF"},
		parseCase{name: "cut token", format: "UnexpectedEOF"},
		parseCase{name: "invalid token", format: "InvalidToken"})
}

// parseEnv is the abstract unpacker of one obligation.
type parseEnv struct {
	pc   parseCase
	u    *Term
	lead *Term
	hdr  *SliceV
	orig *SliceV // a copy of the header
	p    Val
	err  *Term // what the unpacker reports when asked for the reader's failure
	// the nested decode with this number is analysed too and meets inner
	inner   *parseCase
	innerAt int
}

// absUnpacker: an Unpacker that delivers the given case first. Reading
// succeeds with exactly the wanted number of bytes, or fails.
func (r *Run) absUnpacker(pc parseCase) *parseEnv {
	env := &parseEnv{pc: pc}
	env.u = Sym(SOpaque, "unpacker", r.T("Unpacker"))
	env.u.non = true
	env.err = Sym(SOpaque, "unpacker.Error", types.Universe.Lookup("error").Type())
	env.p = r.iface(r.call("MessageParser"))
	if pc.lead != nil {
		env.lead = IntC(pc.lead.lo)
		if pc.lead.hi > pc.lead.lo {
			env.lead = Sym(SInt, "lead", byteT)
			r.assume(Ge(env.lead, IntC(pc.lead.lo)))
			r.assume(Le(env.lead, IntC(pc.lead.hi)))
		}
		n := IntC(int64(1 + pc.lead.extra))
		body := symArray(Sym(SOpaque, "header", bytesT), byteT, n)
		segs := append([]Seg{{IntC(0), IntC(1), nil, env.lead}}, r.subSegs(body.segs, IntC(1), n, IntC(1))...)
		id := r.st.newObj(&ArrayV{byteT, n, segs}, &Meta{origin: "the header the unpacker returned", typ: bytesT})
		env.hdr = &SliceV{obj: id, off: IntC(0), len: n, cap: n, typ: bytesT}
		id2 := r.st.newObj(&ArrayV{byteT, n, segs}, &Meta{origin: "the header the unpacker returned", typ: bytesT})
		env.orig = &SliceV{obj: id2, off: IntC(0), len: n, cap: n, typ: bytesT}
	}
	r.e.invokeHook = func(r *Run, x *Term, m *types.Func, args []Val) ([]Val, bool) {
		if x.key() != env.u.key() {
			return nil, false
		}
		switch m.Name() {
		case "Next":
			switch n := r.countEv("Next"); {
			case n > r.countEv("inner"):
				r.stuck("a second token is read outside of a nested decode")
			case n == 1:
				r.emit("Next")
				return []Val{r.cons(env.inner.format), nilSlice(bytesT)}, true
			}
			r.emit("Next")
			if env.hdr == nil {
				return []Val{r.cons(pc.format), nilSlice(bytesT)}, true
			}
			return []Val{r.cons(pc.format), env.hdr}, true
		case "Error":
			return []Val{env.err}, true
		case "Read":
			return r.absRead(env, r.intVal(args[0])), true
		}
		return nil, false
	}
	r.e.hook = func(r *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
		if r.nextDone() && r.e.isDecode(fn) && !r.takesHeader(fn) {
			r.dropHeader(env)
			if n := r.countEv("inner"); env.inner != nil && n <= 1 {
				if n == 1 {
					return nil, false // part of the nested decode
				}
				if r.countEv("decode") == env.innerAt {
					r.emit("inner")
					return nil, false
				}
			}
			return r.decodeResult(fn, args), true
		}
		return nil, false
	}
	r.e.recursion()
	r.e.reenter = func(r *Run, fn *ssa.Function) bool {
		return r.e.isDecode(fn) && r.countEv("inner") == 1
	}
	return env
}

func (r *Run) countEv(op string) int {
	n := 0
	for _, e := range r.st.evs {
		if e.op == op {
			n++
		}
	}
	return n
}

func (r *Run) nextDone() bool {
	for _, e := range r.st.evs {
		if e.op == "Next" {
			return true
		}
	}
	return false
}

// takesHeader: the token was read before the call.
func (r *Run) takesHeader(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if types.Identical(fn.Signature.Params().At(i).Type(), bytesT) {
			return true
		}
	}
	return false
}

// dropHeader: the header is valid only until the unpacker is used again.
func (r *Run) dropHeader(env *parseEnv) {
	if env.hdr == nil {
		return
	}
	x := r.fresh(bytesT, "overwritten").(*SliceV)
	a, ok := r.st.heap[env.hdr.obj].(*ArrayV)
	if !ok {
		return
	}
	src := r.sliceSegs(x)
	_ = src
	b := symArray(Sym(SOpaque, r.freshName("overwritten"), bytesT), byteT, a.n)
	r.st.heap[env.hdr.obj] = b
}

func (r *Run) absRead(env *parseEnv, n *Term) []Val {
	r.e.obligations++
	r.dropHeader(env)
	r.emit("Read", n)
	if !r.Decide(Ge(n, IntC(0))) {
		r.violation("reads %s bytes", n)
	}
	if r.choose(2) == 0 {
		b := r.symSlice(Sym(SOpaque, r.freshName("payload"), bytesT), bytesT)
		r.assume(EqI(b.len, n))
		if m := r.st.meta[b.obj]; m != nil {
			m2 := *m
			m2.origin = "the payload the unpacker returned"
			r.st.meta[b.obj] = &m2
		}
		r.st.evs[len(r.st.evs)-1].res = []Val{b, r.nilErr()}
		return []Val{b, r.nilErr()}
	}
	er := r.freshErr("readerr")
	r.assume(Not(IsNilAtom(er)))
	b := r.fresh(bytesT, "partial")
	r.st.evs[len(r.st.evs)-1].res = []Val{b, er}
	return []Val{b, er}
}

// parse runs Parse on the environment.
func (r *Run) parse(env *parseEnv) (Val, Val) {
	t := r.call("Parse", env.u, env.p).(*TupleV)
	return r.pick(t.vs[0]), r.pick(t.vs[1])
}

// ---- C14

func checkC14(c *Check) {
	c.rule("no path of a decoding function, over an arbitrary unpacker and over both unpackers of the library, ends in a panic")
	c.onlyPanic = true
	for _, pc := range parseCases() {
		pc := pc
		c.obl("Parse: "+pc.name, func(r *Run) {
			env := r.absUnpacker(pc)
			r.parse(env)
		})
	}
	unpackCases(c, func(k unpackKind) bool { return true })
	for _, lc := range leadCases() {
		lc := lc
		if lc.parse == "" {
			continue
		}
		c.obl(fmt.Sprintf("Parser.%s: %#02x-%#02x", lc.parse, lc.lo, lc.hi), func(r *Run) {
			_, in := r.leadInput(lc.lo, lc.hi, lc.extra)
			u, _ := r.unpackerOn(in)
			_, h := r.nextToken(u)
			r.method(r.call("MessageParser"), lc.parse, h)
		})
	}
	entry := func(name string, f func(r *Run)) {
		c.obl(name, func(r *Run) {
			r.e.contracts()
			f(r)
		})
	}
	entry("Unpack", func(r *Run) { r.call("Unpack", r.in("input", bytesT), r.freshBool("copy")) })
	entry("Read", func(r *Run) { r.call("Read", r.anyReader()) })
	entry("ReadStream", func(r *Run) {
		f := r.e.pkg.Func("ReadStream")
		if f == nil {
			r.violation("exported function ReadStream is missing")
		}
		ch := Sym(SOpaque, "out", f.Signature.Params().At(1).Type())
		ch.non = true
		r.call("ReadStream", r.anyReader(), ch)
	})
	entry("Unseal", func(r *Run) {
		f := r.e.pkg.Func("Unseal")
		if f == nil {
			r.violation("exported function Unseal is missing")
		}
		k1, k2 := Sym(SOpaque, "key1", f.Signature.Params().At(1).Type()), Sym(SOpaque, "key2", f.Signature.Params().At(2).Type())
		k1.non, k2.non = true, true
		r.call("Unseal", r.in("encrypted", bytesT), k1, k2)
	})
	entry("UnpackBigInt", func(r *Run) { r.call("UnpackBigInt", r.in("data", bytesT)) })
	entry("UnpackDecimal", func(r *Run) { r.call("UnpackDecimal", r.in("data", bytesT)) })
}

func (r *Run) anyReader() *Term {
	t := Sym(SOpaque, "reader", r.e.stdType("io", "Reader"))
	t.non = true
	return t
}

// ---- what a decode step may do with the unpacker

// original: the header's bytes as the unpacker returned them.
func (r *Run) value(env *parseEnv) (Val, bool) {
	return env.pc.lead.value(r, env.lead, env.orig)
}

// decodeErr: on success no step has failed; the first failure ends the decode
// and is its error.
func (r *Run) checkFailures(env *parseEnv, err Val) {
	what := "Parse: " + env.pc.name
	ok := r.Decide(r.isNil(err))
	var walk func(evs []Event, last bool)
	walk = func(evs []Event, last bool) {
		for i, e := range evs {
			if e.loop != nil {
				l := e.loop
				if !r.Decide(Lt(l.from, l.n)) {
					continue
				}
				j := r.freshInt("it", nil)
				r.assume(Ge(j, l.from))
				r.assume(Lt(j, l.n))
				alt := l.alts[r.choose(len(l.alts))]
				for _, c := range alt.conds {
					r.assume(substT(c, l.j, j))
				}
				s := &substituter{x: l.j, by: j, memo: map[*Term]*Term{}}
				var body []Event
				for _, x := range alt.evs {
					body = append(body, s.event(x))
				}
				walk(body, false)
				continue
			}
			if e.op != "Read" && e.op != "decode" && e.op != "payload" {
				continue
			}
			r.e.obligations++
			if r.Decide(r.isNil(e.res[1])) {
				continue
			}
			if ok {
				r.violation("%s: succeeds although a step failed: %s", what, e)
			}
			if !last || i != len(evs)-1 {
				r.violation("%s: goes on after a step failed: %s", what, e)
			}
			r.same(err, e.res[1], what+": the error of a failed step")
		}
	}
	walk(r.st.evs, true)
}

// steps: the events after Next, which must be the first and the only one.
func (r *Run) afterNext(env *parseEnv) []Event {
	r.e.obligations++
	if len(r.st.evs) == 0 || r.st.evs[0].op != "Next" {
		r.violation("Parse: %s: does not start with the next token", env.pc.name)
	}
	return r.st.evs[1:]
}

// checkSteps: a decode step reads exactly what its token announces.
func (r *Run) checkSteps(env *parseEnv, err Val) {
	pc := env.pc
	what := "Parse: " + pc.name
	steps := r.afterNext(env)
	failed := !r.Decide(r.isNil(err))
	reads := func(n *Term) {
		if failed && len(steps) == 0 {
			r.violation("%s: an error although the announced bytes were not asked for", what)
		}
		r.e.obligations++
		if len(steps) != 1 || steps[0].op != "Read" {
			r.violation("%s: does not read the announced bytes once: %v", what, steps)
		}
		r.same(steps[0].args[0], n, what+": number of bytes read")
	}
	nothing := func() {
		r.e.obligations++
		if len(steps) != 0 {
			r.violation("%s: reads on: %v", what, steps)
		}
	}
	if pc.lead == nil {
		nothing()
		if !failed {
			r.violation("%s: accepted", what)
		}
		return
	}
	var n *Term
	if pc.lead.value != nil {
		x, ok := r.value(env)
		if !ok {
			nothing()
			if !failed {
				r.violation("%s: a number that does not fit is accepted", what)
			}
			return
		}
		n, _ = x.(*Term)
	}
	switch pc.format {
	case "StrHeader", "BinHeader":
		reads(n)
	case "ExtHeader":
		reads(AddC(n, 1))
	case "ListHeader":
		r.children(env, steps, n, 1, failed, nil)
	case "MapHeader":
		r.children(env, steps, n, 2, failed, nil)
	default:
		nothing()
	}
	if failed {
		for _, e := range steps {
			if e.op == "Read" || e.op == "decode" || e.loop != nil {
				return // judged by checkFailures
			}
		}
		if pc.format != "FixExtToken" {
			r.violation("%s: a complete value is rejected", what)
		}
	}
}

// children: exactly n times the given number of nested decodes, through the
// same unpacker and parser; cut short only by a failure.
func (r *Run) children(env *parseEnv, steps []Event, n *Term, per int, failed bool, same func(r *Run, k *Term, part int, e Event)) {
	m := &matcher{n: n, pos: IntC(0), what: "Parse: " + env.pc.name, child: func(r *Run, k *Term) []expEv {
		var g []expEv
		for i := 0; i < per; i++ {
			i := i
			g = append(g, expEv{op: "decode", same: func(r *Run, e Event) {
				u, p := false, false
				for _, a := range e.args {
					u = u || r.sameRef(a, env.u)
					p = p || r.sameRef(a, env.p)
				}
				if !u || !p {
					r.violation("Parse: %s: an element is not decoded by the unpacker and parser of the list or map", env.pc.name)
				}
				if same != nil {
					same(r, k, i, e)
				}
			}})
		}
		return g
	}}
	if !m.run(r, steps) {
		return
	}
	if !failed {
		m.end(r)
	}
}

// sameRef: the same object, whatever its contents.
func (r *Run) sameRef(a, b Val) bool {
	a, b = r.pick(a), r.pick(b)
	if a.key() == b.key() {
		return true
	}
	x, ok := a.(*IfaceV)
	if !ok {
		return false
	}
	y, ok := b.(*IfaceV)
	if !ok {
		return false
	}
	p, ok := r.pick(x.v).(*PtrV)
	q, ok2 := r.pick(y.v).(*PtrV)
	return ok && ok2 && p.obj == q.obj
}

// opaqueCollections: what the constructors build plays no role for what is
// read and for the errors.
func (r *Run) opaqueCollections() {
	h := r.e.hook
	r.e.hook = func(r *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
		if fn.Pkg == r.e.pkg && fn.Signature.Recv() == nil && fn.Object() != nil && fn.Object().Exported() {
			if res := fn.Signature.Results(); res.Len() == 1 && fn.Signature.Params().Len() > 0 {
				if _, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok && types.Implements(res.At(0).Type(), r.T("Collection").Underlying().(*types.Interface)) {
					x := Sym(SOpaque, r.freshName("collection"), res.At(0).Type())
					x.non = true
					return []Val{x}, true
				}
			}
		}
		return h(r, fn, args)
	}
}

func checkC15(c *Check) {
	c.rule("a decode step starts with one Next, reads exactly what its token announces, decodes exactly the announced children, and ends with the first error of any of them")
	c.noPanic = true
	for _, pc := range parseCases() {
		pc := pc
		c.obl("Parse: "+pc.name, func(r *Run) {
			env := r.absUnpacker(pc)
			r.opaqueCollections()
			first := r.choose(2) == 0
			r.e.notePayload = first
			_, err := r.parse(env)
			if first {
				r.checkFailures(env, err)
			} else {
				r.checkSteps(env, err)
			}
		})
	}
	for _, outer := range []string{"list", "map"} {
		for n := int64(1); n < 3; n++ {
			for at := 0; at < int(n)*map[string]int{"list": 1, "map": 2}[outer]; at++ {
				for _, in := range []string{"EOF", "UnexpectedEOF", "InvalidToken"} {
					outer, n, at, in := outer, n, at, in
					c.obl(fmt.Sprintf("Parse: %s of %d, element %d: %s", outer, n, at, in), func(r *Run) {
						env := r.absUnpacker(countCase(outer, n))
						r.opaqueCollections()
						env.inner, env.innerAt = &parseCase{format: in}, at
						_, err := r.parse(env)
						if r.countEv("inner") == 0 {
							return // an element before it failed
						}
						r.must(Not(r.isNil(err)), "Parse: a %s is accepted although one of its elements is missing", outer)
					})
				}
			}
		}
	}
	unpackCases(c, func(k unpackKind) bool { return true })
}

// countCase: a list or map header announcing n.
func countCase(outer string, n int64) parseCase {
	t := IntC(n)
	val := func(*Run, *Term, *SliceV) (Val, bool) { return t, true }
	lc := leadCase{0x90 + n, 0x90 + n, "ListHeader", "ParseList", 0, val}
	if outer == "map" {
		lc = leadCase{0x80 + n, 0x80 + n, "MapHeader", "ParseMap", 0, val}
	}
	return parseCase{name: fmt.Sprintf("%s of %d", outer, n), lead: &lc, format: lc.format}
}

// ---- C16

// maxAlloc is a constant size any input may cause.
const maxAlloc = 1 << 20

// maxNesting is the deepest nesting that surely fits the stack.
const maxNesting = 100000

func checkC16(c *Check) {
	c.rule("every allocation while decoding is bounded by a constant (2^20) or by bytes already shown to be available; nested decodes carry a depth that strictly advances towards a constant limit (at most 100000), beyond which nothing is decoded")
	c.noPanic = true
	for _, pc := range parseCases() {
		pc := pc
		c.obl("allocations of Parse: "+pc.name, func(r *Run) {
			env := r.absUnpacker(pc)
			r.opaqueCollections()
			r.parse(env)
			var avail []*Term
			for _, e := range r.st.evs {
				if e.op == "Read" {
					if b, ok := r.pick(e.res[0]).(*SliceV); ok {
						avail = append(avail, b.len)
					}
				}
			}
			r.boundedAllocs(avail, "Parse: "+pc.name)
		})
	}
	for _, k := range unpackKinds {
		k := k
		for how := 0; how < 4; how++ {
			how := how
			c.obl(fmt.Sprintf("allocations of %s.Read %d", k.name, how), func(r *Run) {
				env := r.newUnpack(k, r.inSlice("input", byteT))
				r.advance(env, how)
				r.st.allocs = nil
				n := r.inInt("n")
				r.assume(Ge(n, IntC(0)))
				r.method(env.u, "Read", n)
				r.boundedAllocs([]*Term{env.in.len}, k.name+".Read")
			})
		}
		c.obl("allocations of "+k.name+".Next", func(r *Run) {
			env := r.newUnpack(k, r.inSlice("input", byteT))
			r.method(env.u, "Next")
			r.boundedAllocs([]*Term{env.in.len}, k.name+".Next")
		})
	}
	for _, g := range c.e.witnesses() {
		g := g
		if g.name == "no fields" {
			continue
		}
		c.obl("allocations of UnpackStruct: "+g.name, func(r *Run) {
			r.structMode()
			r.hugeCounts()
			pt := types.NewPointer(g.t)
			id := r.st.newObj(r.zero(g.t), &Meta{origin: "the target struct", typ: g.t})
			r.st.allocs = nil
			r.call("UnpackStruct", r.inSlice("input", byteT), &IfaceV{pt, &PtrV{obj: id, typ: pt}}, r.freshBool("copy"))
			r.boundedAllocs(nil, "UnpackStruct: "+g.name)
		})
	}
	for _, outer := range []string{"list", "map"} {
		checkDepth(c, outer)
	}
}

// boundedAllocs: no allocation is larger than a constant or than one of the
// given quantities.
func (r *Run) boundedAllocs(avail []*Term, what string) {
	for _, a := range r.st.allocs {
		r.e.obligations++
		ok := a.f.entails(Le(a.n, IntC(maxAlloc)))
		for _, n := range avail {
			ok = ok || a.f.entails(Le(a.n, n))
		}
		if !ok {
			r.violation("%s: allocates for %s elements before that many bytes are known to be there, at %s in %s", what, a.n, a.pos, a.fn)
		}
	}
}

// checkDepth follows the arguments of nested decodes.
func checkDepth(c *Check, outer string) {
	type child struct {
		fn    *ssa.Function
		depth map[int]int64
	}
	var found []child
	nesting := func(r *Run) {
		env := r.absUnpacker(countCase(outer, 1))
		r.opaqueCollections()
		r.parse(env)
		e := r.firstDecode()
		if e == nil {
			return
		}
		ch := child{e.fn, map[int]int64{}}
		for i, a := range e.args {
			if !isInt(e.fn.Signature.Params().At(i).Type()) {
				continue
			}
			d, ok := r.pick(a).(*Term)
			if !ok {
				continue
			}
			n, ok := d.int64()
			if !ok || n > maxNesting || n < -maxNesting {
				r.violation("%s: nested decoding starts at depth %s", e.fn.Name(), d)
			}
			ch.depth[i] = n
		}
		for _, f := range found {
			if f.fn == ch.fn {
				return
			}
		}
		found = append(found, ch)
	}
	c.pre(nesting)
	c.obl("nesting of a "+outer, nesting)
	for _, ch := range found {
		fn := ch.fn
		// the nested decode at an arbitrary depth
		run := func(r *Run, env *parseEnv, lo, hi *Term) (args []Val, inner *Event, err Val) {
			r.opaqueCollections()
			r.emit("inner")
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				t := fn.Signature.Params().At(i).Type()
				switch {
				case types.Identical(t, r.T("Unpacker")):
					args = append(args, env.u)
				case types.Identical(t, r.T("Parser")):
					args = append(args, env.p)
				case isInt(t):
					d := Sym(SInt, fmt.Sprintf("depth%d", i), t)
					if lo != nil {
						r.assume(Ge(d, lo))
					}
					if hi != nil {
						r.assume(Le(d, hi))
					}
					args = append(args, d)
				default:
					r.stuck("parameter %d of %s", i, fn.Name())
				}
			}
			r.e.reenter = nil
			res := r.callFn(fn, args, nil)
			return args, r.firstDecode(), res[1]
		}
		dir := 0
		depth := func(r *Run) {
			env := r.absUnpacker(countCase(outer, 1))
			args, inner, _ := run(r, env, IntC(-maxNesting), IntC(maxNesting))
			if inner == nil || inner.fn != fn {
				return
			}
			for i := range ch.depth {
				d, n := args[i].(*Term), r.intVal(inner.args[i])
				switch {
				case dir >= 0 && r.entails(Gt(n, d)):
					dir = 1
					return
				case dir <= 0 && r.entails(Lt(n, d)):
					dir = -1
					return
				}
			}
			r.violation("%s: nothing advances towards a limit from one nested decode to the next", fn.Name())
		}
		c.pre(depth)
		c.obl("depth of "+fn.Name()+" in a "+outer, depth)
		if dir != 0 {
			c.obl("limit of "+fn.Name()+" in a "+outer, func(r *Run) {
				lo, hi := IntC(maxNesting), (*Term)(nil)
				if dir < 0 {
					lo, hi = nil, IntC(-1)
				}
				env := r.absUnpacker(countCase(outer, 1))
				_, inner, err := run(r, env, lo, hi)
				r.must(Not(r.isNil(err)), "%s: succeeds however deep the input is nested", fn.Name())
				if inner != nil {
					r.violation("%s: follows the input however deep it is nested", fn.Name())
				}
			})
		}
	}
}

// firstDecode is the first nested decode, loops included.
func (r *Run) firstDecode() *Event {
	var find func(evs []Event) *Event
	find = func(evs []Event) *Event {
		for i := range evs {
			if evs[i].op == "decode" {
				return &evs[i]
			}
			if l := evs[i].loop; l != nil {
				for _, a := range l.alts {
					if e := find(a.evs); e != nil {
						return e
					}
				}
			}
		}
		return nil
	}
	return find(r.st.evs)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
