package main

import (
	"go/types"
)

// keyedRig describes one implementation of an ordered multimap: the sparse
// list (integer keys) or one of the maps (string keys).
type keyedRig struct {
	name, ctor, elem                                 string
	sparse                                           bool
	get, sel, put, ins, rem, insAll, delAll, upd, es string
}

func sparseRig() keyedRig {
	return keyedRig{"SparseList", "SparseList", "ListItem", true, "GetAt", "Select", "PutAt", "InsertAt", "RemoveAt", "InsertAll", "DeleteAll", "UpdateAt", "Items"}
}

func mapRig(ctor string) keyedRig {
	return keyedRig{ctor, ctor, "MapEntry", false, "Get", "Select", "Put", "Insert", "Remove", "InsertAll", "DeleteAll", "Update", "Entries"}
}

// keyed is a receiver in key order with respect to one arbitrary query key:
// entries below lo have smaller keys, entries in [lo,up) exactly the key and
// entries from up on larger ones.
type keyed struct {
	rig    keyedRig
	l      Val
	xs     *SliceV
	n      *Term
	seq    ESeq
	key    *Term
	lo, up *Term
}

func (g keyedRig) keySym(r *Run, name string) *Term {
	if g.sparse {
		return r.inInt(name)
	}
	return Sym(SStr, name, types.Typ[types.String])
}

func (r *Run) keyOf(x Val) *Term {
	if t, ok := x.(*Term); ok && t.sort == SOpaque {
		// the same term an invocation yields, without requiring x to exist
		for _, m := range []string{"ListItem", "MapEntry"} {
			it := r.T(m)
			if t.typ != nil && types.Identical(t.typ, it) {
				obj, _, _ := types.LookupFieldOrMethod(it, false, nil, "Key")
				return r.opaqueVal(obj.(*types.Func).Type().(*types.Signature).Results().At(0).Type(), "call:Key", t).(*Term)
			}
		}
	}
	return r.pick(r.m1(x, "Key")).(*Term)
}

func (r *Run) keyLess(a, b *Term) *Term {
	if a.sort == SInt {
		return Lt(a, b)
	}
	return Lt(Cmp("str", a, b), IntC(0))
}

func (r *Run) keyEq(a, b *Term) *Term {
	if a.sort == SInt {
		return EqI(a, b)
	}
	return r.strEq(a, b)
}

func (r *Run) newKeyed(g keyedRig, keyName string) *keyed { return r.newKeyedB(g, keyName, false) }

// newKeyedB: with bounded set, the last key is the largest one.
func (r *Run) newKeyedB(g keyedRig, keyName string, bounded bool) *keyed {
	k := &keyed{rig: g}
	k.xs = r.inSlice("xs", r.T(g.elem))
	k.n = k.xs.len
	k.seq = r.seqOf(k.xs)
	r.nonNilElems(k.xs)
	if keyName != "" {
		k.key = g.keySym(r, keyName)
		k.lo, k.up = r.ordered(k.xs, k.key, keyName)
	}
	last := AddC(k.n, -1)
	if bounded && r.Decide(Gt(k.n, IntC(0))) {
		lk := r.keyOf(k.seq.at(r, last))
		r.forAllElems(k.xs, IntC(0), k.n, func(j, x *Term) []*Term {
			return []*Term{Not(r.keyLess(lk, r.keyOf(x)))}
		})
		if g.sparse {
			r.assume(Lt(lk, IntB(pow2(40))))
		}
	}
	k.l = r.call(g.ctor, k.xs, True)
	return k
}

// ordered assumes that xs is in key order around the query key.
func (r *Run) ordered(xs *SliceV, key *Term, name string) (lo, up *Term) {
	lo, up = r.inInt(name+".lo"), r.inInt(name+".up")
	n := xs.len
	r.assume(Ge0(lo))
	r.assume(Le(lo, up))
	r.assume(Le(up, n))
	r.forAllElems(xs, IntC(0), lo, func(j, x *Term) []*Term { return []*Term{r.keyLess(r.keyOf(x), key)} })
	r.forAllElems(xs, lo, up, func(j, x *Term) []*Term { return []*Term{r.keyEq(r.keyOf(x), key)} })
	r.forAllElems(xs, up, n, func(j, x *Term) []*Term { return []*Term{r.keyLess(key, r.keyOf(x))} })
	seq := r.seqOf(xs)
	r.st.pivots = append(r.st.pivots[:len(r.st.pivots):len(r.st.pivots)], lo, up)
	for _, i := range []*Term{lo, AddC(lo, -1), up, AddC(up, -1)} {
		r.hint(seq.at(r, i))
	}
	return
}

// pair is an expected entry.
type pair struct{ k, v Val }

func (r *Run) pairAt(k *keyed, i *Term) Val {
	x := k.seq.at(r, i)
	return &TupleV{[]Val{r.m1(x, "Key"), r.m1(x, "Value")}}
}

func mkPair(k, v Val) Val { return &TupleV{[]Val{k, v}} }

// pairs: the entries of the receiver as expected pairs.
func (k *keyed) pairs() ESeq {
	return ESeq{k.n, func(r *Run, i *Term) Val { return r.pairAt(k, i) }}
}

// checkEntries: the collection holds exactly the expected pairs in order.
func (r *Run) checkEntries(g keyedRig, l Val, want ESeq, what string) {
	s, ok := r.pick(r.m1(l, g.es)).(*SliceV)
	if !ok {
		r.violation("%s: %s of the result", what, g.es)
	}
	r.e.obligations++
	if !r.Decide(EqI(s.len, want.n)) {
		r.violation("%s: the result has %s entries, want %s", what, s.len, want.n)
	}
	k := r.index("k", want.n)
	got := r.readElem(s, k)
	w := r.pick(want.at(r, k)).(*TupleV)
	r.same(r.m1(got, "Key"), w.vs[0], what+": key of entry "+k.String())
	r.same(r.m1(got, "Value"), w.vs[1], what+": value of entry "+k.String())
}

// replaceRange: the entries with [a,b) replaced by m new ones.
func replaceRange(x ESeq, a, b, m *Term, at func(r *Run, k *Term) Val) ESeq {
	return ESeq{Add(Sub(x.n, Sub(b, a)), m), func(r *Run, k *Term) Val {
		if r.Decide(Lt(k, a)) {
			return x.at(r, k)
		}
		if r.Decide(Lt(k, Add(a, m))) {
			return at(r, Sub(k, a))
		}
		return x.at(r, Add(Sub(k, m), Sub(b, a)))
	}}
}

// fastAppends leaves the switch arbitrary.
func (r *Run) fastAppends(v Val) {
	g := r.e.pkg.Var("AllowFastAppends")
	if g == nil {
		return
	}
	r.st.heap[r.globalObj(g)] = v
}

func keyedChecks(c *Check, g keyedRig) {
	n := func(s string) string { return g.name + "." + s }
	obl := func(name string, f func(r *Run)) {
		c.obl(n(name), func(r *Run) {
			r.fastAppends(Sym(SBool, "fast", types.Typ[types.Bool]))
			f(r)
		})
	}
	val := func(r *Run) Val { return r.in("v", r.T("Value")) }

	obl(g.es, func(r *Run) {
		k := r.newKeyed(g, "")
		r.checkEntries(g, k.l, k.pairs(), g.es)
	})
	obl(g.get, func(r *Run) {
		k := r.newKeyed(g, "key")
		got := r.m1(k.l, g.get, k.key)
		if r.Decide(Lt(k.lo, k.up)) {
			r.same(got, r.m1(k.seq.at(r, k.lo), "Value"), g.get)
		} else {
			r.same(got, r.null(), g.get+" of an absent key")
		}
	})
	obl(g.sel, func(r *Run) {
		k := r.newKeyed(g, "key")
		got := r.m1(k.l, g.sel, k.key)
		r.checkSeq(got, ESeq{Sub(k.up, k.lo), func(r *Run, i *Term) Val {
			return r.m1(k.seq.at(r, Add(k.lo, i)), "Value")
		}}, g.sel)
	})
	obl(g.put, func(r *Run) {
		k := r.newKeyed(g, "key")
		v := val(r)
		res := r.m1(k.l, g.put, k.key, v)
		end := k.lo
		if r.Decide(Lt(k.lo, k.up)) {
			end = AddC(k.lo, 1)
		}
		r.checkEntries(g, res, replaceRange(k.pairs(), k.lo, end, IntC(1), one(mkPair(k.key, r.norm(v)))), g.put)
	})
	obl(g.ins, func(r *Run) {
		k := r.newKeyed(g, "key")
		v := val(r)
		res := r.m1(k.l, g.ins, k.key, v)
		r.checkEntries(g, res, replaceRange(k.pairs(), k.lo, k.lo, IntC(1), one(mkPair(k.key, r.norm(v)))), g.ins)
	})
	obl(g.insAll, func(r *Run) {
		k := r.newKeyed(g, "key")
		ys := r.inSlice("ys", r.T("Value"))
		yseq := r.seqOf(ys)
		res := r.m1(k.l, g.insAll, k.key, ys)
		r.checkEntries(g, res, replaceRange(k.pairs(), k.lo, k.lo, yseq.n, func(r *Run, i *Term) Val {
			return mkPair(k.key, r.norm(yseq.at(r, i)))
		}), g.insAll)
	})
	obl(g.rem, func(r *Run) {
		k := r.newKeyed(g, "key")
		res := r.m1(k.l, g.rem, k.key)
		end := k.lo
		if r.Decide(Lt(k.lo, k.up)) {
			end = AddC(k.lo, 1)
		}
		r.checkEntries(g, res, replaceRange(k.pairs(), k.lo, end, IntC(0), nil), g.rem)
	})
	obl(g.delAll, func(r *Run) {
		k := r.newKeyed(g, "key")
		res := r.m1(k.l, g.delAll, k.key)
		r.checkEntries(g, res, replaceRange(k.pairs(), k.lo, k.up, IntC(0), nil), g.delAll)
	})
	obl("Values", func(r *Run) {
		k := r.newKeyedB(g, "key", true)
		got := r.m1(k.l, "Values")
		if !g.sparse {
			r.checkSeq(got, ESeq{k.n, func(r *Run, i *Term) Val { return r.m1(k.seq.at(r, i), "Value") }}, "Values")
			return
		}
		s, ok := r.pick(got).(*SliceV)
		if !ok {
			r.violation("Values: %s", show(got))
		}
		r.same(s.len, r.sparseLen(k), "Values: length")
		if !r.Decide(And(Ge0(k.key), Lt(k.key, s.len))) {
			return
		}
		x := r.readElem(s, k.key)
		if r.Decide(EqI(k.lo, k.up)) {
			if !r.Decide(r.isNil(x)) {
				r.same(x, r.null(), "Values: slot of an absent index")
			}
		} else if r.Decide(EqI(k.up, AddC(k.lo, 1))) {
			r.same(x, r.m1(k.seq.at(r, k.lo), "Value"), "Values: slot of a present index")
		}
	})
	obl("Len", func(r *Run) {
		k := r.newKeyedB(g, "", true)
		want := k.n
		if g.sparse {
			want = r.sparseLen(k)
		}
		r.same(r.m1(k.l, "Len"), want, "Len")
	})
	if g.sparse {
		obl("Entries", func(r *Run) {
			k := r.newKeyedB(g, "", true)
			r.checkItems(r.m1(k.l, "Entries"),
				ESeq{k.n, func(r *Run, i *Term) Val { return itoa(r.keyOf(k.seq.at(r, i))) }},
				ESeq{k.n, func(r *Run, i *Term) Val { return r.m1(k.seq.at(r, i), "Value") }}, "Entries")
		})
		obl("Append", func(r *Run) {
			k := r.newKeyedB(g, "", true)
			v := val(r)
			var key Val
			if r.Decide(Eq0(k.n)) {
				key = r.pkgVar("FirstIndexKey")
			} else {
				key = AddC(r.keyOf(k.seq.at(r, AddC(k.n, -1))), 1)
			}
			res := r.m1(k.l, "Append", v)
			r.checkEntries(g, res, replaceRange(k.pairs(), k.n, k.n, IntC(1), one(mkPair(key, r.norm(v)))), "Append")
		})
		obl("SparseListOf", func(r *Run) {
			xs := r.inSlice("vs", r.T("Value"))
			r.forAllElems(xs, IntC(0), xs.len, func(j, x *Term) []*Term { return []*Term{Not(IsNilAtom(x))} })
			seq := r.seqOf(xs)
			l := r.call("SparseListOf", xs)
			r.sortedFrom(r.m1(l, "Items"), "SparseListOf", seq.n, func(r *Run, i *Term) (Val, Val) { return i, seq.at(r, i) })
		})
		return
	}
	obl("Keys", func(r *Run) {
		k := r.newKeyed(g, "")
		r.checkSeq(r.m1(k.l, "Keys"), ESeq{k.n, func(r *Run, i *Term) Val { return r.m1(k.seq.at(r, i), "Key") }}, "Keys")
	})
	obl("HashMap", func(r *Run) {
		k := r.newKeyed(g, "")
		hm := r.m1(k.l, "HashMap")
		_, mv := r.mapObj(hm)
		if mv.base != nil {
			r.violation("HashMap is not a fresh map")
		}
		if r.Decide(Eq0(k.n)) {
			return
		}
		r.e.obligations++
		if len(mv.ups) != 1 || mv.ups[0].loop == nil || mv.ups[0].loop.may {
			n, ok := k.n.int64()
			for i := int64(1); !ok && i <= 3; i++ {
				if ok = r.Decide(EqI(k.n, IntC(i))); ok {
					n = i
				}
			}
			for _, u := range mv.ups {
				ok = ok && u.loop == nil
			}
			if !ok {
				r.stuck("HashMap content %s", show(mv))
			}
			// every key is there, with a value of the key
			for i := int64(0); i < n; i++ {
				key := r.m1(k.seq.at(r, IntC(i)), "Key")
				v, has := r.mapGet(hm, key, r.T("Value"))
				r.must(has, "HashMap: a key is missing")
				want := r.m1(k.seq.at(r, IntC(i)), "Value")
				for j := i + 1; j < n; j++ {
					e := k.seq.at(r, IntC(j))
					if r.Decide(r.eqVal(r.m1(e, "Key"), key)) {
						want = nil
					}
				}
				if want != nil {
					r.same(v, want, "HashMap: value")
				}
			}
			for _, u := range mv.ups {
				found := False
				for i := int64(0); i < n; i++ {
					found = Or(found, r.eqVal(u.k, r.m1(k.seq.at(r, IntC(i)), "Key")))
				}
				r.must(found, "HashMap: a key that is not in the map")
			}
			return
		}
		u := mv.ups[0]
		r.same(u.loop.n, k.n, "HashMap: number of entries")
		i := r.index("k", k.n)
		r.same(subst(u.k, u.loop.j, i), r.m1(k.seq.at(r, i), "Key"), "HashMap: key")
		r.same(subst(u.v, u.loop.j, i), r.m1(k.seq.at(r, i), "Value"), "HashMap: value")
	})
}

func (r *Run) sparseLen(k *keyed) *Term {
	if r.Decide(Eq0(k.n)) {
		return IntC(0)
	}
	last := r.keyOf(k.seq.at(r, AddC(k.n, -1)))
	if r.Decide(Lt(last, IntC(0))) {
		return IntC(0)
	}
	return AddC(last, 1)
}

// sortedFrom: the slice is the sorted permutation (by key) of the expected
// entries.
func (r *Run) sortedFrom(got Val, what string, n *Term, at func(r *Run, i *Term) (Val, Val)) {
	s, ok := r.pick(got).(*SliceV)
	if !ok {
		r.violation("%s: %s", what, show(got))
	}
	r.same(s.len, n, what+": number of entries")
	if r.Decide(Eq0(n)) {
		return
	}
	segs := r.sliceSegs(s)
	i := r.index("k", n)
	x := r.segRead(segs, i)
	if t := r.sortedElem(x); t != nil {
		q := t.args[0].(*Term)
		src, ok := q.args[0].(*SeqV)
		if !ok {
			r.stuck("%s: sorted content %s", what, show(q))
		}
		r.same(src.n, n, what+": number of sorted entries")
		y := r.segRead(src.segs, i)
		k, v := at(r, i)
		r.same(r.m1(y, "Key"), k, what+": key before sorting")
		r.same(r.m1(y, "Value"), v, what+": value before sorting")
		r.ascending(q.args[1], what)
		return
	}
	// not sorted: the entries have to be in order as they are
	k, v := at(r, i)
	r.same(r.m1(x, "Key"), k, what+": key")
	r.same(r.m1(x, "Value"), v, what+": value")
	j := AddC(i, 1)
	if !r.Decide(Lt(j, n)) {
		return
	}
	y := r.segRead(segs, j)
	r.must(Not(r.keyLess(r.keyOf(y), r.keyOf(x))), "%s: the entries are neither sorted nor in key order", what)
}

// sortedElem: x is an element of a sorted sequence, or an entry made with the
// key and the value of one.
func (r *Run) sortedElem(x Val) *Term {
	is := func(v Val) *Term {
		if t, ok := v.(*Term); ok && t.op == "elem" {
			if q, ok := t.args[0].(*Term); ok && q.op == "sorted" {
				return t
			}
		}
		return nil
	}
	x = r.pick(x)
	if t := is(x); t != nil {
		return t
	}
	if _, ok := x.(*IfaceV); !ok {
		return nil
	}
	k, ok1 := r.pick(r.m1(x, "Key")).(*Term)
	v, ok2 := r.pick(r.m1(x, "Value")).(*Term)
	if !ok1 || !ok2 || k.op != "call:Key" || v.op != "call:Value" || k.args[0].key() != v.args[0].key() {
		return nil
	}
	return is(k.args[0])
}

// ascending: the recorded ordering is "key of the first < key of the second".
func (r *Run) ascending(sig Val, what string) {
	t, ok := sig.(*Term)
	r.e.obligations++
	i, j := Sym(SInt, "·i", nil), Sym(SInt, "·j", nil)
	good := false
	if ok {
		found := ""
		var ks []*Term
		subterms(t, func(x *Term) {
			if x.op == "call:Key" {
				ks = append(ks, x)
			}
		})
		for _, a := range ks {
			for _, b := range ks {
				ia, ib := a.args[0].(*Term), b.args[0].(*Term)
				if ia.op != "elem" || ib.op != "elem" || ia.args[1] != Val(i) || ib.args[1] != Val(j) {
					continue
				}
				if t == r.keyLess(a, b) || t == Not(r.keyLess(b, a)) {
					good = true
				}
				found = r.keyLess(a, b).String()
			}
		}
		_ = found
	}
	if !good {
		r.violation("%s: entries are sorted by %s, not by ascending key", what, show(sig))
	}
}

// constructors: input not declared sorted is sorted.
func sortedConstructors(c *Check, names map[string]string) {
	for _, fn := range []string{"SparseList", "ImmutableMap", "SortedMap"} {
		elem, ok := names[fn]
		if !ok {
			continue
		}
		fn := fn
		c.obl(fn+"(unsorted)", func(r *Run) {
			xs := r.inSlice("xs", r.T(elem))
			r.nonNilElems(xs)
			seq := r.seqOf(xs)
			l := r.call(fn, xs, False)
			es := "Entries"
			if elem == "ListItem" {
				es = "Items"
			}
			r.sortedFrom(r.m1(l, es), fn, seq.n, func(r *Run, i *Term) (Val, Val) {
				return r.m1(seq.at(r, i), "Key"), r.m1(seq.at(r, i), "Value")
			})
		})
	}
}

// updateEvent: exactly one Update call happened, on recv with argument arg.
func (r *Run) updateEvent(recv, arg Val, what string) Val {
	if len(r.st.evs) != 1 || r.st.evs[0].op != "Update" || len(r.st.evs[0].args) != 2 {
		var ops []string
		for _, e := range r.st.evs {
			ops = append(ops, e.op)
		}
		r.violation("%s: expected exactly one Update call, got %v", what, ops)
	}
	e := r.st.evs[0]
	r.same(e.args[0], recv, what+": receiver of the Update call")
	r.same(e.args[1], arg, what+": argument of the Update call")
	return e.res[0]
}

func (r *Run) noEvents(what string) {
	r.e.obligations++
	for _, e := range r.st.evs {
		r.violation("%s: %s is called", what, e.op)
	}
}

// noOldWrites: nothing but memory allocated since is written.
func (r *Run) noOldWrites(from int, what string) {
	r.e.obligations++
	for _, w := range r.st.writes[from:] {
		if w.m == nil || !w.m.fresh {
			r.violation("%s: writes %s at %s in %s", what, w.m.name(), w.pos, w.fn)
		}
	}
}

func (m *Meta) name() string {
	switch {
	case m == nil:
		return "memory"
	case m.global != "":
		return m.global
	case m.origin != "":
		return m.origin
	case m.term != nil:
		return m.term.String()
	}
	return "allocated memory"
}

func denseUpdate(c *Check, ctor string) {
	c.obl(ctor+".UpdateAt", func(r *Run) {
		xs := r.inSlice("xs", r.T("Value"))
		seq := r.seqOf(xs)
		l := r.call(ctor, xs)
		u := r.in("u", r.T("Updater"))
		r.assume(Not(r.isNil(u)))
		i := r.inInt("i")
		ok := r.m1(l, "UpdateAt", i, u)
		if !r.Decide(And(Ge0(i), Lt(i, seq.n))) {
			r.same(ok, False, "UpdateAt outside the range")
			r.noEvents("UpdateAt outside the range")
			r.checkList(l, seq, "UpdateAt outside the range")
			return
		}
		old := seq.at(r, i)
		nv := r.norm(r.updateEvent(u, old, "UpdateAt"))
		r.same(ok, True, "UpdateAt within the range")
		r.checkList(l, ESeq{seq.n, func(r *Run, k *Term) Val {
			if r.Decide(EqI(k, i)) {
				return nv
			}
			return seq.at(r, k)
		}}, "UpdateAt")
	})
}

// keyedUpdate: a mutable keyed collection updates the first matching entry.
func keyedUpdate(c *Check, g keyedRig) {
	c.obl(g.name+"."+g.upd, func(r *Run) {
		k := r.newKeyed(g, "key")
		u := r.in("u", r.T("Updater"))
		r.assume(Not(r.isNil(u)))
		w := len(r.st.writes)
		ok := r.m1(k.l, g.upd, k.key, u)
		r.noOldWrites(w, g.upd)
		if r.Decide(EqI(k.lo, k.up)) {
			r.same(ok, False, g.upd+" of an absent key")
			r.noEvents(g.upd + " of an absent key")
			return
		}
		x := k.seq.at(r, k.lo)
		r.same(ok, r.updateEvent(x, u, g.upd), g.upd+": result")
	})
}

// storedUpdate: an entry a mutable collection stores itself can be updated.
func storedUpdate(c *Check, g keyedRig) {
	for _, op := range []string{g.put, g.ins, g.insAll} {
		op := op
		c.obl(g.name+"."+op+"+"+g.upd, func(r *Run) {
			r.fastAppends(Sym(SBool, "fast", types.Typ[types.Bool]))
			k := r.newKeyed(g, "key")
			v := r.in("v", r.T("Value"))
			var arg Val = v
			if op == g.insAll {
				arg = r.sliceLit(r.T("Value"), v)
			}
			res := r.m1(k.l, op, k.key, arg)
			u := r.in("u", r.T("Updater"))
			r.assume(Not(r.isNil(u)))
			ents := r.pick(r.m1(res, g.es)).(*SliceV)
			x := r.readElem(ents, k.lo)
			ok := r.m1(x, "Update", u)
			nv := r.norm(r.updateEvent(u, r.norm(v), g.upd+" after "+op))
			r.same(ok, True, g.upd+" after "+op)
			r.same(r.m1(r.readElem(r.pick(r.m1(res, g.es)).(*SliceV), k.lo), "Value"), nv, g.upd+" after "+op+": value")
		})
	}
}

// itemUpdate: in-place update of an item or entry.
func itemUpdate(c *Check, ctor string, key func(r *Run) Val, mutable bool) {
	c.obl(ctor+".Update", func(r *Run) {
		kv, v := key(r), r.in("v", r.T("Value"))
		x := r.call(ctor, kv, v)
		u := r.in("u", r.T("Updater"))
		r.assume(Not(r.isNil(u)))
		ok := r.m1(x, "Update", u)
		if mutable {
			nv := r.norm(r.updateEvent(u, v, ctor+".Update"))
			r.same(ok, True, ctor+".Update")
			r.same(r.m1(x, "Value"), nv, ctor+": value after Update")
		} else {
			r.noEvents(ctor + ".Update")
			r.same(ok, False, ctor+".Update")
			r.same(r.m1(x, "Value"), v, ctor+": value after Update")
		}
		r.same(r.m1(x, "Key"), kv, ctor+": key after Update")
	})
}

func intKey(r *Run) Val { return r.inInt("key") }
func strKey(r *Run) Val { return Sym(SStr, "key", types.Typ[types.String]) }

func checkC04(c *Check) {
	keyedChecks(c, sparseRig())
	sortedConstructors(c, map[string]string{"SparseList": "ListItem"})
	keyedUpdate(c, sparseRig())
	storedUpdate(c, sparseRig())
	itemUpdate(c, "MutableItem", intKey, true)
	itemUpdate(c, "ImmutableItem", intKey, false)
}

func checkC05(c *Check) {
	keyedChecks(c, mapRig("ImmutableMap"))
	keyedChecks(c, mapRig("SortedMap"))
	sortedConstructors(c, map[string]string{"ImmutableMap": "MapEntry", "SortedMap": "MapEntry"})
	keyedUpdate(c, mapRig("SortedMap"))
	storedUpdate(c, mapRig("SortedMap"))
	itemUpdate(c, "MutableEntry", strKey, true)
	itemUpdate(c, "ImmutableEntry", strKey, false)
}
