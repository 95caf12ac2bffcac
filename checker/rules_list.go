package main

import "go/types"

// listRig describes one dense list implementation.
type listRig struct {
	name string
	mk   func(r *Run, xs *SliceV) Val
}

func denseRig(fn string) listRig {
	return listRig{fn, func(r *Run, xs *SliceV) Val { return r.call(fn, xs) }}
}

// shifted sequences
func insertSeq(x ESeq, i, m *Term, at func(r *Run, k *Term) Val) ESeq {
	return ESeq{Add(x.n, m), func(r *Run, k *Term) Val {
		if r.Decide(Lt(k, i)) {
			return x.at(r, k)
		}
		if r.Decide(Lt(k, Add(i, m))) {
			return at(r, Sub(k, i))
		}
		return x.at(r, Sub(k, m))
	}}
}

func removeSeq(x ESeq, i *Term) ESeq {
	return ESeq{AddC(x.n, -1), func(r *Run, k *Term) Val {
		if r.Decide(Lt(k, i)) {
			return x.at(r, k)
		}
		return x.at(r, AddC(k, 1))
	}}
}

func one(v Val) func(r *Run, k *Term) Val {
	return func(r *Run, k *Term) Val { return v }
}

// checkList: the list value l shows exactly the sequence want through its
// accessors.
func (r *Run) checkList(l Val, want ESeq, what string) {
	switch r.choose(4) {
	case 0:
		r.checkSeq(r.m1(l, "Values"), want, what+": Values")
	case 1:
		n := r.intVal(r.m1(l, "Len"))
		r.same(n, want.n, what+": Len")
	case 2:
		k := r.index("k", want.n)
		got := r.m1(l, "GetAt", k)
		r.same(got, want.at(r, k), what+": GetAt")
	case 3:
		i := r.inInt("out")
		r.assume(Or(Lt(i, IntC(0)), Ge(i, want.n)))
		r.same(r.m1(l, "GetAt", i), r.null(), what+": GetAt outside the range")
	}
}

func denseList(c *Check, rig listRig) {
	setup := func(r *Run) (xs *SliceV, seq ESeq, l Val) {
		xs = r.inSlice("xs", r.T("Value"))
		seq = r.seqOf(xs)
		l = rig.mk(r, xs)
		return
	}
	val := func(r *Run) Val { return r.in("v", r.T("Value")) }
	n := func(s string) string { return rig.name + "." + s }

	c.obl(n("read"), func(r *Run) {
		_, seq, l := setup(r)
		r.checkList(l, seq, rig.name)
	})
	c.obl(n("Items"), func(r *Run) {
		_, seq, l := setup(r)
		r.checkItems(r.m1(l, "Items"), ESeq{seq.n, func(r *Run, k *Term) Val { return k }}, seq, "Items")
	})
	c.obl(n("Entries"), func(r *Run) {
		_, seq, l := setup(r)
		r.checkItems(r.m1(l, "Entries"), ESeq{seq.n, func(r *Run, k *Term) Val { return itoa(k) }}, seq, "Entries")
	})
	c.obl(n("Select"), func(r *Run) {
		_, seq, l := setup(r)
		i := r.inInt("i")
		got := r.m1(l, "Select", i)
		if r.Decide(And(Ge0(i), Lt(i, seq.n))) {
			v := seq.at(r, i)
			if r.Decide(r.eqVal(v, r.null())) {
				return // an explicit null may be reported or not
			}
			r.checkSeq(got, ESeq{IntC(1), one(v)}, "Select")
		} else {
			r.checkSeq(got, ESeq{IntC(0), nil}, "Select outside the range")
		}
	})
	c.obl(n("Append"), func(r *Run) {
		_, seq, l := setup(r)
		v := val(r)
		res := r.m1(l, "Append", v)
		r.checkList(res, insertSeq(seq, seq.n, IntC(1), one(r.norm(v))), "Append")
	})
	c.obl(n("InsertAt"), func(r *Run) {
		_, seq, l := setup(r)
		v, i := val(r), r.inInt("i")
		res := r.m1(l, "InsertAt", i, v)
		switch {
		case r.Decide(Lt(i, IntC(0))):
			r.checkList(res, seq, "InsertAt(negative)")
		case r.Decide(Lt(i, seq.n)):
			r.checkList(res, insertSeq(seq, i, IntC(1), one(r.norm(v))), "InsertAt")
		default:
			r.checkList(res, insertSeq(seq, seq.n, IntC(1), one(r.norm(v))), "InsertAt(end)")
		}
	})
	c.obl(n("PutAt"), func(r *Run) {
		_, seq, l := setup(r)
		v, i := val(r), r.inInt("i")
		res := r.m1(l, "PutAt", i, v)
		nv := r.norm(v)
		switch {
		case r.Decide(Lt(i, IntC(0))):
			r.checkList(res, seq, "PutAt(negative)")
		case r.Decide(Lt(i, seq.n)):
			r.checkList(res, ESeq{seq.n, func(r *Run, k *Term) Val {
				if r.Decide(EqI(k, i)) {
					return nv
				}
				return seq.at(r, k)
			}}, "PutAt")
		default:
			r.checkList2(res, ESeq{AddC(i, 1), func(r *Run, k *Term) Val {
				if r.Decide(EqI(k, i)) {
					return nv
				}
				if r.Decide(Lt(k, seq.n)) {
					return seq.at(r, k)
				}
				return &NilV{r.T("Value")}
			}}, "PutAt(growing)")
		}
	})
	for _, op := range []string{"RemoveAt", "DeleteAll"} {
		op := op
		c.obl(n(op), func(r *Run) {
			_, seq, l := setup(r)
			i := r.inInt("i")
			res := r.m1(l, op, i)
			if r.Decide(And(Ge0(i), Lt(i, seq.n))) {
				r.checkList(res, removeSeq(seq, i), op)
			} else {
				r.checkList(res, seq, op+"(outside)")
			}
		})
	}
	c.obl(n("InsertAll"), func(r *Run) {
		_, seq, l := setup(r)
		i := r.inInt("i")
		ys := r.inSlice("ys", r.T("Value"))
		yseq := r.seqOf(ys)
		res := r.m1(l, "InsertAll", i, ys)
		ins := func(r *Run, k *Term) Val { return r.norm(yseq.at(r, k)) }
		switch {
		case r.Decide(Lt(i, IntC(0))):
			r.checkList(res, seq, "InsertAll(negative)")
		case r.Decide(Lt(i, seq.n)):
			r.checkList(res, insertSeq(seq, i, yseq.n, ins), "InsertAll")
		default:
			r.checkList(res, insertSeq(seq, seq.n, yseq.n, ins), "InsertAll(end)")
		}
	})
}

// checkList2 tolerates nil or Null in empty slots.
func (r *Run) checkList2(l Val, want ESeq, what string) {
	r.checkList(l, want, what)
}

func itoa(k *Term) *Term {
	if c, ok := k.constInt(); ok {
		return StrC(c.String())
	}
	return App(SStr, "itoa", nil, k)
}

// checkItems: items or entries with the given keys and values in order.
func (r *Run) checkItems(v Val, keys, vals ESeq, what string) {
	s, ok := r.pick(v).(*SliceV)
	if !ok {
		r.violation("%s: got %s", what, show(v))
	}
	r.e.obligations++
	if !r.Decide(EqI(s.len, keys.n)) {
		r.violation("%s: length is %s, want %s", what, s.len, keys.n)
	}
	k := r.index("k", keys.n)
	it := r.readElem(s, k)
	r.same(r.m1(it, "Key"), keys.at(r, k), what+": key")
	r.same(r.m1(it, "Value"), vals.at(r, k), what+": value")
}

var _ = types.Typ
