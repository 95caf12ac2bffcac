package main

// ---- C22: equality of collections

// eqTerm: the elements x and y are equal.
func (r *Run) eqTerm(x, y *Term) *Term {
	nx, ny := r.Decide(IsNilAtom(x)), r.Decide(IsNilAtom(y))
	switch {
	case nx && ny:
		return True
	case nx || ny:
		// nil equals nil and Null, whichever side is asked (C20)
		t := x
		if nx {
			t = y
		}
		if r.Decide(EqI(kindOf(t), IntC(kindNULL))) {
			r.assume(equalAtom(x, y))
			return True
		}
		r.assume(Not(equalAtom(x, y)))
		return False
	}
	return equalAtom(x, y)
}

// equalAtom: x.Equal(y) for arbitrary values; symmetric by C20 to C22.
func equalAtom(x, y *Term) *Term {
	return App(SBool, "call:Equal", nil, x, y)
}

func checkC22(c *Check) {
	c.rule("a.Equal(b) of two lists or two maps: true exactly if they have the same length and Equal elements at an arbitrary position (maps: equal keys as well; sparse receivers: the same items); no index is out of range; false for other kinds")
	c.noPanic = false
	for _, g := range collRigs() {
		g := g
		for _, h := range collRigs() {
			h := h
			what := g.name + ".Equal(" + h.name + ")"
			if (g.kind == "map") != (h.kind == "map") {
				c.obl(what, func(r *Run) {
					a, _ := r.coll(g, "a·")
					b, _ := r.coll(h, "b·")
					r.iff(r.m1(a.v, "Equal", r.iface(b.v)), False, what)
				})
				continue
			}
			c.obl(what+" is total", func(r *Run) {
				a, _ := r.coll(g, "a·")
				b, _ := r.coll(h, "b·")
				r.truth(r.m1(a.v, "Equal", r.iface(b.v)), what)
			})
			if g.kind != h.kind {
				continue // a sparse list and a dense one: totality
			}
			c.obl(what+": true only for equal contents", func(r *Run) {
				a, xs := r.coll(g, "a·")
				b, ys := r.coll(h, "b·")
				if !r.truth(r.m1(a.v, "Equal", r.iface(b.v)), what) {
					return
				}
				r.must(EqI(a.n, b.n), "%s: true for different lengths", what)
				k := r.index("k", a.n)
				x, y := r.readElem(xs, k), r.readElem(ys, k)
				if g.kind != "list" {
					r.must(r.keyEq(r.keyOf(x), r.keyOf(y)), "%s: true although a key differs", what)
					x, y = r.m1(x, "Value"), r.m1(y, "Value")
				}
				r.must(r.eqTerm(x.(*Term), y.(*Term)), "%s: true although an element differs", what)
			})
			c.obl(what+": true for equal contents", func(r *Run) {
				a, xs := r.coll(g, "a·")
				b, ys := r.coll(h, "b·")
				r.assume(EqI(a.n, b.n))
				yat := r.seqOf(ys)
				null := r.choose(2) == 1
				r.forAllElems(xs, IntC(0), a.n, func(j, x *Term) []*Term {
					y := yat.at(r, j).(*Term)
					var cs []*Term
					if g.kind != "list" {
						cs = append(cs, r.keyEq(r.keyOf(x), r.keyOf(y)))
						x, y = r.valueOf(x), r.valueOf(y)
					}
					if null {
						return append(cs, IsNilAtom(x), IsNilAtom(y))
					}
					return append(cs, Not(IsNilAtom(x)), Not(IsNilAtom(y)), equalAtom(x, y))
				})
				if g.kind == "sparse" && r.Decide(Gt(a.n, IntC(0))) {
					// the last items are at the same index
					last := AddC(a.n, -1)
					r.hint(r.seqOf(xs).at(r, last))
					r.hint(yat.at(r, last))
					r.assume(r.keyEq(r.keyOf(r.seqOf(xs).at(r, last)), r.keyOf(yat.at(r, last))))
				}
				r.must(BoolC(r.truth(r.m1(a.v, "Equal", r.iface(b.v)), what)), "%s: false for equal contents", what)
			})
		}
		for _, h := range scalarRigs() {
			if h.kind != "NUMBER" {
				continue // C20
			}
			h := h
			c.obl(g.name+".Equal("+h.name+")", func(r *Run) {
				a, _ := r.coll(g, "a·")
				v, _ := h.mk(r)
				r.iff(r.m1(a.v, "Equal", r.iface(v)), False, g.name+".Equal("+h.name+")")
			})
		}
	}
	for _, n := range []string{"ImmutableItem", "MutableItem", "ImmutableEntry", "MutableEntry"} {
		n := n
		c.obl(n+".Equal", func(r *Run) {
			var k, o *Term
			it := "ListItem"
			if n[len(n)-4:] == "Item" {
				k = r.inInt("key")
			} else {
				k, it = strKey(r).(*Term), "MapEntry"
			}
			v := r.in("v", r.T("Value")).(*Term)
			e := r.call(n, k, v)
			x := Sym(SOpaque, "other", r.T(it))
			x.non = true
			o = r.keyOf(x)
			w := r.valueOf(x)
			r.iff(r.m1(e, "Equal", x), And(r.keyEq(k, o), r.eqTerm(v, w)), n+".Equal")
		})
	}
}

// valueOf: the value of an opaque item or entry.
func (r *Run) valueOf(x *Term) *Term {
	return r.opaqueVal(r.T("Value"), "call:Value", x).(*Term)
}

// coll builds the rig's collection with inputs of its own.
func (r *Run) coll(g collRig, pre string) (*coll, *SliceV) {
	r.pre = pre
	q := g.mk(r)
	r.pre = ""
	return q, q.src
}
