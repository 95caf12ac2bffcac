package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- equality of scalars, numbers

// named: a constructor of an arbitrary value of one kind.
type valueRig struct {
	name, kind, typ string
	scalar          bool
	mk              func(r *Run) Val
}

var collKind = map[string]string{"list": "LIST", "sparse": "LIST", "map": "MAP"}

func valueRigs() []valueRig {
	var out []valueRig
	for _, g := range scalarRigs() {
		g := g
		out = append(out, valueRig{g.name, g.kind, g.typ, true, func(r *Run) Val { v, _ := g.mk(r); return v }})
	}
	for _, g := range collRigs() {
		g := g
		out = append(out, valueRig{g.name, collKind[g.kind], "", false, func(r *Run) Val {
			q := g.mk(r)
			r.collLen = q.n
			return q.v
		}})
	}
	return out
}

// build makes the rig's value with inputs of its own.
func (r *Run) build(g valueRig, pre string) Val {
	r.pre = pre
	v := r.iface(g.mk(r))
	r.pre = ""
	return v
}

// iff: the truth value got is exactly want.
func (r *Run) iff(got Val, want *Term, what string) {
	r.e.obligations++
	g, ok := r.pick(got).(*Term)
	if !ok {
		r.stuck("%s: result %s", what, show(got))
	}
	if g.key() == want.key() {
		return
	}
	if r.Decide(want) {
		if !r.Decide(g) {
			r.violation("%s: reports false for equal values", what)
		}
	} else if r.Decide(g) {
		r.violation("%s: reports true for values that differ", what)
	}
}

// pkgValue: a package variable as a Value.
func (r *Run) pkgValue(name string) Val {
	v := r.pkgVar(name)
	if _, ok := v.(*IfaceV); ok {
		return v
	}
	return &IfaceV{r.e.pkg.Var(name).Type().Underlying().(*types.Pointer).Elem(), v}
}

// nilValue is the nil Value.
func (r *Run) nilValue() Val { return &NilV{r.T("Value")} }

// content: the payload a scalar was built from, as a comparable term.
func (r *Run) content(g valueRig, pre string) *Term {
	r.pre = pre
	defer func() { r.pre = "" }()
	switch g.name {
	case "Boolean":
		return Sym(SBool, pre+"b", types.Typ[types.Bool])
	case "Utf8":
		return Sym(SStr, pre+"s", types.Typ[types.String])
	case "Raw", "Unknown":
		return r.bytesStr(r.inSlice(pre+"data", byteT))
	}
	return nil
}

func checkC20(c *Check) {
	c.rule("a.Equal(b) on null, bool, string and unknown values: false for different kinds; otherwise true exactly if the payload bytes are equal; nil equals nil and Null only, in both orders")
	c.noPanic = false
	rigs := valueRigs()
	for _, g := range rigs {
		g := g
		c.obl(g.name+".Equal(nil)", func(r *Run) {
			v := r.build(g, "a·")
			want := BoolC(g.kind == "NULL")
			r.iff(r.m1(v, "Equal", r.nilValue()), want, g.name+".Equal(nil)")
			r.iff(r.call("Equal", v, r.nilValue()), want, "Equal("+g.name+", nil)")
			r.iff(r.call("Equal", r.nilValue(), v), want, "Equal(nil, "+g.name+")")
		})
		for _, h := range rigs {
			h := h
			if !g.scalar && !h.scalar || g.kind == "NUMBER" && h.kind == "NUMBER" || !g.scalar && h.kind == "NUMBER" || !h.scalar && g.kind == "NUMBER" {
				continue // C21, C22
			}
			c.obl(g.name+".Equal("+h.name+")", func(r *Run) {
				a, b := r.build(g, "a·"), r.build(h, "b·")
				want := BoolC(g.kind == h.kind)
				if g.kind == h.kind && g.kind != "NULL" {
					x, y := r.content(g, "a·"), r.content(h, "b·")
					if x.sort == SBool {
						want = r.eqVal(x, y)
					} else {
						want = r.strEq(x, y)
					}
				}
				r.iff(r.m1(a, "Equal", b), want, g.name+".Equal("+h.name+")")
				r.iff(r.call("Equal", a, b), want, "Equal("+g.name+", "+h.name+")")
			})
		}
		if g.scalar && g.kind != "NUMBER" {
			c.obl(g.name+" equals itself", func(r *Run) {
				v := r.build(g, "a·")
				r.iff(r.m1(v, "Equal", v), True, g.name+" compared with itself")
			})
		}
	}
	c.obl("Equal(nil, nil)", func(r *Run) {
		r.iff(r.call("Equal", r.nilValue(), r.nilValue()), True, "Equal(nil, nil)")
	})
	c.obl("Equal of arbitrary values", func(r *Run) {
		v := r.in("val", r.T("Value")).(*Term)
		r.assume(Not(IsNilAtom(v)))
		r.iff(r.call("Equal", r.nilValue(), v), EqI(kindOf(v), IntC(kindNULL)), "Equal(nil, value)")
	})
}

// ---- C26

func checkC26(c *Check) {
	c.rule("Kind of every value is the constant of the interface it implements, Type the constant of its number or string type, Class its dynamic type; Stringers of the tag types name every named constant differently")
	c.noPanic = false
	ifaces := map[string]string{"BOOL": "Bool", "NUMBER": "Number", "STRING": "String", "LIST": "List", "MAP": "Map", "UNKNOWN": "Extension"}
	for _, g := range valueRigs() {
		g := g
		c.obl(g.name, func(r *Run) {
			v := r.build(g, "")
			r.same(r.intVal(r.m1(v, "Kind")), r.cons(g.kind), g.name+": Kind")
			t := r.dynType(v)
			r.e.obligations++
			if n := ifaces[g.kind]; n != "" {
				it, ok := r.T(n).Underlying().(*types.Interface)
				if !ok || !types.Implements(t, it) {
					r.violation("%s: kind %s, but the value does not implement %s", g.name, g.kind, n)
				}
			}
			if g.typ != "" {
				r.same(r.intVal(r.m1(v, "Type")), r.cons(g.typ), g.name+": Type")
			}
			if !r.isTypeOf(r.m1(v, "Class"), t) {
				r.violation("%s: Class is not %s", g.name, shortType(t))
			}
		})
	}
	// every other type of the package that is a value
	seen := map[string]bool{}
	c.pre(func(r *Run) {
		for _, g := range valueRigs() {
			func() {
				if t := c.e.rigType(func(q *Run) Val { return q.build(g, "") }); t != nil {
					seen[typeKey(t)] = true
				}
			}()
		}
	})
	sc := c.e.tpkg.Scope()
	vt := c.e.typ("Value").Underlying().(*types.Interface)
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || seen[typeKey(tn.Type())] {
			continue
		}
		t := tn.Type()
		if !types.Implements(t, vt) {
			if t = types.NewPointer(t); !types.Implements(t, vt) {
				continue
			}
		}
		c.obl("type "+n, func(r *Run) {
			x := r.in("x", t)
			k, ok := r.intVal(r.m1(r.iface(x), "Kind")).int64()
			if !ok {
				r.stuck("Kind of %s", n)
			}
			r.e.obligations++
			for kind, i := range ifaces {
				if w, ok := r.cons(kind).int64(); ok && w == k {
					if it, ok := r.T(i).Underlying().(*types.Interface); ok && !types.Implements(t, it) {
						r.violation("%s: kind %s, but it does not implement %s", n, kind, i)
					}
				}
			}
		})
	}
	for _, tag := range []string{"Kind", "NumberType", "StringType"} {
		tag := tag
		c.obl(tag+" names", func(r *Run) {
			names := map[string]string{}
			vals := map[string]string{}
			for _, n := range sc.Names() {
				k, ok := sc.Lookup(n).(*types.Const)
				if !ok || !types.Identical(k.Type(), r.T(tag)) {
					continue
				}
				s, ok := r.pick(r.m1(&IfaceV{r.T(tag), r.cons(n)}, "String")).(*Term)
				if !ok || s.op != "str" {
					r.stuck("name of %s", n)
				}
				r.e.obligations += 2
				if m := names[s.s]; m != "" {
					r.violation("%s: %s and %s are both called %q", tag, m, n, s.s)
				}
				if m := vals[k.Val().ExactString()]; m != "" {
					r.violation("%s: %s and %s have the same value", tag, m, n)
				}
				names[s.s], vals[k.Val().ExactString()] = n, n
			}
			// the name of a value that is no constant is nobody's
			x := r.inInt("other")
			for _, v := range sortedStr(vals) {
				r.assume(Not(EqI(x, r.cons(vals[v]))))
			}
			s, ok := r.pick(r.m1(&IfaceV{r.T(tag), x}, "String")).(*Term)
			if ok && s.op == "str" && names[s.s] != "" {
				r.violation("%s: other values are called %q like %s", tag, s.s, names[s.s])
			}
		})
	}
}

func sortedStr(m map[string]string) []string {
	n := map[string]int{}
	for k := range m {
		n[k] = 0
	}
	return sortedKeys(n)
}

// isTypeOf: v is the reflection of type t, as far as this can be told.
func (r *Run) isTypeOf(v Val, t types.Type) bool {
	r.e.obligations++
	x, ok := r.pick(v).(*Term)
	if !ok || !strings.HasPrefix(x.op, "reflect.type:") {
		r.stuck("class %s", show(v))
	}
	return x.op == "reflect.type:"+typeKey(t)
}

// ---- numbers

func numberRigs() []valueRig {
	var out []valueRig
	for _, g := range valueRigs() {
		if g.kind == "NUMBER" {
			out = append(out, g)
		}
	}
	return out
}

// lossy conversions: what they drop cannot be compared any more.
var lossy = map[string]string{
	"f2i": "a double converted to an integer", "big.Int64": "a big integer converted to 64 bits", "bigf.Int": "a double converted to an integer",
	"dec.BigInt": "a decimal converted to an integer", "f64to32": "a double converted to 32 bits", "wrap": "a wrapped integer",
	"(github.com/shopspring/decimal.Decimal).IntPart": "the integer part of a decimal",
	"(github.com/shopspring/decimal.Decimal).Floor":   "a decimal rounded down", "(github.com/shopspring/decimal.Decimal).Ceil": "a decimal rounded up",
	"(github.com/shopspring/decimal.Decimal).Round": "a rounded decimal", "(github.com/shopspring/decimal.Decimal).Truncate": "a truncated decimal",
	"(github.com/shopspring/decimal.Decimal).Coefficient": "a decimal's coefficient",
	"big.CmpAbs": "absolute values",
}

func (t *Term) firstArg() (*Term, bool) {
	if len(t.args) == 0 {
		return nil, false
	}
	x, ok := t.args[0].(*Term)
	return x, ok
}

func (t *Term) hasArg(x *Term) bool {
	for _, a := range t.args {
		if a == Val(x) {
			return true
		}
	}
	return false
}

// mentions finds the first term with one of the operators.
func mentions(v Val, f func(t *Term) bool) *Term {
	seen := map[*Term]bool{}
	var rec func(v Val) *Term
	rec = func(v Val) *Term {
		switch x := v.(type) {
		case *Term:
			if seen[x] {
				return nil
			}
			seen[x] = true
			if f(x) {
				return x
			}
			for _, m := range x.mono {
				if y := rec(m.a); y != nil {
					return y
				}
			}
			for _, a := range x.args {
				if y := rec(a); y != nil {
					return y
				}
			}
		case *IfaceV:
			return rec(x.v)
		case *StructV:
			for _, a := range x.fields {
				if y := rec(a); y != nil {
					return y
				}
			}
		case *TupleV:
			for _, a := range x.vs {
				if y := rec(a); y != nil {
					return y
				}
			}
		case *NewV:
			return rec(x.cell)
		case *SeqV:
			for _, s := range x.segs {
				if y := rec(s.body); y != nil {
					return y
				}
			}
		}
		return nil
	}
	return rec(v)
}

func checkC21(c *Check) {
	c.rule("a.Equal(b) and b.Equal(a) agree for all pairs of number types, no comparison uses a truncated operand, NaN equals nothing, every other number equals itself")
	c.noPanic = false
	rigs := numberRigs()
	for i, g := range rigs {
		for j, h := range rigs {
			g, h := g, h
			c.obl(g.name+"/"+h.name, func(r *Run) {
				a, b := r.build(g, "a·"), r.build(h, "b·")
				f0 := len(r.st.f.list)
				x := r.truth(r.m1(a, "Equal", b), g.name+".Equal")
				what := g.name + ".Equal(" + h.name + ")"
				r.e.obligations++
				for _, l := range r.st.f.list[f0:] {
					if t := mentions(l, func(t *Term) bool { return lossy[t.op] != "" }); t != nil {
						if t.op == "big.Int64" && r.entails(App(SBool, "big.IsInt64", nil, t.args[0])) {
							continue
						}
						// unequal absolute values differ
						if t.op == "big.CmpAbs" && !x {
							continue
						}
						// a number is compared with its own integer part
						if u, ok := t.firstArg(); ok && strings.HasPrefix(t.op, "(github.com/shop") && mentions(l, func(v *Term) bool { return v.hasArg(t) && v.hasArg(u) }) != nil {
							continue
						}
						r.violation("%s decides by %s: %s", what, lossy[t.op], t)
					}
				}
				if i <= j {
					y := r.truth(r.m1(b, "Equal", a), h.name+".Equal")
					r.e.obligations++
					if x != y {
						r.violation("%s is %v but the other way round %v", what, x, y)
					}
				}
				for n, v := range map[string]Val{g.name: a, h.name: b} {
					if n == "Double" && x {
						d := Sym(SFloat, map[bool]string{true: "a·v", false: "b·v"}[v == a], types.Typ[types.Float64])
						r.must(Not(isNaNAtom(d)), "%s: NaN equals a number", what)
					}
				}
			})
		}
		g := g
		c.obl(g.name+" equals itself", func(r *Run) {
			v := r.build(g, "")
			want := True
			if g.name == "Double" {
				want = Not(isNaNAtom(Sym(SFloat, "v", types.Typ[types.Float64])))
			}
			r.iff(r.m1(v, "Equal", v), want, g.name+" compared with itself")
		})
		for _, h := range valueRigs() {
			h := h
			if h.kind == "NUMBER" {
				continue
			}
			c.obl(g.name+"/"+h.name, func(r *Run) {
				a, b := r.build(g, "a·"), r.build(h, "b·")
				r.iff(r.m1(a, "Equal", b), False, g.name+".Equal("+h.name+")")
			})
		}
	}
	c.obl("NaN", func(r *Run) {
		nan := r.pkgValue("Nan")
		h := rigs[r.choose(len(rigs))]
		b := r.build(h, "b·")
		r.iff(r.m1(nan, "Equal", b), False, "Nan.Equal("+h.name+")")
		r.iff(r.m1(b, "Equal", nan), False, h.name+".Equal(Nan)")
		r.iff(r.m1(nan, "Equal", nan), False, "Nan.Equal(Nan)")
	})
}

// truth decides a boolean result.
func (r *Run) truth(v Val, what string) bool {
	t, ok := r.pick(v).(*Term)
	if !ok {
		r.stuck("%s: result %s", what, show(v))
	}
	return r.Decide(t)
}

var numMethods = []string{"IsNaN", "Long", "Double", "BigInt", "Decimal"}

func checkC27(c *Check) {
	c.rule("every conversion of every number returns, big integers are never nil; a long converts exactly, NaN to zero; Add, Subtract and Equal of every pair return a number")
	rigs := numberRigs()
	for _, g := range rigs {
		g := g
		for _, m := range numMethods {
			m := m
			c.obl(g.name+"."+m, func(r *Run) {
				v := r.build(g, "")
				res := r.m1(v, m)
				what := g.name + "." + m
				if m == "BigInt" {
					r.must(Not(r.isNil(res)), "%s: nil", what)
				}
				if g.name == "Long" {
					x := Sym(SInt, "v", types.Typ[types.Int64])
					switch m {
					case "IsNaN":
						r.iff(res, False, what)
					case "Long":
						r.same(res, x, what)
					case "Double":
						r.sameOp(res, "i2f", x, what)
					case "BigInt":
						r.sameOp(r.bigCell(res), "big.int", x, what)
					case "Decimal":
						r.sameOp(res, "dec.int", x, what)
					}
				}
				if g.name == "Double" {
					d := Sym(SFloat, "v", types.Typ[types.Float64])
					if m == "IsNaN" {
						r.iff(res, isNaNAtom(d), what)
						return
					}
					if m == "Double" {
						r.same(res, d, what)
						return
					}
					if r.Decide(isNaNAtom(d)) {
						r.zeroNumber(m, res, what+" of NaN")
					}
				}
				if m == "IsNaN" && g.name != "Double" {
					r.iff(res, False, what)
				}
			})
		}
		for _, h := range rigs {
			h := h
			for _, m := range []string{"Add", "Subtract", "Equal"} {
				m := m
				c.obl(g.name+"."+m+"("+h.name+")", func(r *Run) {
					a, b := r.build(g, "a·"), r.build(h, "b·")
					res := r.m1(a, m, b)
					if m != "Equal" {
						r.must(Not(r.isNil(res)), "%s.%s(%s): nil", g.name, m, h.name)
						if n, ok := r.bigOf(res); ok {
							r.must(Not(r.isNil(n)), "%s.%s(%s): a nil big integer", g.name, m, h.name)
						}
					}
				})
			}
		}
	}
	c.obl("BigInt(nil)", func(r *Run) {
		t := r.e.pkg.Func("BigInt").Signature.Params().At(0).Type()
		v := r.iface(r.call("BigInt", &NilV{t}))
		m := append([]string{"String", "MarshalJSON", "MarshalBinary"}, numMethods...)
		for _, n := range m {
			r.m1(v, n)
		}
		r.must(Not(r.isNil(r.m1(v, "BigInt"))), "BigInt(nil): a nil big integer")
	})
}

// bigOf: the big integer of a big integer number.
func (r *Run) bigOf(v Val) (Val, bool) {
	if t := r.dynType(v); t == nil || !types.Identical(t, r.dynType(r.iface(r.call("BigInt", r.inBig("any"))))) {
		return nil, false
	}
	return r.m1(v, "BigInt"), true
}

// sameOp: res is the conversion op of exactly x; another way of converting is
// not judged.
func (r *Run) sameOp(res Val, op string, x *Term, what string) {
	r.e.obligations++
	t, ok := r.pick(res).(*Term)
	if ok && t.op == op {
		r.same(t.args[0], x, what)
		return
	}
	if ok && mentions(t, func(y *Term) bool { return lossy[y.op] != "" || y.op == "i2f" }) != nil {
		r.violation("%s is not exact: %s", what, t)
	}
	r.stuck("%s yields %s", what, show(res))
}

// zeroNumber: the conversion result is zero.
func (r *Run) zeroNumber(m string, res Val, what string) {
	switch m {
	case "Long":
		r.same(res, IntC(0), what)
	case "BigInt":
		t := r.bigCell(res)
		r.e.obligations++
		if t.op == "big.int" {
			r.same(t.args[0], IntC(0), what)
		} else if t.op == "bigf.Int" || t.op == "dec.BigInt" {
			r.violation("%s is %s", what, t)
		} else {
			r.stuck("%s is %s", what, t)
		}
	case "Decimal":
		t, ok := r.pick(res).(*Term)
		r.e.obligations++
		if ok && (t.op == "dec.int" || t.op == "dec.float") {
			if z, ok := t.args[0].(*Term); ok && z.sort == SInt {
				r.same(z, IntC(0), what)
				return
			}
			r.violation("%s is %s", what, t)
		}
		r.stuck("%s is %s", what, show(res))
	}
}

func checkC28(c *Check) {
	c.rule("Add and Subtract yield the receiver's type, with the sum or difference of receiver and converted operand in this order; NaN if either double is; nothing that existed before is written")
	c.noPanic = false
	rigs := numberRigs()
	for _, g := range rigs {
		for _, h := range rigs {
			for _, m := range []string{"Add", "Subtract"} {
				g, h, m := g, h, m
				c.obl(g.name+"."+m+"("+h.name+")", func(r *Run) {
					a, b := r.build(g, "a·"), r.build(h, "b·")
					what := g.name + "." + m + "(" + h.name + ")"
					var x, y Val
					switch g.name {
					case "Long":
						x, y = r.m1(a, "Long"), r.m1(b, "Long")
					case "Double":
						x, y = r.m1(a, "Double"), r.m1(b, "Double")
					case "BigInt":
						x, y = r.bigCell(r.m1(a, "BigInt")), r.bigCell(r.m1(b, "BigInt"))
					case "Decimal":
						x, y = r.m1(a, "Decimal"), r.m1(b, "Decimal")
					}
					w := len(r.st.writes)
					res := r.m1(a, m, b)
					r.noOldWrites(w, what)
					r.e.obligations++
					if t := r.dynType(res); !types.Identical(t, r.dynType(a)) {
						r.violation("%s yields a %s", what, shortType(t))
					}
					p, q := x.(*Term), y.(*Term)
					switch g.name {
					case "Long":
						s := Add(p, q)
						if m == "Subtract" {
							s = Sub(p, q)
						}
						r.same(r.m1(res, "Long"), r.arith(s, types.Typ[types.Int64]), what)
					case "Double":
						d, ok := r.pick(r.m1(res, "Double")).(*Term)
						if !ok {
							r.stuck("%s yields %s", what, show(res))
						}
						if r.Decide(Or(isNaNAtom(p), isNaNAtom(q))) {
							if d.op == "sym" && d.s == "NaN" || d == p && r.entails(isNaNAtom(p)) || d == q && r.entails(isNaNAtom(q)) || d.op == "f+" || d.op == "f-" {
								return
							}
							r.violation("%s with NaN yields %s", what, d)
						}
						op := "f+"
						if m == "Subtract" {
							op = "f-"
						}
						r.result(d, fOp(op, p, q), what)
					case "BigInt":
						op := "big.Add"
						if m == "Subtract" {
							op = "big.Sub"
						}
						r.result(r.bigCell(r.m1(res, "BigInt")), commute(op, p, q), what)
					case "Decimal":
						op := "(github.com/shopspring/decimal.Decimal).Add"
						if m == "Subtract" {
							op = "(github.com/shopspring/decimal.Decimal).Sub"
						}
						r.result(r.m1(res, "Decimal"), commute(op, p, q), what)
					}
				})
			}
		}
	}
}

// result: got is the expected term; an operation the engine has no law for is
// not judged unless it is the expected one on other operands.
func (r *Run) result(got Val, want *Term, what string) {
	r.e.obligations++
	t, ok := r.pick(got).(*Term)
	if !ok {
		r.stuck("%s yields %s", what, show(got))
	}
	if t.key() == want.key() || r.st.f.congr(t, want) {
		return
	}
	known := map[string]bool{"f+": true, "f-": true, "big.Add": true, "big.Sub": true,
		"(github.com/shopspring/decimal.Decimal).Add": true, "(github.com/shopspring/decimal.Decimal).Sub": true}
	if t.sort == SFloat && mentions(t, func(y *Term) bool { return picksFloat[y.op] }) != nil {
		r.violation("%s yields %s, want %s", what, t, want)
	}
	if known[t.op] || len(t.args) == 0 || t == r.firstOperand(want, 0) || t == r.firstOperand(want, 1) {
		r.violation("%s yields %s, want %s", what, t, want)
	}
	r.stuck("%s yields %s", what, t)
}

// functions that yield other doubles than a sum does.
var picksFloat = map[string]bool{"math.Max": true, "math.Min": true, "math.Abs": true, "math.Floor": true, "math.Ceil": true, "math.Round": true,
	"math.Trunc": true, "math.Mod": true, "math.Dim": true, "math.Hypot": true, "math.Copysign": true}

func (r *Run) firstOperand(t *Term, i int) *Term {
	if i < len(t.args) {
		x, _ := t.args[i].(*Term)
		return x
	}
	return nil
}

// ---- C29

func checkC29(c *Check) {
	c.rule("ParseNumber, ParseString, ParseBoolean and ParseNull return a non-nil value for an arbitrary string; a number taken from a parser is only used if that parser reported no error, and a number taken from none is NaN unless the text is a fixed word")
	for _, fn := range []string{"ParseNumber", "ParseString", "ParseBoolean", "ParseNull"} {
		fn := fn
		c.obl(fn, func(r *Run) {
			s := Sym(SStr, "text", types.Typ[types.String])
			v := r.call(fn, s)
			r.e.obligations++
			if types.IsInterface(r.e.pkg.Func(fn).Signature.Results().At(0).Type()) {
				r.must(Not(r.isNil(v)), "%s: nil", fn)
			}
			if fn == "ParseBoolean" {
				return // false is the documented result for other text
			}
			used := false
			if n, ok := r.bigOf2(fn, v); ok {
				r.must(Not(r.isNil(n)), "%s: a nil big integer", fn)
				v = r.bigCell(n)
			}
			r.unchecked(fn, v, &used)
			if fn != "ParseNumber" || used {
				return
			}
			if t := mentions(v, func(t *Term) bool { return t.op == "sym" && t.s == "NaN" }); t != nil {
				return
			}
			if r.fixedText(s) {
				return
			}
			r.violation("%s: text that is not a number yields %s", fn, show(v))
		})
	}
}

func (r *Run) bigOf2(fn string, v Val) (Val, bool) {
	if fn != "ParseNumber" {
		return nil, false
	}
	return r.bigOf(v)
}

// fixedText: the path compared the text with a constant.
func (r *Run) fixedText(s *Term) bool {
	for _, l := range r.st.f.list {
		if l.op == "not" {
			continue
		}
		if mentions(l, func(t *Term) bool {
			return (t.op == "cmp:str" || t.op == "strlen" || t.op == "len") && len(t.args) > 0 && (t.args[0].key() == s.key() || len(t.args) > 1 && t.args[1].key() == s.key())
		}) != nil && r.eqConst(l, s) {
			return true
		}
	}
	return false
}

func (r *Run) eqConst(l, s *Term) bool {
	if r.entails(Eq0(strLen(s))) {
		return true
	}
	found := mentions(l, func(t *Term) bool {
		if t.op != "cmp:str" {
			return false
		}
		return r.entails(Eq0(t))
	})
	return found != nil
}

// unchecked: no parser's result is used where the parser reported an error.
func (r *Run) unchecked(fn string, v Val, used *bool) {
	mentions(v, func(t *Term) bool {
		if !strings.HasSuffix(t.op, ".0") || !strings.Contains(t.op, "Parse") && !strings.Contains(t.op, "Decode") && !strings.Contains(t.op, "Atoi") {
			return false
		}
		*used = true
		e := App(SOpaque, strings.TrimSuffix(t.op, ".0")+".1", types.Universe.Lookup("error").Type(), t.args...)
		r.must(IsNilAtom(e), "%s: uses the result of %s although it reports an error", fn, strings.TrimSuffix(t.op, ".0"))
		return false
	})
	if sl, ok := r.pick(v).(*SliceV); ok {
		r.unchecked(fn, r.freezeSlice(sl), used)
	}
	if iv, ok := r.pick(v).(*IfaceV); ok {
		if sl, ok := r.pick(iv.v).(*SliceV); ok {
			r.unchecked(fn, r.freezeSlice(sl), used)
		}
	}
}

var _ = fmt.Sprint
