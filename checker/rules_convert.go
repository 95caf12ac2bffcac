package main

import (
	"go/types"
	"math/big"
	"strings"
)

// ---- C41: conversions keep the value

const decPkg = "(github.com/shopspring/decimal.Decimal)."

// what a conversion step may lose.
const (
	exactStep   = ""
	nearestStep = "rounds to a double"
	cutStep     = "keeps 64 bits only"
	truncStep   = "drops the fraction"
	narrowStep  = "rounds to 32 bits"
	otherStep   = "is another number"
)

var convSteps = map[string][]string{
	"big.int": nil, "dec.int": nil, "dec.big": nil, "bigf.int": nil, "bigf.f64": nil, "dec.float": nil,
	"i2f": {nearestStep}, "bigf.Float64": {nearestStep},
	decPkg + "Float64.0": {nearestStep}, decPkg + "InexactFloat64": {nearestStep},
	"f2i": {truncStep, cutStep}, decPkg + "IntPart": {truncStep, cutStep},
	"big.Int64": {cutStep},
	"bigf.Int":  {truncStep}, "dec.BigInt": {truncStep}, decPkg + "Floor": {truncStep}, decPkg + "Ceil": {truncStep},
	decPkg + "Truncate": {truncStep}, decPkg + "Round": {truncStep},
	"f64to32": {narrowStep}, "dec.floatexp": {"rounds to a fixed number of digits"},
	"big.Neg": {otherStep}, "big.Abs": {otherStep}, "dec.Coefficient": {otherStep}, "fneg": {otherStep}, "math.Abs": {otherStep},
	decPkg + "Neg": {otherStep}, decPkg + "Abs": {otherStep},
}

// mayLose: what a conversion between two number types may lose.
var mayLose = map[string]map[string]bool{
	"Long/Double":    {nearestStep: true},
	"Double/Long":    {truncStep: true, cutStep: true},
	"Double/BigInt":  {truncStep: true},
	"BigInt/Long":    {cutStep: true},
	"BigInt/Double":  {nearestStep: true},
	"Decimal/Long":   {truncStep: true, cutStep: true},
	"Decimal/BigInt": {truncStep: true},
	"Decimal/Double": {nearestStep: true},
}

func checkC41(c *Check) {
	c.rule("the result of a conversion is built from the converted number by steps none of which loses what the target type can hold: no detour over a double for integers, none over 64 bits for big numbers, none over an integer for fractions; the infinities become the big integer and decimal zero")
	c.noPanic = false
	for _, g := range numberRigs() {
		for _, m := range []string{"Long", "Double", "BigInt", "Decimal"} {
			g, m := g, m
			c.obl(g.name+" to "+m, func(r *Run) {
				v := r.build(g, "")
				src := r.numberIn(g.name)
				n0 := len(r.st.f.list)
				what := g.name + "." + m
				if g.name == "Double" && m != "Double" && m != "Long" {
					if r.Decide(isNaNAtom(src)) {
						return // C27
					}
				}
				res := r.m1(v, m)
				var got *Term
				if m == "BigInt" {
					got = r.bigCell(res)
				} else if t, ok := r.pick(res).(*Term); ok {
					got = t
				} else {
					r.stuck("%s yields %s", what, show(res))
				}
				if g.name == "Double" && (m == "BigInt" || m == "Decimal") && r.Decide(isInfAtom(src, 0)) {
					r.zeroNumber(m, res, what+" of an infinity")
					return
				}
				if g.name == "Double" && m == "Long" && r.Decide(isNaNAtom(src)) {
					return // C27
				}
				r.converted(got, src, g.name+"/"+m, n0, what)
			})
		}
	}
}

// numberIn is the payload the rig's number was built from.
func (r *Run) numberIn(name string) *Term {
	switch name {
	case "Long":
		return Sym(SInt, "v", types.Typ[types.Int64])
	case "Double":
		return Sym(SFloat, "v", types.Typ[types.Float64])
	case "BigInt":
		return r.bigCell(r.inBig("big"))
	}
	return r.in("dec", r.e.pkg.Func("Decimal").Signature.Params().At(0).Type()).(*Term)
}

// converted: got is src, converted without losing more than it may.
func (r *Run) converted(got, src *Term, pair string, n0 int, what string) {
	r.e.obligations++
	if got == src || r.st.f.congr(got, src) {
		return
	}
	allowed := mayLose[pair]
	// conditions on the number that were found true on this path
	var guards []*Term
	for _, l := range r.st.f.list[n0:] {
		if mentions(l, func(t *Term) bool { return t == src }) == nil {
			continue
		}
		if mentions(l, func(t *Term) bool {
			return t.op == "isNaN" || t.op == "isPosInf" || t.op == "isNegInf" || t.op == "isnil"
		}) == nil {
			guards = append(guards, l)
		}
	}
	for t := got; t != src; {
		if t.sort == SInt && t.op == "" || len(t.args) == 0 {
			if src.sort == SInt && t.sort == SInt {
				r.must(EqI(t, src), "%s: %s in place of the number", what, t)
				return
			}
			if len(guards) > 0 || mentions(t, func(x *Term) bool { return x == src }) != nil {
				r.stuck("%s yields %s", what, got)
			}
			r.violation("%s yields %s whatever the number is", what, got)
		}
		steps, known := convSteps[t.op]
		x, ok := t.args[0].(*Term)
		if !known || !ok || t.op == "dec.big" && !r.entails(Eq0(r.intVal(t.args[1]))) || len(t.args) > 1 && strings.HasPrefix(t.op, decPkg) && !r.entails(Eq0(r.intVal(t.args[1]))) {
			r.stuck("%s yields %s", what, got)
		}
		for _, s := range steps {
			if allowed[s] {
				continue
			}
			switch {
			case t.op == "bigf.Float64" && x.op == "bigf.f64":
				continue
			case t.op == "big.Int64" && r.bigFits(x):
				continue
			case s == nearestStep && x.sort == SInt:
				// exact up to 53 bits
				lim := IntB(new(big.Int).Lsh(bigOne, 53))
				if r.Decide(And(Le(x, lim), Ge(x, Neg(lim)))) {
					continue
				}
			case s == truncStep && r.wholeNumber(x):
				continue
			case s == cutStep && t.op == "f2i" && fits64(guards, x):
				continue
			case s == cutStep && !boundsSize(guards):
				// the conditions leave the size open
			case len(guards) > 0:
				r.stuck("%s under a condition on the number: %s", what, got)
			}
			r.violation("%s %s: %s", what, s, got)
		}
		t = x
	}
}

// wholeNumber: x is known to have no fraction.
func (r *Run) wholeNumber(x *Term) bool {
	if x.sort == SInt || x.op == "big.int" || x.op == "dec.int" {
		return true
	}
	for _, l := range r.st.f.list {
		if l.op == decPkg+"IsInteger" && l.args[0] == Val(x) {
			return true
		}
	}
	return false
}

// floatBound reads g as a bound on x: below or above a constant; ok is false
// for other conditions.
func floatBound(g, x *Term) (upper, lower *big.Rat, strict, ok bool) {
	pos := true
	if g.op == "not" {
		pos = false
		g = g.args[0].(*Term)
	}
	if g.op != "flt" && g.op != "fle" || g.sort != SBool {
		return
	}
	strict = g.op == "flt"
	a, b := g.args[0].(*Term), g.args[1].(*Term)
	if !pos {
		a, b, strict = b, a, !strict
	}
	num := func(t *Term) *big.Rat {
		if t.op != "flt" || t.sort != SFloat {
			return nil
		}
		q, _ := new(big.Rat).SetString(t.s)
		return q
	}
	abs := func(t *Term) bool { return t.op == "math.Abs" && t.args[0] == Val(x) }
	switch {
	case num(b) != nil && a == x:
		return num(b), nil, strict, true
	case num(b) != nil && abs(a):
		return num(b), new(big.Rat).Neg(num(b)), strict, true
	case num(a) != nil && b == x:
		return nil, num(a), strict, true
	case num(a) != nil && abs(b):
		// at least so big, whatever the sign
		return nil, nil, strict, true
	}
	return
}

// fits64: the conditions keep x, truncated, within 64 bits.
func fits64(guards []*Term, x *Term) bool {
	two63 := new(big.Rat).SetInt(new(big.Int).Lsh(bigOne, 63))
	neg63 := new(big.Rat).Neg(two63)
	up, low := false, false
	for _, g := range guards {
		u, l, strict, ok := floatBound(g, x)
		if !ok {
			continue
		}
		if u != nil && (u.Cmp(two63) < 0 || strict && u.Cmp(two63) == 0) {
			up = true
		}
		if l != nil && l.Cmp(neg63) >= 0 {
			low = true
		}
	}
	return up && low
}

// boundsSize: some condition may limit how big the number is, other than by
// comparing it (or its bit length, see bigFits) with a constant.
func boundsSize(guards []*Term) bool {
	free := map[string]bool{decPkg + "IsInteger": true, decPkg + "Exponent": true, decPkg + "IsPositive": true, decPkg + "IsNegative": true, "big.BitLen": true}
	for _, g := range guards {
		found := false
		subterms(g, func(t *Term) {
			found = found || free[t.op]
			if t.sort == SFloat {
				if _, _, _, ok := floatBound(g, t); ok {
					found = true
				}
			}
		})
		if !found {
			return true
		}
	}
	return false
}
