package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Val is an abstract value. All Vals are immutable; the mutable part of the
// abstract state is State.heap, which maps object ids to Vals.
type Val interface {
	key() string // canonical; equal keys = equal values
}

type Sort int

const (
	SInt Sort = iota
	SBool
	SStr
	SFloat
	SOpaque // interface, pointer, func, chan, map, other: see typ
)

// Term is a hash-consed symbolic scalar.
type Term struct {
	id   int
	sort Sort
	op   string
	args []Val
	k    *big.Int // constant part of lin / int constant
	mono []mono   // op == "lin"
	s    string   // string constant / name
	typ  types.Type
	lo   *big.Int // intrinsic range of int atoms
	hi   *big.Int
	bnd  bool // mentions a bound/iteration variable
	non  bool // opaque pointer/interface known non-nil by construction
}

type mono struct {
	c *big.Int
	a *Term
}

func (t *Term) key() string { return "t" + strconv.Itoa(t.id) }

type interner struct {
	m map[string]*Term
	n int
}

var tab = &interner{m: map[string]*Term{}}

func intern(k string, mk func() *Term) *Term {
	if t, ok := tab.m[k]; ok {
		return t
	}
	t := mk()
	tab.n++
	t.id = tab.n
	tab.m[k] = t
	return t
}

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

// ---- constructors

func IntC(n int64) *Term { return IntB(bi(n)) }

func IntB(n *big.Int) *Term {
	return intern("i"+n.String(), func() *Term { return &Term{sort: SInt, op: "lin", k: new(big.Int).Set(n)} })
}

var (
	True  = intern("true", func() *Term { return &Term{sort: SBool, op: "true"} })
	False = intern("false", func() *Term { return &Term{sort: SBool, op: "false"} })
)

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

func StrC(s string) *Term {
	return intern("s"+strconv.Quote(s), func() *Term { return &Term{sort: SStr, op: "str", s: s} })
}

func FloatC(f string) *Term {
	return intern("f"+f, func() *Term { return &Term{sort: SFloat, op: "flt", s: f} })
}

func argsKey(args []Val) string {
	var sb strings.Builder
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(a.key())
	}
	return sb.String()
}

// App builds an uninterpreted application. typ selects the intrinsic range of ints.
func App(sort Sort, op string, typ types.Type, args ...Val) *Term {
	ts := ""
	if typ != nil {
		ts = typeKey(typ)
	}
	if op == "call:Equal" && len(args) == 2 {
		// Equal is symmetric (C20 to C22)
		x, ok1 := args[0].(*Term)
		y, ok2 := args[1].(*Term)
		if ok1 && ok2 && x.id > y.id {
			args = []Val{y, x}
		}
	}
	k := fmt.Sprintf("a%d|%s|%s|%s", sort, op, ts, argsKey(args))
	return intern(k, func() *Term {
		t := &Term{sort: sort, op: op, args: args, typ: typ}
		for _, a := range args {
			if mentionsBound(a) {
				t.bnd = true
			}
		}
		if sort == SInt && typ != nil {
			t.lo, t.hi = typeRange(typ)
		}
		return t
	})
}

// AppR is App with an explicit intrinsic range.
func AppR(op string, lo, hi *big.Int, args ...Val) *Term {
	t := App(SInt, op, nil, args...)
	if t.lo == nil {
		t.lo = lo
	}
	if t.hi == nil {
		t.hi = hi
	}
	return t
}

// Sym is a named symbol.
func Sym(sort Sort, name string, typ types.Type) *Term {
	ts := ""
	if typ != nil {
		ts = typeKey(typ)
	}
	return intern(fmt.Sprintf("y%d|%s|%s", sort, name, ts), func() *Term {
		t := &Term{sort: sort, op: "sym", s: name, typ: typ}
		if sort == SInt && typ != nil {
			t.lo, t.hi = typeRange(typ)
		}
		return t
	})
}

// BoundVar is an iteration variable (non-negative integer).
func BoundVar(name string) *Term {
	return intern("b|"+name, func() *Term {
		return &Term{sort: SInt, op: "var", s: name, bnd: true, lo: bigZero}
	})
}

// samePath: witness packages that share a path; their types are distinct.
var samePath sync.Map

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if n, ok := samePath.Load(p); ok {
			return n.(string)
		}
		return p.Path()
	})
}

// typeRange gives the value range of integer types. Plain int is treated as
// a mathematical integer within the 64 bit range.
func typeRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	w, uns := intWidth(b)
	if w == 0 {
		return nil, nil
	}
	if uns {
		return bigZero, new(big.Int).Sub(pow2(w), bigOne)
	}
	return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), bigOne)
}

func intWidth(b *types.Basic) (w uint, unsigned bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	}
	return 0, false
}

// ---- linear arithmetic

func (t *Term) isConst() bool { return t.op == "lin" && len(t.mono) == 0 }

func (t *Term) constInt() (*big.Int, bool) {
	if t.sort == SInt && t.isConst() {
		return t.k, true
	}
	return nil, false
}

func (t *Term) int64() (int64, bool) {
	if c, ok := t.constInt(); ok && c.IsInt64() {
		return c.Int64(), true
	}
	return 0, false
}

func lin(t *Term) (*big.Int, []mono) {
	if t.op == "lin" {
		return t.k, t.mono
	}
	return bigZero, []mono{{bigOne, t}}
}

func mkLin(k *big.Int, ms []mono) *Term {
	// normalise: drop zeros, sort by id
	out := ms[:0:0]
	for _, m := range ms {
		if m.c.Sign() != 0 {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].a.id < out[j].a.id })
	if len(out) == 0 {
		return IntB(k)
	}
	if len(out) == 1 && k.Sign() == 0 && out[0].c.Cmp(bigOne) == 0 {
		return out[0].a
	}
	var sb strings.Builder
	sb.WriteString("l")
	sb.WriteString(k.String())
	for _, m := range out {
		sb.WriteString("|")
		sb.WriteString(m.c.String())
		sb.WriteString("*")
		sb.WriteString(strconv.Itoa(m.a.id))
	}
	return intern(sb.String(), func() *Term {
		t := &Term{sort: SInt, op: "lin", k: k, mono: out}
		for _, m := range out {
			if m.a.bnd {
				t.bnd = true
			}
		}
		return t
	})
}

func linComb(a *Term, ca *big.Int, b *Term, cb *big.Int) *Term {
	ka, ma := lin(a)
	kb, mb := lin(b)
	k := new(big.Int).Mul(ka, ca)
	k.Add(k, new(big.Int).Mul(kb, cb))
	acc := map[*Term]*big.Int{}
	var order []*Term
	add := func(ms []mono, c *big.Int) {
		for _, m := range ms {
			v, ok := acc[m.a]
			if !ok {
				v = new(big.Int)
				acc[m.a] = v
				order = append(order, m.a)
			}
			v.Add(v, new(big.Int).Mul(m.c, c))
		}
	}
	add(ma, ca)
	add(mb, cb)
	var ms []mono
	for _, a := range order {
		ms = append(ms, mono{acc[a], a})
	}
	return mergeBytes(k, ms)
}

// mergeBytes recomposes low(v,n) + 256^n*byte(v,n) into low(v,n+1).
func mergeBytes(k *big.Int, ms []mono) *Term {
	for {
		done := true
	scan:
		for i, m := range ms {
			if m.c.Sign() == 0 {
				continue
			}
			v, n, ok := asLow(m.a)
			if !ok {
				continue
			}
			for j, o := range ms {
				if o.a.op != "byte" || o.c.Sign() == 0 || i == j {
					continue
				}
				ov := o.a.args[0].(*Term)
				oj, _ := o.a.args[1].(*Term).int64()
				if ov != v || oj != int64(n) {
					continue
				}
				want := new(big.Int).Mul(m.c, pow2(uint(8*n)))
				if want.Cmp(o.c) != 0 {
					continue
				}
				nm := append([]mono{}, ms...)
				nm[i] = mono{m.c, Low(v, n+1)}
				nm[j] = mono{new(big.Int), o.a}
				// fold duplicates / linear results
				t := mkLin(k, nil)
				for _, x := range nm {
					if x.c.Sign() != 0 {
						t2 := scale(x.a, x.c)
						k1, m1 := lin(t)
						k2, m2 := lin(t2)
						t = mkLinSum(new(big.Int).Add(k1, k2), m1, m2)
					}
				}
				k, ms = lin(t)
				done = false
				break scan
			}
		}
		if done {
			return mkLin(k, ms)
		}
	}
}

func mkLinSum(k *big.Int, a, b []mono) *Term {
	acc := map[*Term]*big.Int{}
	var order []*Term
	for _, l := range [][]mono{a, b} {
		for _, m := range l {
			v, ok := acc[m.a]
			if !ok {
				v = new(big.Int)
				acc[m.a] = v
				order = append(order, m.a)
			}
			v.Add(v, m.c)
		}
	}
	var ms []mono
	for _, a := range order {
		ms = append(ms, mono{acc[a], a})
	}
	return mkLin(k, ms)
}

func scale(t *Term, c *big.Int) *Term {
	k, ms := lin(t)
	nm := make([]mono, len(ms))
	for i, m := range ms {
		nm[i] = mono{new(big.Int).Mul(m.c, c), m.a}
	}
	return mkLin(new(big.Int).Mul(k, c), nm)
}

func Add(a, b *Term) *Term { return linComb(a, bigOne, b, bigOne) }
func Sub(a, b *Term) *Term { return linComb(a, bigOne, b, bi(-1)) }
func Neg(a *Term) *Term    { return scale(a, bi(-1)) }
func AddC(a *Term, n int64) *Term {
	return Add(a, IntC(n))
}

// Byte is byte j (0 = least significant) of the integer v in two's complement.
func Byte(v *Term, j int) *Term {
	if c, ok := v.constInt(); ok {
		x := new(big.Int).Rsh(c, uint(8*j))
		return IntB(x.And(x, bi(255)))
	}
	v = modReduce(v, j+1)
	if v.op == "shr" {
		if c, ok := v.args[1].(*Term).int64(); ok && c%8 == 0 && c >= 0 {
			return Byte(v.args[0].(*Term), j+int(c/8))
		}
	}
	if c, ok := v.constInt(); ok {
		x := new(big.Int).Rsh(c, uint(8*j))
		return IntB(x.And(x, bi(255)))
	}
	if v.op == "low" {
		n, _ := v.args[1].(*Term).int64()
		if int64(j) < n {
			return Byte(v.args[0].(*Term), j)
		}
		return IntC(0)
	}
	if ds, ok := digits(v); ok {
		if d := ds[j]; d != nil {
			return d
		}
		return IntC(0)
	}
	if v.lo != nil && v.hi != nil && j == 0 && v.lo.Sign() >= 0 && v.hi.Cmp(bi(255)) <= 0 {
		return v
	}
	if v.lo != nil && v.hi != nil && v.lo.Sign() >= 0 && v.hi.Cmp(pow2(uint(8*j))) < 0 {
		return IntC(0)
	}
	return AppR("byte", bigZero, bi(255), v, IntC(int64(j)))
}

// digits: v is a sum of bytes at distinct base-256 positions.
func digits(v *Term) (map[int]*Term, bool) {
	if v.op != "lin" || len(v.mono) == 0 || v.k.Sign() != 0 {
		return nil, false
	}
	ds := map[int]*Term{}
	for _, m := range v.mono {
		pos, c := 0, m.c
		if c.Sign() <= 0 {
			return nil, false
		}
		tz := int(c.TrailingZeroBits())
		if tz%8 != 0 || c.BitLen() != tz+1 {
			return nil, false
		}
		pos = tz / 8
		put := func(p int, d *Term) bool {
			if ds[p] != nil {
				return false
			}
			ds[p] = d
			return true
		}
		a := m.a
		switch {
		case a.op == "low":
			n, _ := a.args[1].(*Term).int64()
			for i := 0; i < int(n); i++ {
				if !put(pos+i, Byte(a.args[0].(*Term), i)) {
					return nil, false
				}
			}
		case a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(bi(255)) <= 0:
			if !put(pos, a) {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return ds, true
}

// modReduce drops parts of v that do not matter modulo 256^n.
func modReduce(v *Term, n int) *Term {
	m := pow2(uint(8 * n))
	if strings.HasPrefix(v.op, "sext") {
		w, _ := strconv.Atoi(v.op[4:])
		if 8*n <= w {
			return modReduce(v.args[0].(*Term), n)
		}
	}
	if v.op != "lin" || len(v.mono) == 0 {
		return v
	}
	k := v.k
	ch := false
	if k.Sign() != 0 && new(big.Int).Mod(k, m).Sign() == 0 {
		k, ch = bigZero, true
	}
	var ms []mono
	for _, x := range v.mono {
		if new(big.Int).Mod(x.c, m).Sign() == 0 {
			ch = true
			continue
		}
		ms = append(ms, x)
	}
	if !ch {
		return v
	}
	return mkLin(k, ms)
}

// Low is v mod 256^n.
func Low(v *Term, n int) *Term {
	if n == 1 {
		return Byte(v, 0)
	}
	v = modReduce(v, n)
	if c, ok := v.constInt(); ok {
		return IntB(new(big.Int).Mod(c, pow2(uint(8*n))))
	}
	if v.lo != nil && v.hi != nil && v.lo.Sign() >= 0 && v.hi.Cmp(pow2(uint(8*n))) < 0 {
		return v
	}
	if v.op == "low" {
		m, _ := v.args[1].(*Term).int64()
		if int64(n) <= m {
			return Low(v.args[0].(*Term), n)
		}
		return v
	}
	return AppR("low", bigZero, new(big.Int).Sub(pow2(uint(8*n)), bigOne), v, IntC(int64(n)))
}

func asLow(t *Term) (v *Term, n int, ok bool) {
	switch t.op {
	case "byte":
		if j, _ := t.args[1].(*Term).int64(); j == 0 {
			return t.args[0].(*Term), 1, true
		}
	case "low":
		m, _ := t.args[1].(*Term).int64()
		return t.args[0].(*Term), int(m), true
	}
	return nil, 0, false
}

// ---- booleans

func gcdOf(t *Term) *big.Int {
	g := new(big.Int)
	for _, m := range t.mono {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	return g
}

// Ge0 is t >= 0.
func Ge0(t *Term) *Term {
	if c, ok := t.constInt(); ok {
		return BoolC(c.Sign() >= 0)
	}
	if t.op == "lin" {
		if g := gcdOf(t); g.Cmp(bigOne) > 0 {
			nm := make([]mono, len(t.mono))
			for i, m := range t.mono {
				nm[i] = mono{new(big.Int).Div(m.c, g), m.a}
			}
			// floor division of the constant
			k := new(big.Int)
			mod := new(big.Int)
			k.DivMod(t.k, g, mod)
			t = mkLin(k, nm)
		}
	}
	if t.lo != nil && t.lo.Sign() >= 0 {
		return True
	}
	return intern("g"+strconv.Itoa(t.id), func() *Term {
		return &Term{sort: SBool, op: "ge0", args: []Val{t}, bnd: t.bnd}
	})
}

func Ge(a, b *Term) *Term { return Ge0(Sub(a, b)) }
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(AddC(Sub(b, a), -1)) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// Eq0 is t == 0.
func Eq0(t *Term) *Term {
	if c, ok := t.constInt(); ok {
		return BoolC(c.Sign() == 0)
	}
	if t.op == "lin" {
		g := gcdOf(t)
		if g.Cmp(bigOne) > 0 {
			if new(big.Int).Mod(t.k, g).Sign() != 0 {
				return False
			}
			nm := make([]mono, len(t.mono))
			for i, m := range t.mono {
				nm[i] = mono{new(big.Int).Quo(m.c, g), m.a}
			}
			t = mkLin(new(big.Int).Quo(t.k, g), nm)
		}
		if t.op == "lin" && t.mono[0].c.Sign() < 0 {
			t = scale(t, bi(-1))
		}
	}
	return intern("e"+strconv.Itoa(t.id), func() *Term {
		return &Term{sort: SBool, op: "eq0", args: []Val{t}, bnd: t.bnd}
	})
}

func EqI(a, b *Term) *Term { return Eq0(Sub(a, b)) }

func Not(t *Term) *Term {
	switch t.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return t.args[0].(*Term)
	case "ge0":
		return Ge0(AddC(Neg(t.args[0].(*Term)), -1))
	case "and", "or":
		var out []*Term
		for _, a := range t.args {
			out = append(out, Not(a.(*Term)))
		}
		if t.op == "and" {
			return Or(out...)
		}
		return And(out...)
	}
	return intern("n"+strconv.Itoa(t.id), func() *Term {
		return &Term{sort: SBool, op: "not", args: []Val{t}, bnd: t.bnd}
	})
}

func And(ts ...*Term) *Term { return nary("and", True, False, ts) }
func Or(ts ...*Term) *Term  { return nary("or", False, True, ts) }

func nary(op string, unit, zero *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if t == unit {
			continue
		}
		if t == zero {
			return zero
		}
		parts := []*Term{t}
		if t.op == op {
			parts = nil
			for _, a := range t.args {
				parts = append(parts, a.(*Term))
			}
		}
		for _, p := range parts {
			if !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	for _, t := range out {
		if seen[Not1(t)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	args := make([]Val, len(out))
	bnd := false
	for i, t := range out {
		args[i] = t
		bnd = bnd || t.bnd
	}
	return intern(op+argsKey(args), func() *Term {
		return &Term{sort: SBool, op: op, args: args, bnd: bnd}
	})
}

// Not1 negates literals without recursing into and/or (used for clash tests).
func Not1(t *Term) *Term {
	if t.op == "and" || t.op == "or" {
		return intern("n"+strconv.Itoa(t.id), func() *Term {
			return &Term{sort: SBool, op: "not", args: []Val{t}, bnd: t.bnd}
		})
	}
	return Not(t)
}

// Cmp is the three-way comparison of two strings / byte sequences / ordered
// opaque values: an integer atom in -1..1, antisymmetric by construction.
func Cmp(kind string, a, b Val) *Term {
	ka, kb := a.key(), b.key()
	if ka == kb {
		return IntC(0)
	}
	if ta, ok := a.(*Term); ok && ta.op == "str" {
		if tb, ok := b.(*Term); ok && tb.op == "str" {
			return IntC(int64(strings.Compare(ta.s, tb.s)))
		}
	}
	if len(ka) > len(kb) || (len(ka) == len(kb) && ka > kb) {
		return Neg(AppR("cmp:"+kind, bi(-1), bigOne, b, a))
	}
	return AppR("cmp:"+kind, bi(-1), bigOne, a, b)
}

// IsNil is the nil test of an opaque value.
func IsNilAtom(x *Term) *Term {
	if x.non {
		return False
	}
	return App(SBool, "isnil", nil, x)
}

// ---- printing

func (t *Term) String() string { return showT(t, 0) }

func showT(t *Term, d int) string {
	if d > 8 {
		return "…"
	}
	switch t.op {
	case "lin":
		var sb strings.Builder
		first := true
		for _, m := range t.mono {
			s := showT(m.a, d+1)
			switch {
			case m.c.Cmp(bigOne) == 0:
				if !first {
					sb.WriteString("+")
				}
			case m.c.Cmp(bi(-1)) == 0:
				sb.WriteString("-")
			default:
				if !first && m.c.Sign() > 0 {
					sb.WriteString("+")
				}
				sb.WriteString(m.c.String() + "*")
			}
			sb.WriteString(s)
			first = false
		}
		if t.k.Sign() != 0 || first {
			if !first && t.k.Sign() > 0 {
				sb.WriteString("+")
			}
			sb.WriteString(t.k.String())
		}
		return sb.String()
	case "true", "false":
		return t.op
	case "str":
		return strconv.Quote(t.s)
	case "flt", "sym", "var":
		return t.s
	case "ge0":
		a := t.args[0].(*Term)
		// split into positive and negative part
		var l, r []string
		for _, m := range a.mono {
			s := showT(m.a, d+1)
			ac := new(big.Int).Abs(m.c)
			if ac.Cmp(bigOne) != 0 {
				s = ac.String() + "*" + s
			}
			if m.c.Sign() > 0 {
				l = append(l, s)
			} else {
				r = append(r, s)
			}
		}
		if a.op != "lin" {
			return showT(a, d+1) + ">=0"
		}
		if a.k.Sign() > 0 {
			l = append(l, a.k.String())
		} else if a.k.Sign() < 0 {
			r = append(r, new(big.Int).Neg(a.k).String())
		}
		if len(l) == 0 {
			l = []string{"0"}
		}
		if len(r) == 0 {
			r = []string{"0"}
		}
		return strings.Join(l, "+") + ">=" + strings.Join(r, "+")
	case "eq0":
		return showT(t.args[0].(*Term), d+1) + "==0"
	case "not":
		return "!(" + showT(t.args[0].(*Term), d+1) + ")"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, showV(a, d+1))
	}
	return t.op + "(" + strings.Join(as, ",") + ")"
}

var lamCache = map[*Term]bool{}

// lam: t mentions a bound variable other than the number of a loop iteration
// under analysis (which is fixed there like any other integer).
func (t *Term) lam() bool {
	if !t.bnd {
		return false
	}
	if v, ok := lamCache[t]; ok {
		return v
	}
	v := freeVar(t, nil)
	lamCache[t] = v
	return v
}

// freeVar: v mentions a bound variable outside the sequence that binds it.
func freeVar(v Val, bound []*Term) bool {
	switch v := v.(type) {
	case *Term:
		if !v.bnd {
			return false
		}
		if v.op == "var" && !strings.HasPrefix(v.s, "j:") {
			for _, b := range bound {
				if b == v {
					return false
				}
			}
			return true
		}
		for _, a := range v.args {
			if freeVar(a, bound) {
				return true
			}
		}
		for _, m := range v.mono {
			if freeVar(m.a, bound) {
				return true
			}
		}
	case *SeqV:
		if freeVar(v.n, bound) {
			return true
		}
		for _, s := range v.segs {
			if freeVar(s.lo, bound) || freeVar(s.hi, bound) {
				return true
			}
			in := bound
			if s.kv != nil {
				in = append(bound[:len(bound):len(bound)], s.kv)
			}
			if freeVar(s.body, in) {
				return true
			}
		}
	case nil:
	default:
		free := false
		subterms(v, func(t *Term) {
			if t.op == "var" && t.bnd && !strings.HasPrefix(t.s, "j:") {
				for _, b := range bound {
					if b == t {
						return
					}
				}
				free = true
			}
		})
		return free
	}
	return false
}
