package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the library's printers and parsers as inverse pairs, for the
// obligations about text read back (textOn): a printed text is kept as what it
// was printed from, next to the set of characters it can consist of.

const alnum = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// charset: the characters text t can consist of; ok is false if unknown.
func (r *Run) charset(t *Term) (string, bool) {
	switch t.op {
	case "str":
		return t.s, true
	case "hex":
		return "0123456789abcdef", true
	case "HEX":
		return "0123456789ABCDEF", true
	case "b64":
		return alnum + "+/-_=", true
	case "itoa":
		return "-0123456789", true
	case "boolstr":
		return "truefals", true
	case "fstr":
		s := "-0123456789.eE"
		d := t.args[0].(*Term)
		if !r.st.f.entails(Not(isInfAtom(d, 0))) {
			s += "+Inf"
		}
		if !r.st.f.entails(Not(isNaNAtom(d))) {
			s += "Na"
		}
		if strings.ContainsAny(t.args[1].(*Term).s, "eEgG") {
			s += "+"
		}
		return s, true
	case "substr":
		return r.charset(t.args[0].(*Term))
	case "concat":
		out := ""
		for _, a := range t.args {
			s, ok := r.charset(a.(*Term))
			if !ok {
				return "", false
			}
			out += s
		}
		return out, true
	}
	return "", false
}

func pieces(t *Term) []*Term {
	if t.op != "concat" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.args {
		out = append(out, a.(*Term))
	}
	return out
}

func joined(ps []*Term) *Term {
	s := StrC("")
	for _, p := range ps {
		s = strConcat(s, p)
	}
	return s
}

// cutAt splits a text at a position that is known to be a piece boundary or
// lies in a constant piece.
func (r *Run) cutAt(ps []*Term, at *Term) (a, b []*Term, ok bool) {
	off := IntC(0)
	for i, p := range ps {
		d := Sub(at, off)
		if d == IntC(0) || r.entails(Eq0(d)) {
			return ps[:i:i], ps[i:], true
		}
		if n, k := d.int64(); k && p.op == "str" && n > 0 && n < int64(len(p.s)) {
			a = append(append(a, ps[:i]...), StrC(p.s[:n]))
			b = append([]*Term{StrC(p.s[n:])}, ps[i+1:]...)
			return a, b, true
		}
		off = Add(off, strLen(p))
	}
	if r.entails(EqI(at, off)) {
		return ps, nil, true
	}
	return nil, nil, false
}

// textSub is s[lo:hi] of a text of known pieces.
func (r *Run) textSub(s, lo, hi *Term) (*Term, bool) {
	if s.op != "concat" {
		return nil, false
	}
	_, b, ok := r.cutAt(pieces(s), lo)
	if !ok {
		return nil, false
	}
	a, _, ok := r.cutAt(b, Sub(hi, lo))
	if !ok {
		return nil, false
	}
	return joined(a), true
}

// textIdx finds the piece position i lies in.
func (r *Run) textIdx(s, i *Term) *Term {
	_, b, ok := r.cutAt(pieces(s), i)
	if !ok || len(b) == 0 {
		return strIdx(s, i)
	}
	if b[0].op == "str" {
		return IntC(int64(b[0].s[0]))
	}
	return strIdx(b[0], IntC(0))
}

// find: where the first c of the text is; ok is false if unknown.
func (r *Run) textFind(s *Term, c byte) (*Term, bool) {
	off := IntC(0)
	for _, p := range pieces(s) {
		if p.op == "str" {
			if i := strings.IndexByte(p.s, c); i >= 0 {
				return AddC(off, int64(i)), true
			}
		} else if cs, ok := r.charset(p); !ok || strings.IndexByte(cs, c) >= 0 {
			return nil, false
		}
		off = Add(off, strLen(p))
	}
	return IntC(-1), true
}

// textKnown decides atoms on texts of known character sets.
func (r *Run) textKnown(c *Term) (bool, bool) {
	if c.op == "not" {
		v, ok := r.textKnown(c.args[0].(*Term))
		return !v, ok
	}
	if c.op != "eq0" && c.op != "ge0" {
		return false, false
	}
	k, ms := lin(c.args[0].(*Term))
	if len(ms) != 1 {
		return false, false
	}
	x := ms[0].a
	switch x.op {
	case "stridx":
		p, ok := x.args[0].(*Term)
		if !ok {
			return false, false
		}
		cs, ok := r.charset(p)
		if !ok || cs == "" {
			return false, false
		}
		if p.op == "itoa" || p.op == "fstr" && p.args[1].(*Term).s == "f" {
			// a sign comes first
			if at := x.args[1].(*Term); r.entails(Gt(at, IntC(0))) {
				cs = strings.NewReplacer("-", "", "+", "").Replace(cs)
			}
		}
		yes, no := false, false
		for i := 0; i < len(cs); i++ {
			v := new(big.Int).Mul(ms[0].c, bi(int64(cs[i])))
			v.Add(v, k)
			if c.op == "eq0" && v.Sign() == 0 || c.op == "ge0" && v.Sign() >= 0 {
				yes = true
			} else {
				no = true
			}
		}
		if yes != no {
			return yes, true
		}
	case "cmp:str":
		if k.Sign() != 0 || c.op != "eq0" {
			return false, false
		}
		a, b := x.args[0].(*Term), x.args[1].(*Term)
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[1].op != "str" || p[1].s == "" {
				continue
			}
			if f := pieces(p[0])[0]; f.op == "str" && !strings.HasPrefix(p[1].s, f.s) {
				return false, true
			}
			cs, ok := r.charset(p[0])
			if !ok {
				continue
			}
			for i := 0; i < len(p[1].s); i++ {
				if strings.IndexByte(cs, p[1].s[i]) < 0 {
					return false, true
				}
			}
		}
	}
	return false, false
}

func seqOf(v Val) (*SeqV, bool) {
	q, ok := v.(*SeqV)
	return q, ok
}

// constBytes: the bytes of a snapshot if all are known.
func (r *Run) constBytes(q *SeqV) ([]byte, bool) {
	n, ok := q.n.int64()
	if !ok || n > 64 {
		return nil, false
	}
	s := r.thaw(q).(*SliceV)
	var out []byte
	for i := int64(0); i < n; i++ {
		t, ok := r.pick(r.readElem(s, IntC(i))).(*Term)
		if !ok {
			return nil, false
		}
		b, ok := t.int64()
		if !ok {
			return nil, false
		}
		out = append(out, byte(b))
	}
	return out, true
}

func (r *Run) byteSlice(q *SeqV) *SliceV { return r.thaw(q).(*SliceV) }

func (r *Run) textErr(op string, s *Term) *Term {
	e := App(SOpaque, op+".err", types.Universe.Lookup("error").Type(), s)
	e.non = true
	return e
}

// bigAbs is |c|.
func (r *Run) bigAbs(c *Term) *Term {
	if c.op == "big.int" {
		if n, ok := c.args[0].(*Term).int64(); ok {
			if n < 0 {
				n = -n
			}
			return bigTerm("big.int", IntC(n))
		}
	}
	if r.Decide(Ge0(r.bigSign(c))) {
		return c
	}
	return bigTerm("big.Neg", c)
}

func (r *Run) bigSign(c *Term) *Term {
	switch c.op {
	case "big.int":
		if n, ok := c.args[0].(*Term).int64(); ok {
			switch {
			case n < 0:
				return IntC(-1)
			case n > 0:
				return IntC(1)
			}
			return IntC(0)
		}
	case "big.Neg":
		return Neg(r.bigSign(c.args[0].(*Term)))
	}
	return AppR("big.Sign", bi(-1), bigOne, c)
}

func bigNeg(c *Term) *Term {
	if c.op == "big.Neg" {
		return c.args[0].(*Term)
	}
	if c.op == "big.int" {
		if n, ok := c.args[0].(*Term).int64(); ok {
			return bigTerm("big.int", IntC(-n))
		}
	}
	return bigTerm("big.Neg", c)
}

// stdEnc: one of the standard encodings.
func stdEnc(v Val) string {
	s := show(v)
	for _, n := range []string{"RawStdEncoding", "RawURLEncoding", "StdEncoding", "URLEncoding"} {
		if strings.Contains(s, n) {
			return n
		}
	}
	return ""
}

func init() {
	str := func(r *Run, v Val) *Term { return r.pick(v).(*Term) }
	var find = func(r *Run, fn *ssa.Function, a []Val) []Val { return nil }
	find = func(r *Run, fn *ssa.Function, a []Val) []Val {
		s := str(r, a[0])
		c, ok := a[1].(*Term).int64()
		if p, isS := r.pick(a[1]).(*Term); isS && p.op == "str" && len(p.s) == 1 {
			c, ok = int64(p.s[0]), true
		}
		if ok && c >= 0 && c < 128 {
			if i, ok := r.textFind(s, byte(c)); ok {
				if fn.Signature.Results().At(0).Type() == types.Typ[types.Bool] {
					return []Val{Ge0(i)}
				}
				return []Val{i}
			}
			if s.op != "concat" {
				i := AppR("strings.IndexByte", bi(-1), nil, s, IntC(c))
				r.assume(Lt(i, strLen(s)))
				if r.Decide(Ge0(i)) {
					r.assume(EqI(strIdx(s, i), IntC(c)))
				} else {
					i = IntC(-1)
				}
				if fn.Signature.Results().At(0).Type() == types.Typ[types.Bool] {
					return []Val{Ge0(i)}
				}
				return []Val{i}
			}
		}
		return nil
	}
	hexEnc := func(r *Run, fn *ssa.Function, a []Val) []Val {
		q, ok := seqOf(r.freezeArg(a[0]))
		if !ok {
			return nil
		}
		if b, ok := r.constBytes(q); ok {
			const h = "0123456789abcdef"
			s := ""
			for _, x := range b {
				s += string([]byte{h[x>>4], h[x&15]})
			}
			return []Val{StrC(s)}
		}
		return []Val{App(SStr, "hex", nil, q)}
	}
	fmtInt := func(r *Run, fn *ssa.Function, a []Val) []Val {
		if len(a) > 1 {
			if b, ok := a[1].(*Term).int64(); !ok || b != 10 {
				return nil
			}
		}
		s := itoa(a[0].(*Term))
		if s.op == "itoa" {
			r.assume(Gt(strLen(s), IntC(0)))
			r.assume(Le(strLen(s), IntC(20)))
		}
		return []Val{s}
	}
	// equal coefficients: equal numbers if the exponents are equal too
	decCmp := func(r *Run, fn *ssa.Function, a []Val) []Val {
		x, ok1 := r.pick(a[0]).(*Term)
		y, ok2 := r.pick(a[1]).(*Term)
		if !ok1 || !ok2 {
			return nil
		}
		if x, y = decParts(x), decParts(y); x == nil || y == nil || x.args[0].key() != y.args[0].key() {
			return nil
		}
		if r.entails(Eq0(r.bigSign(x.args[0].(*Term)))) || r.Decide(EqI(x.args[1].(*Term), y.args[1].(*Term))) {
			return []Val{IntC(0)}
		}
		return []Val{IntC(1)} // either side
	}
	any := func(r *Run, fn *ssa.Function, a []Val) []Val {
		s, set := str(r, a[0]), str(r, a[1])
		if set.op != "str" {
			return nil
		}
		best := IntC(-1)
		for i := 0; i < len(set.s); i++ {
			at, ok := r.textFind(s, set.s[i])
			if !ok {
				return nil
			}
			if n, ok := at.int64(); ok && n < 0 {
				continue
			}
			if n, ok := best.int64(); ok && n < 0 {
				best = at
				continue
			}
			if r.Decide(Lt(at, best)) {
				best = at
			}
		}
		if fn.Signature.Results().At(0).Type() == types.Typ[types.Bool] {
			return []Val{Ge0(best)}
		}
		return []Val{best}
	}
	// same: texts without such characters stay as they are
	same := func(chars string) modelFn {
		return func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := str(r, a[0])
			if cs, ok := r.charset(s); ok && s.op != "str" && !strings.ContainsAny(cs, chars) {
				return []Val{s}
			}
			return nil
		}
	}
	prefix := func(r *Run, s, p *Term) (bool, bool) {
		if p.op != "str" {
			return false, false
		}
		for i := 0; i < len(p.s); i++ {
			if !r.Decide(Lt(IntC(int64(i)), strLen(s))) || !r.Decide(EqI(r.textIdx(s, IntC(int64(i))), IntC(int64(p.s[i])))) {
				return false, true
			}
		}
		return true, true
	}
	hasPrefix := func(r *Run, fn *ssa.Function, a []Val) []Val {
		has, ok := prefix(r, str(r, a[0]), str(r, a[1]))
		if !ok {
			return nil
		}
		return []Val{BoolC(has)}
	}
	cutPrefix := func(r *Run, fn *ssa.Function, a []Val) []Val {
		s, p := str(r, a[0]), str(r, a[1])
		has, ok := prefix(r, s, p)
		if !ok {
			return nil
		}
		if has {
			s = r.substr(s, IntC(int64(len(p.s))), strLen(s))
		}
		if fn.Signature.Results().Len() == 2 {
			return []Val{s, BoolC(has)}
		}
		return []Val{s}
	}
	cut := func(r *Run, fn *ssa.Function, a []Val) []Val {
		s, p := str(r, a[0]), str(r, a[1])
		if p.op != "str" || len(p.s) != 1 {
			return nil
		}
		at, ok := r.textFind(s, p.s[0])
		if !ok {
			return nil
		}
		if n, ok := at.int64(); ok && n < 0 {
			return []Val{s, StrC(""), False}
		}
		return []Val{r.substr(s, IntC(0), at), r.substr(s, AddC(at, 1), strLen(s)), True}
	}
	fold := func(r *Run, fn *ssa.Function, a []Val) []Val {
		s, p := str(r, a[0]), str(r, a[1])
		if s.op == "str" {
			s, p = p, s
		}
		cs, ok := r.charset(s)
		if !ok || p.op != "str" {
			return nil
		}
		for i := 0; i < len(p.s); i++ {
			if !strings.Contains(strings.ToLower(cs), strings.ToLower(p.s[i:i+1])) {
				return []Val{False}
			}
		}
		return nil
	}
	textModels = map[string]modelFn{
		"strings.ContainsAny": any, "strings.IndexAny": any, "strings.EqualFold": fold,
		"strings.HasPrefix": hasPrefix, "strings.TrimPrefix": cutPrefix, "strings.CutPrefix": cutPrefix, "strings.Cut": cut,
		"strings.ToLower": same("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), "strings.ToUpper": same("abcdefghijklmnopqrstuvwxyz"), "strings.TrimSpace": same(" \t\n\r\v\f"),
		"strings.IndexByte": find, "strings.IndexRune": find, "strings.ContainsRune": find, "strings.Index": find, "strings.Contains": find,
		"encoding/hex.EncodeToString": hexEnc,
		"encoding/hex.DecodeString": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := str(r, a[0])
			if s.op == "hex" || s.op == "HEX" {
				return []Val{r.byteSlice(s.args[0].(*SeqV)), r.nilErr()}
			}
			if s.op == "str" {
				var b []byte
				for i := 0; i+1 < len(s.s); i += 2 {
					h := strings.IndexByte("0123456789abcdef", s.s[i]|32)
					l := strings.IndexByte("0123456789abcdef", s.s[i+1]|32)
					if h < 0 || l < 0 {
						return []Val{r.byteSlice(&SeqV{byteT, IntC(0), nil}), r.textErr("hex", s)}
					}
					b = append(b, byte(h<<4|l))
				}
				var segs []Seg
				for i, x := range b {
					segs = append(segs, Seg{IntC(int64(i)), IntC(int64(i + 1)), nil, IntC(int64(x))})
				}
				sl := r.byteSlice(&SeqV{byteT, IntC(int64(len(b))), segs})
				if len(s.s)%2 == 1 {
					return []Val{sl, r.textErr("hex", s)}
				}
				return []Val{sl, r.nilErr()}
			}
			// text with something that is no digit
			for _, p := range pieces(s) {
				if p.op == "str" && strings.Trim(p.s, "0123456789abcdefABCDEF") != "" {
					return []Val{r.byteSlice(&SeqV{byteT, IntC(0), nil}), r.textErr("hex", s)}
				}
			}
			return nil
		},
		"(*encoding/base64.Encoding).EncodeToString": func(r *Run, fn *ssa.Function, a []Val) []Val {
			q, ok := seqOf(r.freezeArg(a[1]))
			if !ok || stdEnc(a[0]) == "" {
				return nil
			}
			t := App(SStr, "b64", nil, q, StrC(stdEnc(a[0])))
			return []Val{t}
		},
		"(*encoding/base64.Encoding).DecodeString": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := str(r, a[1])
			if s.op != "b64" || stdEnc(a[0]) == "" {
				return nil
			}
			q := s.args[0].(*SeqV)
			if s.args[1].(*Term).s == stdEnc(a[0]) || r.Decide(Eq0(q.n)) {
				return []Val{r.byteSlice(q), r.nilErr()}
			}
			// some bytes come out of one encoding as another one rejects
			return []Val{r.byteSlice(&SeqV{byteT, IntC(0), nil}), r.textErr("base64", s)}
		},
		"strconv.Itoa": fmtInt, "strconv.FormatInt": fmtInt, "strconv.FormatUint": fmtInt,
		"strconv.FormatBool": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := App(SStr, "boolstr", nil, a[0])
			r.assume(Gt(strLen(s), IntC(0)))
			return []Val{s}
		},
		"strconv.ParseBool": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if s := str(r, a[0]); s.op == "boolstr" {
				return []Val{s.args[0], r.nilErr()}
			}
			return nil
		},
		"strconv.ParseInt": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := str(r, a[0])
			base, ok1 := a[1].(*Term).int64()
			bits, ok2 := a[2].(*Term).int64()
			if !ok1 || !ok2 || base != 10 && base != 0 || bits != 64 {
				return nil
			}
			switch {
			case s.op == "itoa":
				return []Val{s.args[0], r.nilErr()}
			case s.op == "fstr":
				d := s.args[0].(*Term)
				if r.Decide(isNaNAtom(d)) || r.Decide(isInfAtom(d, 0)) || !r.Decide(App(SBool, "intText", nil, s)) {
					return []Val{IntC(0), r.textErr("ParseInt", s)}
				}
				return []Val{App(SInt, "parsedInt", types.Typ[types.Int64], s), r.nilErr()}
			}
			return nil
		},
		"strconv.FormatFloat": func(r *Run, fn *ssa.Function, a []Val) []Val {
			f, ok1 := a[1].(*Term).int64()
			p, ok2 := a[2].(*Term).int64()
			b, ok3 := a[3].(*Term).int64()
			if !ok1 || !ok2 || !ok3 || p != -1 || b != 64 || strings.IndexByte("fgGeE", byte(f)) < 0 {
				return nil
			}
			s := App(SStr, "fstr", nil, a[0], StrC(string(rune(f))))
			r.assume(Gt(strLen(s), IntC(0)))
			return []Val{s}
		},
		"strconv.ParseFloat": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := str(r, a[0])
			b, ok := a[1].(*Term).int64()
			if !ok || b != 64 {
				return nil
			}
			switch {
			case s.op == "fstr":
				return []Val{s.args[0], r.nilErr()}
			case s.op == "itoa":
				return []Val{App(SFloat, "i2f", nil, s.args[0]), r.nilErr()}
			case s.op == "str" && strings.EqualFold(s.s, "nan"):
				return []Val{Sym(SFloat, "NaN", nil), r.nilErr()}
			}
			return nil
		},
		"(*math/big.Int).Sign": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.bigSign(r.bigCell(a[0]))}
		},
		"(*math/big.Int).Neg": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.bigSet(a[0], bigNeg(r.bigCell(a[1])))}
		},
		"(*math/big.Int).Abs": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.bigSet(a[0], r.bigAbs(r.bigCell(a[1])))}
		},
		"(*math/big.Int).Bytes": func(r *Run, fn *ssa.Function, a []Val) []Val {
			c := r.bigCell(a[0])
			if r.Decide(Eq0(r.bigSign(c))) {
				return []Val{r.byteSlice(&SeqV{byteT, IntC(0), nil})}
			}
			res := mBigBytes("big.Bytes")(r, fn, a)
			r.assume(Gt(res[0].(*SliceV).len, IntC(0)))
			return res
		},
		"(*math/big.Int).SetBytes": func(r *Run, fn *ssa.Function, a []Val) []Val {
			f, ok := seqOf(r.freezeArg(a[1]))
			if !ok {
				return nil
			}
			if c := r.encodedBy(f, "big.Bytes"); c != nil {
				return []Val{r.bigSet(a[0], r.bigAbs(c))}
			}
			if b, ok := r.constBytes(f); ok && len(b) < 8 {
				n := int64(0)
				for _, x := range b {
					n = n<<8 | int64(x)
				}
				return []Val{r.bigSet(a[0], bigTerm("big.int", IntC(n)))}
			}
			return nil
		},
		"(github.com/shopspring/decimal.Decimal).Cmp": decCmp,
		"(github.com/shopspring/decimal.Decimal).Equal": func(r *Run, fn *ssa.Function, a []Val) []Val {
			c := decCmp(r, fn, a)
			if c == nil {
				return nil
			}
			return []Val{Eq0(c[0].(*Term))}
		},
		"(github.com/shopspring/decimal.Decimal).Exponent": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if d, ok := r.pick(a[0]).(*Term); ok && decParts(d) != nil {
				d = decParts(d)
				return []Val{d.args[1]}
			}
			return nil
		},
		"(github.com/shopspring/decimal.Decimal).Coefficient": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if d, ok := r.pick(a[0]).(*Term); ok && decParts(d) != nil {
				d = decParts(d)
				return []Val{r.newBig(fn, d.args[0].(*Term))}
			}
			return nil
		},
		"(github.com/shopspring/decimal.Decimal).Sign": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if d, ok := r.pick(a[0]).(*Term); ok && decParts(d) != nil {
				d = decParts(d)
				return []Val{r.bigSign(d.args[0].(*Term))}
			}
			return nil
		},
	}
}

var textModels map[string]modelFn

// decParts: coefficient and exponent of a decimal, as a dec.big term
func decParts(d *Term) *Term {
	switch d.op {
	case "dec.big":
		return d
	case "dec.int":
		return App(SOpaque, "dec.big", d.typ, bigTerm("big.int", d.args[0]), IntC(0))
	}
	return nil
}

func (r *Run) strAt(s, i *Term) *Term {
	if r.e.textOn {
		return r.textIdx(s, i)
	}
	return strIdx(s, i)
}

// ---- printed scalars read back

func checkC40(c *Check) {
	c.rule("the text String prints for a boolean, a number of each type or a byte string, given to the parser of its kind, yields a value that Equal reports equal, of the same type where the text shows it; a UTF-8 string that does not carry the byte-string mark comes back unchanged")
	obl := func(name string, f func(r *Run)) {
		c.obl(name, func(r *Run) {
			r.e.textOn = true
			f(r)
		})
	}
	text := func(r *Run, v Val) Val { return r.m1(v, "String") }
	back := func(r *Run, fn string, v Val, typ string) Val {
		s := text(r, v)
		got := r.call(fn, s)
		if t := r.e.pkg.Func(fn).Signature.Results().At(0).Type(); !types.IsInterface(t) {
			got = &IfaceV{t, got}
		}
		r.must(Not(r.isNil(got)), "%s of the printed text: nil", fn)
		r.holds(r.m1(got, "Equal", v), "the text "+show(s)+" is read back as another value")
		if typ != "" {
			r.same(r.m1(got, "Type"), r.cons(typ), "type of the value read back")
		}
		return got
	}
	obl("Bool", func(r *Run) {
		v := r.iface(r.call("Boolean", Sym(SBool, "b", types.Typ[types.Bool])))
		back(r, "ParseBoolean", v, "")
	})
	obl("Long", func(r *Run) {
		x := Sym(SInt, "v", types.Typ[types.Int64])
		got := back(r, "ParseNumber", r.iface(r.call("Long", x)), "LONG")
		r.same(r.m1(got, "Long"), x, "the number read back")
	})
	obl("Double", func(r *Run) {
		x := Sym(SFloat, "v", types.Typ[types.Float64])
		v := r.iface(r.call("Double", x))
		if r.Decide(isNaNAtom(x)) {
			got := r.iface(r.call("ParseNumber", text(r, v)))
			r.holds(r.m1(got, "IsNaN"), "NaN is read back as another number")
			return
		}
		back(r, "ParseNumber", v, "")
	})
	// integers by sign
	ints := map[string]func(r *Run) *Term{
		"zero": func(r *Run) *Term { return bigTerm("big.int", IntC(0)) },
		"positive": func(r *Run) *Term {
			x := Sym(SOpaque, "big", nil)
			r.assume(EqI(r.bigSign(x), IntC(1)))
			return x
		},
		"negative": func(r *Run) *Term {
			x := Sym(SOpaque, "big", nil)
			r.assume(EqI(r.bigSign(x), IntC(-1)))
			return x
		},
	}
	for _, n := range []string{"zero", "positive", "negative"} {
		mk := ints[n]
		obl("BigInt."+n, func(r *Run) {
			p := r.newBigT(r.e.pkg.Func("BigInt").Signature.Params().At(0).Type(), mk(r))
			back(r, "ParseNumber", r.iface(r.call("BigInt", p)), "BIGINT")
		})
		for _, e := range []string{"none", "1", "2", "3", "4", "-1", "-2", "-3", "-4", "lowest"} {
			e := e
			obl("Decimal."+n+".exponent bytes "+e, func(r *Run) {
				r.e.unrollMax = 5
				defer func() { r.e.unrollMax = 3 }()
				x := IntC(0)
				switch e {
				case "none":
				default:
					// by the number of significant bytes
					k := int(e[len(e)-1] - '0')
					for j := 0; j < k; j++ {
						b := Sym(SInt, "e"+string(rune('0'+j)), types.Typ[types.Uint8])
						x = Add(x, scale(b, new(big.Int).Lsh(bigOne, uint(8*j))))
						if j == k-1 {
							r.assume(Gt(b, IntC(0)))
						}
						if j == 3 {
							r.assume(Lt(b, IntC(128)))
						}
					}
					if e[0] == '-' {
						x = Neg(x)
					}
				case "lowest":
					x = IntC(-1 << 31)
				}
				d := r.decBig(r.e.pkg.Func("Decimal").Signature.Params().At(0).Type(), mk(r), x)
				back(r, "ParseNumber", r.iface(r.call("Decimal", d)), "")
			})
		}
	}
	obl("Raw", func(r *Run) {
		x := r.inSlice("data", byteT)
		f := r.freezeSlice(x)
		got := back(r, "ParseString", r.iface(r.call("Raw", x, r.freshBool("copy"))), "RAW")
		r.same(r.freezeArg(r.m1(got, "Raw")), f, "the bytes read back")
	})
	obl("Utf8", func(r *Run) {
		x := Sym(SStr, "s", types.Typ[types.String])
		v := r.iface(r.call("Utf8", x))
		s := text(r, v)
		r.same(s, x, "the text of a UTF-8 string")
		mark := r.pkgVar("Base64Prefix").(*Term).s
		if len(mark) > 0 {
			// without the mark's first character
			r.assume(Or(Eq0(strLen(x)), Not(EqI(strIdx(x, IntC(0)), IntC(int64(mark[0]))))))
		}
		got := r.iface(r.call("ParseString", s))
		r.same(r.m1(got, "Utf8"), x, "the text read back")
		r.same(r.m1(got, "Type"), r.cons("UTF8"), "type of the string read back")
	})
}

func (r *Run) holds(v Val, what string) {
	r.e.obligations++
	if !r.truth(v, what) {
		r.violation("%s", what)
	}
}

// textPkg: functions of these packages say nothing about a printed text
// unless a contract does.
func textPkg(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Name() == "init" || fn.Signature.Recv() != nil && fn.Pkg.Pkg.Path() == "strings" {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "strconv", "encoding/hex", "encoding/base64":
		return true
	}
	return false
}
