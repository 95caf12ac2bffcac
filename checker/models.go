package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the functions outside the analysed package.

type modelFn func(r *Run, fn *ssa.Function, a []Val) []Val

func (r *Run) model(fn *ssa.Function, args []Val) ([]Val, bool) {
	name := fn.String()
	if r.e.hook != nil {
		if res, ok := r.e.hook(r, fn, args); ok {
			return res, true
		}
	}
	if m := textModels[name]; m != nil && r.e.textOn {
		if res := m(r, fn, args); res != nil {
			r.e.calls[name]++
			return res, true
		}
	}
	if r.e.textOn && textPkg(fn) {
		if res, ok := r.fold(fn, name, args); ok {
			return res, true
		}
		r.stuck("no text contract for %s", name)
	}
	if res, ok := r.fold(fn, name, args); ok {
		r.e.calls[name]++
		return res, true
	}
	m, ok := models[name]
	if !ok {
		return nil, false
	}
	r.e.calls[name]++
	return m(r, fn, args), true
}

// pure functions: their results depend on their arguments only, nothing is
// written. Returned slices are fresh.
var pure = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.FormatFloat": true, "strconv.FormatBool": true,
	"strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.ParseFloat": true, "strconv.ParseBool": true, "strconv.Atoi": true,
	"strconv.Quote": true, "strconv.AppendInt": true,
	"strings.IndexByte": true, "strings.Index": true, "strings.Contains": true, "strings.TrimSpace": true,
	"strings.ToLower": true, "strings.ToUpper": true, "strings.Repeat": true, "strings.Replace": true, "strings.ReplaceAll": true,
	"strings.ContainsRune": true, "strings.ContainsAny": true, "strings.IndexRune": true, "strings.Split": true, "strings.Join": true,
	"strings.TrimPrefix": true, "strings.EqualFold": true, "strings.LastIndex": true, "strings.LastIndexByte": true,
	"math.Abs": true, "math.Float32bits": true, "math.Floor": true, "math.Trunc": true, "math.Ceil": true, "math.Signbit": true,
	"math.Float32frombits":     true,
	"unicode/utf8.ValidString": true, "unicode/utf8.Valid": true, "unicode/utf8.RuneLen": true, "unicode/utf8.RuneCountInString": true,
	"encoding/hex.EncodeToString": true, "encoding/hex.DecodeString": true,
	"(*encoding/base64.Encoding).EncodeToString": true, "(*encoding/base64.Encoding).DecodeString": true,
	"(*encoding/base64.Encoding).EncodedLen": true,
	"(crypto.Hash).Available":                true, "(crypto.Hash).Size": true,
	"math/rand.Int": false,
}

func (r *Run) external(fn *ssa.Function, args []Val) []Val {
	name := fn.String()
	if m := syncModels[name]; m != nil && r.e.reflectOn {
		return m(r, fn, args)
	}
	if fn.Name() == "init" && fn.Pkg != r.e.pkg {
		return nil
	}
	if strings.HasPrefix(name, "(reflect.") || strings.HasPrefix(name, "reflect.") {
		r.e.calls[name]++
		return r.reflectCall(fn, name, args)
	}
	if strings.HasPrefix(name, "(*math/big.Int).") {
		r.e.calls[name]++
		return r.bigDefault(fn, args)
	}
	if !pure[name] && !scalarFn(fn) && !strings.HasPrefix(name, "(github.com/shopspring/decimal.Decimal).") {
		r.stuck("no contract for %s", name)
	}
	if name == "strings.Repeat" && len(args) == 2 {
		r.require(Ge0(r.intVal(args[1])), "strings: negative Repeat count")
	}
	r.e.calls[name]++
	return r.pureCall(name, fn.Signature, r.freezeArgs(args))
}

// scalarFn: functions of these packages on plain values neither write nor
// panic; a result that is no plain value has no contract.
func scalarFn(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Signature.Recv() != nil || fn.Signature.Variadic() {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "math", "math/bits", "unicode", "unicode/utf8", "strings", "strconv", "bytes":
	default:
		return false
	}
	switch fn.String() {
	case "math/bits.Div", "math/bits.Div32", "math/bits.Div64", "math/bits.Rem", "math/bits.Rem32", "math/bits.Rem64", "strings.Count":
		return false
	}
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		switch t := sig.Params().At(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if fn.Pkg.Pkg.Path() == "strconv" || sig.Results().Len() != 1 {
				return false
			}
			if _, ok := t.Elem().Underlying().(*types.Basic); !ok {
				return false
			}
		default:
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if _, ok := t.Underlying().(*types.Basic); !ok && !types.Identical(t, types.Universe.Lookup("error").Type()) {
			return false
		}
	}
	return sig.Results().Len() > 0
}

// bigDefault: a method of *big.Int either reads its operands or sets its
// receiver from them.
func (r *Run) bigDefault(fn *ssa.Function, args []Val) []Val {
	sig := fn.Signature
	name := "big." + fn.Name()
	isBig := func(t types.Type) bool { return types.Identical(t, sig.Recv().Type()) }
	// operands
	var ops []Val
	for i, a := range args[1:] {
		if isBig(sig.Params().At(i).Type()) {
			ops = append(ops, r.bigCell(a))
			continue
		}
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			r.stuck("no contract for %s", fn)
		}
		ops = append(ops, r.freezeArg(a))
	}
	switch fn.Name() {
	case "Quo", "Rem", "Div", "Mod":
		r.require(Not(EqI(AppR("big.Sign", bi(-1), bigOne, ops[1]), IntC(0))), "big integer division by zero")
		fallthrough
	case "And", "Or", "Xor", "AndNot", "Not", "Lsh", "Rsh", "GCD", "SetUint64":
		if sig.Results().Len() != 1 || fn.Name() == "GCD" {
			break
		}
		if fn.Name() == "SetUint64" {
			return []Val{r.bigSet(args[0], bigTerm("big.int", ops[0]))}
		}
		return []Val{r.bigSet(args[0], bigTerm(name, ops...))}
	case "CmpAbs":
		x, y := r.bigCell(args[0]), ops[0].(*Term)
		if x.key() == y.key() {
			return []Val{IntC(0)}
		}
		p, q := AppR("big.Sign", bi(-1), bigOne, x), AppR("big.Sign", bi(-1), bigOne, y)
		if r.Decide(EqI(p, q)) {
			if r.Decide(Ge0(p)) {
				return []Val{Cmp("big", x, y)}
			}
			return []Val{Cmp("big", y, x)}
		}
		r.assume(Not(EqI(Cmp("big", x, y), IntC(0))))
		return []Val{AppR("big.CmpAbs", bi(-1), bigOne, x, y)}
	case "BitLen":
		return []Val{AppR(name, bigZero, nil, r.bigCell(args[0]))}
	case "IsUint64", "Uint64", "TrailingZeroBits":
		return []Val{r.opaqueVal(sig.Results().At(0).Type(), name, r.bigCell(args[0]))}
	case "Text":
		if b, ok := ops[0].(*Term).int64(); ok && b >= 2 && b <= 62 {
			if b == 10 {
				return []Val{App(SStr, "big.String", nil, r.bigCell(args[0]))}
			}
			return []Val{App(SStr, "big.Text", nil, r.bigCell(args[0]), ops[0])}
		}
	}
	r.stuck("no contract for %s", fn)
	return nil
}

func (r *Run) pureCall(name string, sig *types.Signature, args []Val) []Val {
	var res []Val
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		op := name
		if n > 1 {
			op = name + "." + string(rune('0'+i))
		}
		res = append(res, r.pureResult(t, op, args))
	}
	return res
}

func (r *Run) pureResult(t types.Type, op string, args []Val) Val {
	if _, ok := t.Underlying().(*types.Slice); ok {
		x := App(SOpaque, op, t, args...)
		return r.freshSliceOf(x, t)
	}
	v := r.opaqueVal(t, op, args...)
	return v
}

// freshSliceOf: a new slice whose content is the opaque sequence x.
func (r *Run) freshSliceOf(x *Term, t types.Type) *SliceV {
	n := AppR("len", bigZero, nil, x)
	kv := BoundVar("·e")
	el := t.Underlying().(*types.Slice).Elem()
	s := r.newSlice(t, n, []Seg{{IntC(0), n, kv, elemOf(x, el, kv)}}, &Meta{fresh: true, typ: t, nilIf: App(SBool, "isnil", nil, x)})
	return s
}

func (r *Run) errorVal(args ...Val) Val {
	t := App(SOpaque, "error", types.Universe.Lookup("error").Type(), r.freezeArgs(args)...)
	t.non = true
	return t
}

func (r *Run) nilErr() Val { return &NilV{types.Universe.Lookup("error").Type()} }

// freshErr: an unknown, possibly nil error.
func (r *Run) freshErr(base string) *Term {
	return r.fresh(types.Universe.Lookup("error").Type(), base).(*Term)
}

// sink resolves a pointer to a modelled buffer.
func (r *Run) sink(p Val) (*PtrV, *SinkV) {
	p = r.pick(p)
	switch q := p.(type) {
	case *PtrV:
		if s, ok := r.load(q).(*SinkV); ok {
			return q, s
		}
		r.stuck("buffer operation on %s", show(r.load(q)))
	case *NilV:
		r.progPanic("nil buffer")
	case *Term:
		// an opaque *strings.Builder / *bytes.Buffer
		r.require(Not(IsNilAtom(q)), "nil pointer dereference")
		id, ok := r.st.sym[q.key()]
		if !ok {
			kind := "builder"
			if pt, ok := q.typ.Underlying().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok {
					kind = r.e.sinkType(n)
				}
			}
			id = r.st.newObj(&SinkV{kind: kind}, &Meta{origin: q.String(), term: q, typ: q.typ})
			r.st.sym[q.key()] = id
		}
		np := &PtrV{obj: id, typ: q.typ}
		if s, ok := r.load(np).(*SinkV); ok {
			return np, s
		}
	}
	r.stuck("buffer operation on %s", show(p))
	return nil, nil
}

func (r *Run) sinkAdd(p Val, op string, args ...Val) {
	q, s := r.sink(p)
	pos, _ := r.where()
	n := &SinkV{kind: s.kind, evs: append(s.evs[:len(s.evs):len(s.evs)], Event{op: op, args: args, pos: pos})}
	if op == "s" {
		// merge neighbouring constant strings
		if k := len(s.evs); k > 0 && s.evs[k-1].op == "s" {
			a, b := s.evs[k-1].args[0].(*Term), args[0].(*Term)
			n.evs = append(s.evs[:k-1:k-1], Event{op: "s", args: []Val{strConcat(a, b)}, pos: pos})
			if a.op == "str" && a.s == "" {
				n.evs = append(s.evs[:k-1:k-1], Event{op: "s", args: []Val{b}, pos: pos})
			}
		}
	}
	r.st.heap[q.obj] = r.setPath(r.st.heap[q.obj], q.path, n)
	w := Write{obj: q.obj, path: q.path, val: n}
	r.noteWrite(w)
}

func (r *Run) sinkString(s *SinkV) *Term {
	if len(s.evs) == 0 {
		return StrC("")
	}
	if len(s.evs) == 1 && s.evs[0].op == "s" {
		return s.evs[0].args[0].(*Term)
	}
	return App(SStr, "sinkstr", nil, s)
}

// slen is the number of bytes held by a sequence-like value.
func runeStr(t *Term) *Term {
	if c, ok := t.int64(); ok {
		return StrC(string(rune(c)))
	}
	return App(SStr, "runestr", nil, t)
}

func needSlice(r *Run, v Val) *SliceV {
	s, ok := r.pick(v).(*SliceV)
	if !ok {
		r.stuck("expected a slice, got %s", show(v))
	}
	return s
}

func putUint(r *Run, b Val, v Val, n int) {
	s := needSlice(r, b)
	x := r.intVal(v)
	r.require(Ge(s.len, IntC(int64(n))), "index out of range")
	if s.obj == 0 {
		r.progPanic("index out of range")
	}
	var segs []Seg
	for i := 0; i < n; i++ {
		segs = append(segs, Seg{IntC(int64(i)), IntC(int64(i + 1)), nil, Byte(x, n-1-i)})
	}
	r.writeSlice(s, IntC(0), IntC(int64(n)), segs, nil)
}

func getUint(r *Run, b Val, n int) Val {
	s := needSlice(r, b)
	r.require(Ge(s.len, IntC(int64(n))), "index out of range")
	if s.obj == 0 {
		r.progPanic("index out of range")
	}
	a := r.getPath(r.st.heap[s.obj], s.path).(*ArrayV)
	res := IntC(0)
	for i := 0; i < n; i++ {
		e := r.intVal(r.arrRead(a, AddC(s.off, int64(i))))
		res = Add(res, scale(e, pow2(uint(8*(n-1-i)))))
	}
	return res
}

// bigCell is the content of a *big.Int.
func (r *Run) bigCell(p Val) *Term {
	p = r.pick(p)
	switch q := p.(type) {
	case *NilV:
		r.progPanic("nil *big.Int")
	case *Term:
		r.require(Not(IsNilAtom(q)), "nil *big.Int dereference")
		return App(SOpaque, "deref", q.typ.Underlying().(*types.Pointer).Elem(), q)
	case *PtrV:
		if t, ok := r.load(q).(*Term); ok {
			return zeroBig(t)
		}
	case *NewV:
		if t, ok := q.cell.(*Term); ok {
			return zeroBig(t)
		}
	}
	r.stuck("big number %s", show(p))
	return nil
}

func (r *Run) bigSet(p Val, c *Term) Val {
	p = r.pick(p)
	switch q := p.(type) {
	case *PtrV:
		r.store(q, c)
		return q
	case *NilV:
		r.progPanic("nil *big.Int")
	case *Term:
		r.require(Not(IsNilAtom(q)), "nil *big.Int dereference")
		np := &PtrV{obj: r.symPtr(q), typ: q.typ}
		r.store(np, c)
		return q
	}
	r.stuck("write to big number %s", show(p))
	return nil
}

func (r *Run) newBig(fn *ssa.Function, c *Term) Val {
	t := fn.Signature.Results().At(0).Type()
	return r.newBigT(t, c)
}

func (r *Run) newBigT(t types.Type, c *Term) Val {
	id := r.st.newObj(c, &Meta{fresh: true, typ: t.Underlying().(*types.Pointer).Elem()})
	return &PtrV{obj: id, typ: t}
}

// zeroBig: the zero value of a big integer is the number zero.
func zeroBig(t *Term) *Term {
	if t.op == "zero" && t.typ != nil && strings.HasSuffix(t.typ.String(), "math/big.Int") {
		return bigTerm("big.int", IntC(0))
	}
	return t
}

// bigFits: c is known to fit an int64.
func (r *Run) bigFits(c *Term) bool {
	if c.op == "big.int" {
		return true
	}
	return r.entails(App(SBool, "big.IsInt64", nil, c)) || r.entails(Le(AppR("big.BitLen", bigZero, nil, c), IntC(63)))
}

// wholeBig: the big integer an integer was taken from without loss.
func (r *Run) wholeBig(x *Term) *Term {
	if x.op == "big.Int64" {
		if c, ok := x.args[0].(*Term); ok && r.bigFits(c) {
			return c
		}
	}
	return nil
}

func bigTerm(op string, args ...Val) *Term { return App(SOpaque, op, nil, args...) }

func isNaNAtom(x *Term) *Term {
	switch x.op {
	case "flt", "i2f", "bigf.Float64", "(github.com/shopspring/decimal.Decimal).Float64.0":
		return False
	case "math.Abs":
		return isNaNAtom(x.args[0].(*Term))
	case "sym":
		if x.s == "NaN" {
			return True
		}
	}
	return App(SBool, "isNaN", nil, x)
}

func isInfAtom(x *Term, sign int) *Term {
	if x.op == "flt" || x.op == "i2f" || (x.op == "sym" && x.s == "NaN") {
		return False
	}
	switch {
	case sign > 0:
		return App(SBool, "isPosInf", nil, x)
	case sign < 0:
		return App(SBool, "isNegInf", nil, x)
	}
	return Or(App(SBool, "isPosInf", nil, x), App(SBool, "isNegInf", nil, x))
}

var models map[string]modelFn

func init() {
	fmtInt := func(r *Run, fn *ssa.Function, a []Val) []Val {
		if len(a) > 1 {
			if b, ok := a[1].(*Term).int64(); !ok || b != 10 {
				return r.pureCall(fn.String(), fn.Signature, r.freezeArgs(a))
			}
		}
		return []Val{itoa(a[0].(*Term))}
	}
	models = map[string]modelFn{
		"strconv.Itoa":       fmtInt,
		"strconv.FormatInt":  fmtInt,
		"strconv.FormatUint": fmtInt,
		"reflect.TypeOf": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[0])
			t := fn.Signature.Results().At(0).Type()
			switch x := x.(type) {
			case *NilV:
				return []Val{&NilV{t}}
			case *IfaceV:
				return []Val{rtypeTerm(x.dyn, t)}
			case *Term:
				if r.Decide(IsNilAtom(x)) {
					return []Val{&NilV{t}}
				}
				if r.e.reflectOn {
					return []Val{r.dynTypeOf(x)}
				}
				c := App(SOpaque, "reflect.TypeOf", t, x)
				c.non = true
				return []Val{c}
			}
			r.stuck("reflect.TypeOf %s", show(x))
			return nil
		},
		"sort.Search": mSearch,
		"sort.Sort":   mSort, "sort.Stable": mSort,
		"sort.Slice": mSortSlice, "sort.SliceStable": mSortSlice,
		"bytes.Compare": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x, y := r.bytesStr(a[0]), r.bytesStr(a[1])
			// nothing is below the empty string
			for i, p := range []*Term{x, y} {
				if q := []*Term{y, x}[i]; p.op == "str" && p.s == "" {
					if r.Decide(Eq0(strLen(q))) {
						return []Val{IntC(0)}
					}
					return []Val{IntC(int64(2*i - 1))}
				}
			}
			return []Val{Cmp("str", x, y)}
		},
		"strings.IndexByte": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s, c := r.pick(a[0]).(*Term), r.intVal(a[1])
			i := AppR("strings.IndexByte", bi(-1), nil, s, c)
			r.assume(Lt(i, strLen(s)))
			if r.Decide(Ge0(i)) {
				r.assume(EqI(strIdx(s, i), c))
			} else {
				return []Val{IntC(-1)}
			}
			return []Val{i}
		},
		"bytes.Equal": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.strEq(r.bytesStr(a[0]), r.bytesStr(a[1]))}
		},
		"strings.Compare": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{Cmp("str", a[0], a[1])}
		},
		"strings.HasPrefix": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s, p := r.pick(a[0]).(*Term), r.pick(a[1]).(*Term)
			if p.op == "str" {
				if s.op == "str" {
					return []Val{BoolC(strings.HasPrefix(s.s, p.s))}
				}
				if s.op == "concat" {
					if f := s.args[0].(*Term); f.op == "str" && len(f.s) >= len(p.s) {
						return []Val{BoolC(strings.HasPrefix(f.s, p.s))}
					}
				}
				at := App(SBool, "hasprefix", nil, s, p)
				// implies the length
				if r.Decide(at) {
					r.assume(Ge(strLen(s), IntC(int64(len(p.s)))))
					for i := 0; i < len(p.s); i++ {
						r.assume(EqI(strIdx(s, IntC(int64(i))), IntC(int64(p.s[i]))))
					}
					return []Val{True}
				}
				return []Val{False}
			}
			return []Val{App(SBool, "hasprefix", nil, s, p)}
		},
		"strings.TrimSuffix": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s, p := r.pick(a[0]).(*Term), r.pick(a[1]).(*Term)
			if p.op == "str" {
				if s.op == "str" {
					return []Val{StrC(strings.TrimSuffix(s.s, p.s))}
				}
				if s.op == "concat" {
					if f := s.args[len(s.args)-1].(*Term); f.op == "str" && len(f.s) >= len(p.s) {
						if !strings.HasSuffix(f.s, p.s) {
							return []Val{s}
						}
						out := StrC("")
						for _, x := range s.args[:len(s.args)-1] {
							out = strConcat(out, x.(*Term))
						}
						return []Val{strConcat(out, StrC(strings.TrimSuffix(f.s, p.s)))}
					}
				}
			}
			return []Val{App(SStr, "trimsuffix", nil, s, p)}
		},
		"errors.New": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.errorVal(a...)}
		},
		"github.com/pkg/errors.New": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.errorVal(a...)}
		},
		"github.com/pkg/errors.Errorf": mErrorf, "fmt.Errorf": mErrorf,
		"github.com/pkg/errors.Wrap": mWrap, "github.com/pkg/errors.Wrapf": mWrap, "github.com/pkg/errors.WithStack": mWrap,
		"math.IsNaN": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{isNaNAtom(r.pick(a[0]).(*Term))}
		},
		// |a-b| = |b-a|
		"math.Abs": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[0]).(*Term)
			switch {
			case x.op == "math.Abs":
				return []Val{x}
			case x.op == "fneg":
				x = x.args[0].(*Term)
			}
			if x.op == "f-" {
				p, q := x.args[0].(*Term), x.args[1].(*Term)
				if p == q && r.entails(Not(isNaNAtom(p))) && r.entails(Not(isInfAtom(p, 0))) {
					return []Val{FloatC("0")}
				}
				if p.id > q.id {
					x = App(SFloat, "f-", nil, q, p)
				}
			}
			return []Val{App(SFloat, "math.Abs", nil, x)}
		},
		"math.NaN": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{Sym(SFloat, "NaN", nil)}
		},
		"math.Inf": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{App(SFloat, "inf", nil, a[0])}
		},
		"math.IsInf": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[0]).(*Term)
			s := r.intVal(a[1])
			c, ok := s.int64()
			if !ok {
				r.stuck("math.IsInf with unknown sign")
			}
			return []Val{isInfAtom(x, int(c))}
		},
		"math.Float64bits": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[0]).(*Term)
			if x.op == "f64frombits" {
				return []Val{x.args[0]}
			}
			return []Val{App(SInt, "f64bits", types.Typ[types.Uint64], x)}
		},
		"math.Float64frombits": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.intVal(a[0])
			if x.op == "f64bits" {
				return []Val{x.args[0]}
			}
			return []Val{App(SFloat, "f64frombits", nil, x)}
		},

		// buffers
		"(*strings.Builder).WriteString": mWriteString, "(*bytes.Buffer).WriteString": mWriteString,
		"(*strings.Builder).WriteByte": mWriteByte, "(*bytes.Buffer).WriteByte": mWriteByte,
		"(*strings.Builder).WriteRune": mWriteRune, "(*bytes.Buffer).WriteRune": mWriteRune,
		"(*strings.Builder).Write": mWriteBytes, "(*bytes.Buffer).Write": mWriteBytes,
		"(*strings.Builder).Grow": mNop, "(*bytes.Buffer).Grow": mNop,
		"(*strings.Builder).Len": mSinkLen, "(*bytes.Buffer).Len": mSinkLen,
		"(*strings.Builder).Reset": mReset, "(*bytes.Buffer).Reset": mReset,
		"(*strings.Builder).String": func(r *Run, fn *ssa.Function, a []Val) []Val {
			_, s := r.sink(a[0])
			return []Val{r.sinkString(s)}
		},
		"(*bytes.Buffer).String": func(r *Run, fn *ssa.Function, a []Val) []Val {
			_, s := r.sink(a[0])
			return []Val{r.sinkString(s)}
		},
		"(*bytes.Buffer).Bytes": func(r *Run, fn *ssa.Function, a []Val) []Val {
			_, s := r.sink(a[0])
			t := fn.Signature.Results().At(0).Type()
			plain := s.ver == 0
			for _, e := range s.evs {
				plain = plain && e.op == "b"
			}
			if plain {
				segs, n := r.sinkSegs(s)
				return []Val{r.newSlice(t, n, segs, &Meta{fresh: true, typ: t})}
			}
			x := App(SOpaque, "sinkbytes", t, s)
			return []Val{r.freshSliceOf(x, t)}
		},
		"bytes.NewBuffer": nil,
		"encoding/json.NewEncoder": func(r *Run, fn *ssa.Function, a []Val) []Val {
			id := r.st.newObj(&StructV{fields: []Val{a[0]}}, &Meta{fresh: true, origin: "json encoder"})
			return []Val{&PtrV{obj: id, typ: fn.Signature.Results().At(0).Type()}}
		},
		"(*encoding/json.Encoder).SetEscapeHTML": mNop,
		"(*encoding/json.Encoder).Encode": func(r *Run, fn *ssa.Function, a []Val) []Val {
			p, ok := r.pick(a[0]).(*PtrV)
			if !ok {
				r.stuck("json encoder")
			}
			w := r.load(p).(*StructV).fields[0]
			wi, ok := r.pick(w).(*IfaceV)
			if !ok {
				r.stuck("json encoder on %s", show(w))
			}
			v := r.pick(a[1])
			iv, ok := v.(*IfaceV)
			if !ok {
				r.stuck("json encoding of %s", show(v))
			}
			st, ok := iv.v.(*Term)
			if !ok || st.sort != SStr {
				r.stuck("json encoding of %s", show(v))
			}
			r.sinkAdd(wi.v, "s", strConcat(jsonStr(st), StrC("\n")))
			return []Val{r.nilErr()}
		},
		"encoding/json.Marshal": func(r *Run, fn *ssa.Function, a []Val) []Val {
			iv, ok := r.pick(a[0]).(*IfaceV)
			if ok {
				if st, ok := iv.v.(*Term); ok && st.sort == SStr {
					return []Val{r.bytesOf(jsonStr(st), fn.Signature.Results().At(0).Type()), r.nilErr()}
				}
			}
			r.stuck("json encoding of %s", show(a[0]))
			return nil
		},

		// big numbers
		"math/big.NewInt": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if c := r.wholeBig(r.intVal(a[0])); c != nil {
				return []Val{r.newBig(fn, c)}
			}
			return []Val{r.newBig(fn, bigTerm("big.int", a[0]))}
		},
		"(*math/big.Int).Add": mBig2("big.Add"), "(*math/big.Int).Sub": mBig2("big.Sub"), "(*math/big.Int).Mul": mBig2("big.Mul"),
		"(*math/big.Int).Neg": mBig1("big.Neg"), "(*math/big.Int).Set": mBig1(""), "(*math/big.Int).Abs": mBig1("big.Abs"),
		"(*math/big.Int).SetInt64": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.bigSet(a[0], bigTerm("big.int", a[1]))}
		},
		"(*math/big.Int).SetBytes": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.bigSet(a[0], bigTerm("big.SetBytes", r.freezeArg(a[1])))}
		},
		"(*math/big.Int).Cmp": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{Cmp("big", r.bigCell(a[0]), r.bigCell(a[1]))}
		},
		"(*math/big.Int).Sign": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{AppR("big.Sign", bi(-1), bigOne, r.bigCell(a[0]))}
		},
		"(*math/big.Int).IsInt64": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if c := r.bigCell(a[0]); c.op != "big.int" {
				return []Val{App(SBool, "big.IsInt64", nil, c)}
			}
			return []Val{True}
		},
		"(*math/big.Int).Int64": func(r *Run, fn *ssa.Function, a []Val) []Val {
			c := r.bigCell(a[0])
			if c.op == "big.int" {
				return []Val{c.args[0]}
			}
			return []Val{App(SInt, "big.Int64", types.Typ[types.Int64], c)}
		},
		"(*math/big.Int).Bytes":     mBigBytes("big.Bytes"),
		"(*math/big.Int).GobEncode": mBigBytes("big.Gob"),
		"(*math/big.Int).GobDecode": func(r *Run, fn *ssa.Function, a []Val) []Val {
			f := r.freezeArg(a[1])
			if c := r.encodedBy(f, "big.Gob"); c != nil {
				r.bigSet(a[0], c)
				return []Val{r.nilErr()}
			}
			r.bigSet(a[0], bigTerm("big.GobDecode", f))
			return r.payload(App(SOpaque, "big.GobDecode.err", fn.Signature.Results().At(0).Type(), f))
		},
		"(*math/big.Int).String": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{App(SStr, "big.String", nil, r.bigCell(a[0]))}
		},
		"(*math/big.Float).SetFloat64": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[1]).(*Term)
			r.require(Not(isNaNAtom(x)), "big.Float.SetFloat64(NaN) panics")
			return []Val{r.bigSet(a[0], bigTerm("bigf.f64", x))}
		},
		"(*math/big.Float).SetInt": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.bigSet(a[0], bigTerm("bigf.int", r.bigCell(a[1])))}
		},
		"(*math/big.Float).Float64": func(r *Run, fn *ssa.Function, a []Val) []Val {
			c := r.bigCell(a[0])
			return []Val{App(SFloat, "bigf.Float64", nil, c), AppR("bigf.acc", bi(-1), bigOne, c)}
		},
		"(*math/big.Float).Int": func(r *Run, fn *ssa.Function, a []Val) []Val {
			c := r.bigCell(a[0])
			acc := AppR("bigf.acc", bi(-1), bigOne, c)
			res := fn.Signature.Results().At(0).Type()
			// nil for infinities
			inf := App(SBool, "bigf.IsInf", nil, c)
			if c.op == "bigf.f64" {
				inf = isInfAtom(c.args[0].(*Term), 0)
			} else if c.op == "bigf.int" {
				inf = False
			}
			if r.Decide(inf) {
				return []Val{&NilV{res}, acc}
			}
			z := r.pick(a[1])
			if _, ok := z.(*NilV); ok {
				return []Val{r.newBigT(res, bigTerm("bigf.Int", c)), acc}
			}
			return []Val{r.bigSet(z, bigTerm("bigf.Int", c)), acc}
		},
		"(*math/big.Float).IsInf": func(r *Run, fn *ssa.Function, a []Val) []Val {
			c := r.bigCell(a[0])
			if c.op == "bigf.f64" {
				return []Val{isInfAtom(c.args[0].(*Term), 0)}
			}
			return []Val{App(SBool, "bigf.IsInf", nil, c)}
		},
		"math/big.NewFloat": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[0]).(*Term)
			r.require(Not(isNaNAtom(x)), "big.NewFloat(NaN) panics")
			return []Val{r.newBig(fn, bigTerm("bigf.f64", x))}
		},

		// decimals
		"github.com/shopspring/decimal.NewFromInt": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if c := r.wholeBig(r.intVal(a[0])); c != nil {
				return []Val{App(SOpaque, "dec.big", fn.Signature.Results().At(0).Type(), c, IntC(0))}
			}
			return []Val{App(SOpaque, "dec.int", fn.Signature.Results().At(0).Type(), a[0])}
		},
		"github.com/shopspring/decimal.NewFromFloat": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[0]).(*Term)
			r.require(Not(isNaNAtom(x)), "decimal.NewFromFloat(NaN) panics")
			r.require(Not(isInfAtom(x, 0)), "decimal.NewFromFloat(Inf) panics")
			return []Val{App(SOpaque, "dec.float", fn.Signature.Results().At(0).Type(), x)}
		},
		"github.com/shopspring/decimal.NewFromFloat32": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[0]).(*Term)
			r.require(Not(isNaNAtom(x)), "decimal.NewFromFloat32(NaN) panics")
			r.require(Not(isInfAtom(x, 0)), "decimal.NewFromFloat32(Inf) panics")
			return []Val{App(SOpaque, "dec.float", fn.Signature.Results().At(0).Type(), x)}
		},
		"github.com/shopspring/decimal.NewFromFloatWithExponent": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.pick(a[0]).(*Term)
			r.require(Not(isNaNAtom(x)), "decimal.NewFromFloatWithExponent(NaN) panics")
			r.require(Not(isInfAtom(x, 0)), "decimal.NewFromFloatWithExponent(Inf) panics")
			return []Val{App(SOpaque, "dec.floatexp", fn.Signature.Results().At(0).Type(), x, a[1])}
		},
		"github.com/shopspring/decimal.NewFromBigInt": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{r.decBig(fn.Signature.Results().At(0).Type(), r.bigCell(a[0]), a[1])}
		},
		"(github.com/shopspring/decimal.Decimal).BigInt":      mDecBig("dec.BigInt"),
		"(github.com/shopspring/decimal.Decimal).Coefficient": mDecBig("dec.Coefficient"),
		"(github.com/shopspring/decimal.Decimal).Cmp": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{Cmp("dec", a[0], a[1])}
		},
		"(github.com/shopspring/decimal.Decimal).Equal": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{Eq0(Cmp("dec", a[0], a[1]))}
		},
		"(github.com/shopspring/decimal.Decimal).Add": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x, ok1 := r.pick(a[0]).(*Term)
			y, ok2 := r.pick(a[1]).(*Term)
			if !ok1 || !ok2 {
				return r.pureCall(fn.String(), fn.Signature, r.freezeArgs(a))
			}
			return []Val{commute(fn.String(), x, y)}
		},
		"(github.com/shopspring/decimal.Decimal).Mul": func(r *Run, fn *ssa.Function, a []Val) []Val {
			x, ok1 := r.pick(a[0]).(*Term)
			y, ok2 := r.pick(a[1]).(*Term)
			if !ok1 || !ok2 {
				return r.pureCall(fn.String(), fn.Signature, r.freezeArgs(a))
			}
			return []Val{commute(fn.String(), x, y)}
		},
		"(github.com/shopspring/decimal.Decimal).Div":    mDecDiv,
		"(github.com/shopspring/decimal.Decimal).Mod":    mDecDiv,
		"(github.com/shopspring/decimal.Decimal).QuoRem": mDecDiv,
		"(*github.com/shopspring/decimal.Decimal).UnmarshalBinary": func(r *Run, fn *ssa.Function, a []Val) []Val {
			f := r.freezeArg(a[1])
			dt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
			if c := r.encodedBy(f, "(github.com/shopspring/decimal.Decimal).MarshalBinary.0"); c != nil {
				r.storePtr(a[0], c)
				return []Val{r.nilErr()}
			}
			r.storePtr(a[0], App(SOpaque, "dec.Unmarshal", dt, f))
			return r.payload(App(SOpaque, "dec.Unmarshal.err", fn.Signature.Results().At(0).Type(), f))
		},

		// streams
		"io.ReadFull": func(r *Run, fn *ssa.Function, a []Val) []Val {
			b := needSlice(r, a[1])
			if s := r.streamOf(a[0]); s != nil {
				return r.streamFull(s, b, b.len)
			}
			if len(r.e.streams) > 0 {
				r.stuck("io.ReadFull of a reader that is not modelled")
			}
			r.emit("io.ReadFull", r.pick(a[0]), b.len)
			at := len(r.st.evs) - 1
			n := r.freshInt("rfn", bigZero)
			e := r.freshErr("rferr")
			r.assume(Le(n, b.len))
			if r.Decide(IsNilAtom(e)) {
				r.assume(EqI(n, b.len))
			} else {
				r.assume(Lt(n, b.len))
				// the error is EOF exactly when nothing was read
				if r.e.eofAxiom {
					eof := r.globalVal("io", "EOF")
					if r.Decide(r.eqVal(e, eof)) {
						r.assume(Eq0(n))
					}
				}
			}
			if b.obj != 0 {
				x := App(SOpaque, "fresh:"+r.freshName("rfdata"), b.typ, r.ctxArgs()...)
				r.st.evs[at].res = []Val{x, e}
				kv := BoundVar("·e")
				r.writeSlice(b, IntC(0), b.len, []Seg{{IntC(0), b.len, kv, elemOf(x, r.sliceElem(b), kv)}}, nil)
			}
			return []Val{n, e}
		},
		"crypto/rand.Read": func(r *Run, fn *ssa.Function, a []Val) []Val {
			return models["io.ReadFull"](r, fn, []Val{r.globalVal("crypto/rand", "Reader"), a[0]})
		},
		"io.ReadAtLeast": func(r *Run, fn *ssa.Function, a []Val) []Val {
			b := needSlice(r, a[1])
			min := r.intVal(a[2])
			s := r.streamOf(a[0])
			if s == nil {
				r.stuck("io.ReadAtLeast")
			}
			if r.entails(EqI(min, b.len)) {
				return r.streamFull(s, b, b.len)
			}
			return r.streamAtLeast(s, b, min)
		},
		"bufio.NewReader": mBufio, "bufio.NewReaderSize": mBufio,
		"(*bufio.Reader).Read": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if s := r.streamOf(a[0]); s != nil {
				return r.streamRead(s, needSlice(r, a[1]))
			}
			return r.stuckVals("bufio.Reader")
		},
		"(*io.LimitedReader).Read": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if s := r.streamOf(a[0]); s != nil {
				return r.streamRead(s, needSlice(r, a[1]))
			}
			return r.stuckVals("io.LimitedReader")
		},
		"(*bufio.Reader).ReadByte": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if s := r.streamOf(a[0]); s != nil {
				if !r.Decide(Ge(r.streamLeft(s), IntC(1))) {
					return []Val{IntC(0), r.streamEnd(s, false)}
				}
				return []Val{r.segRead(r.streamTake(s, IntC(1)), IntC(0)), r.nilErr()}
			}
			return r.stuckVals("bufio.Reader")
		},
		"io.LimitReader": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if s := r.streamOf(a[0]); s != nil {
				return []Val{r.limited(s, r.intVal(a[1]))}
			}
			t := App(SOpaque, "io.LimitReader", fn.Signature.Results().At(0).Type(), r.pick(a[0]), r.intVal(a[1]))
			t.non = true
			return []Val{t}
		},
		"io.ReadAll": mReadAll, "io/ioutil.ReadAll": mReadAll,
		"io.WriteString": func(r *Run, fn *ssa.Function, a []Val) []Val {
			wt := fn.Signature.Params().At(0).Type().Underlying().(*types.Interface)
			w := r.pick(a[0])
			if iv, ok := w.(*IfaceV); ok {
				if f := r.lookupMethod(iv.dyn, "WriteString"); f != nil {
					return r.callFn(f, []Val{iv.v, a[1]}, nil)
				}
			}
			return r.invoke(w, wt.Method(0), []Val{r.convert(a[1], types.Typ[types.String], bytesT)})
		},
		"io.CopyN": func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := r.streamOf(a[1])
			iv, ok := r.pick(a[0]).(*IfaceV)
			if s == nil || !ok || !strings.HasSuffix(iv.dyn.String(), "bytes.Buffer") {
				r.stuck("io.CopyN")
			}
			n := r.intVal(a[2])
			if !r.Decide(Ge(n, IntC(1))) {
				return []Val{IntC(0), r.nilErr()}
			}
			er := r.nilErr()
			if !r.Decide(Le(n, r.streamLeft(s))) {
				n = r.streamLeft(s)
				er = r.streamEnd(s, false)
			}
			r.sinkAdd(iv.v, "b", &SeqV{byteT, n, r.streamTake(s, n)})
			return []Val{n, er}
		},

		"(*sync.Map).Load": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if r.e.reflectOn {
				return syncModels[fn.String()](r, fn, a)
			}
			r.emit("sync.Load", a...)
			return []Val{r.fresh(fn.Signature.Results().At(0).Type(), "syncload"), r.freshBool("syncok")}
		},
		"(*sync.Map).Store": func(r *Run, fn *ssa.Function, a []Val) []Val {
			if r.e.reflectOn {
				return syncModels[fn.String()](r, fn, a)
			}
			r.emit("sync.Store", a...)
			return nil
		},
		"(crypto.Hash).New": func(r *Run, fn *ssa.Function, a []Val) []Val {
			t := App(SOpaque, "fresh:"+r.freshName("hash"), fn.Signature.Results().At(0).Type(), append([]Val{a[0]}, r.ctxArgs()...)...)
			t.non = true
			return []Val{t}
		},
		"golang.org/x/crypto/nacl/box.Seal": mBox("box.Seal"),
		"golang.org/x/crypto/nacl/box.Open": mBox("box.Open"),
	}
	delete(models, "bytes.NewBuffer")
	for n, w := range map[string]int{"16": 2, "32": 4, "64": 8} {
		w := w
		models["(encoding/binary.bigEndian).PutUint"+n] = func(r *Run, fn *ssa.Function, a []Val) []Val {
			putUint(r, a[len(a)-2], a[len(a)-1], w)
			return nil
		}
		models["(encoding/binary.bigEndian).Uint"+n] = func(r *Run, fn *ssa.Function, a []Val) []Val {
			return []Val{getUint(r, a[len(a)-1], w)}
		}
		models["(encoding/binary.bigEndian).AppendUint"+n] = func(r *Run, fn *ssa.Function, a []Val) []Val {
			x := r.intVal(a[len(a)-1])
			var segs []Seg
			for i := 0; i < w; i++ {
				segs = append(segs, Seg{IntC(int64(i)), IntC(int64(i + 1)), nil, Byte(x, w-1-i)})
			}
			b := needSlice(r, a[len(a)-2])
			return []Val{r.appendSegs(b, IntC(int64(w)), segs, b.typ)}
		}
		models["(encoding/binary.littleEndian).PutUint"+n] = func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := needSlice(r, a[len(a)-2])
			x := r.intVal(a[len(a)-1])
			r.require(Ge(s.len, IntC(int64(w))), "index out of range")
			var segs []Seg
			for i := 0; i < w; i++ {
				segs = append(segs, Seg{IntC(int64(i)), IntC(int64(i + 1)), nil, Byte(x, i)})
			}
			r.writeSlice(s, IntC(0), IntC(int64(w)), segs, nil)
			return nil
		}
		models["(encoding/binary.littleEndian).Uint"+n] = func(r *Run, fn *ssa.Function, a []Val) []Val {
			s := needSlice(r, a[len(a)-1])
			r.require(Ge(s.len, IntC(int64(w))), "index out of range")
			ar := r.getPath(r.st.heap[s.obj], s.path).(*ArrayV)
			res := IntC(0)
			for i := 0; i < w; i++ {
				res = Add(res, scale(r.intVal(r.arrRead(ar, AddC(s.off, int64(i)))), pow2(uint(8*i))))
			}
			return []Val{res}
		}
	}
}

func jsonStr(s *Term) *Term {
	return App(SStr, "jsonstr", nil, s)
}

func (r *Run) globalVal(pkg, name string) Val {
	for _, p := range r.e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return r.load(&PtrV{obj: r.globalObj(g), typ: g.Type()})
			}
		}
	}
	r.stuck("no %s.%s", pkg, name)
	return nil
}

func mNop(r *Run, fn *ssa.Function, a []Val) []Val {
	var res []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		res = append(res, r.zero(fn.Signature.Results().At(i).Type()))
	}
	return res
}

func mErrorf(r *Run, fn *ssa.Function, a []Val) []Val { return []Val{r.errorVal(a[0])} }

// mWrap: nil for a nil error
func mWrap(r *Run, fn *ssa.Function, a []Val) []Val {
	if r.Decide(r.isNil(a[0])) {
		return []Val{r.nilErr()}
	}
	return []Val{r.errorVal(a[0])}
}

func mWriteString(r *Run, fn *ssa.Function, a []Val) []Val {
	s, ok := r.pick(a[1]).(*Term)
	if !ok {
		r.stuck("WriteString of %s", show(a[1]))
	}
	r.sinkAdd(a[0], "s", s)
	return []Val{strLen(s), r.nilErr()}
}

func mWriteByte(r *Run, fn *ssa.Function, a []Val) []Val {
	c := r.intVal(a[1])
	if k, ok := c.int64(); ok {
		r.sinkAdd(a[0], "s", StrC(string([]byte{byte(k)})))
	} else {
		r.sinkAdd(a[0], "b", &SeqV{types.Typ[types.Uint8], IntC(1), []Seg{{IntC(0), IntC(1), nil, c}}})
	}
	return []Val{r.nilErr()}
}

func mWriteRune(r *Run, fn *ssa.Function, a []Val) []Val {
	s := runeStr(r.intVal(a[1]))
	r.sinkAdd(a[0], "s", s)
	return []Val{strLen(s), r.nilErr()}
}

func mWriteBytes(r *Run, fn *ssa.Function, a []Val) []Val {
	b := needSlice(r, a[1])
	q := r.freezeArg(b).(*SeqV)
	r.sinkAdd(a[0], "b", q)
	return []Val{b.len, r.nilErr()}
}

func mReset(r *Run, fn *ssa.Function, a []Val) []Val {
	q, s := r.sink(a[0])
	r.store(q, &SinkV{kind: s.kind})
	return nil
}

func mSinkLen(r *Run, fn *ssa.Function, a []Val) []Val {
	_, s := r.sink(a[0])
	if len(s.evs) == 0 {
		return []Val{IntC(0)}
	}
	if len(s.evs) == 1 && s.evs[0].op == "s" {
		return []Val{strLen(s.evs[0].args[0].(*Term))}
	}
	return []Val{AppR("sinklen", bigZero, nil, s)}
}

func mBig2(op string) modelFn {
	return func(r *Run, fn *ssa.Function, a []Val) []Val {
		x, y := r.bigCell(a[1]), r.bigCell(a[2])
		return []Val{r.bigSet(a[0], commute(op, x, y))}
	}
}

// commute: the term of an exact operation, commutative ones with their
// operands in a fixed order.
func commute(op string, x, y *Term) *Term {
	const dec = "(github.com/shopspring/decimal.Decimal)."
	for _, p := range []string{"big.", dec} {
		add, sub, neg := p+"Add", p+"Sub", p+"Neg"
		if (op == add || op == sub) && y.op == neg {
			op = map[string]string{add: sub, sub: add}[op]
			y = y.args[0].(*Term)
		} else if op == add && x.op == neg {
			op, x, y = sub, y, x.args[0].(*Term)
		}
	}
	switch op {
	case "big.Add", "big.Mul", "(github.com/shopspring/decimal.Decimal).Add", "(github.com/shopspring/decimal.Decimal).Mul":
		if x.id > y.id {
			x, y = y, x
		}
	}
	return App(SOpaque, op, x.typ, x, y)
}

// fOp: floating point addition and multiplication commute.
func fOp(op string, x, y *Term) *Term {
	// p+(-q) = p-q, p-(-q) = p+q
	if (op == "f+" || op == "f-") && y.op == "fneg" {
		op = map[string]string{"f+": "f-", "f-": "f+"}[op]
		y = y.args[0].(*Term)
	} else if op == "f+" && x.op == "fneg" {
		op, x, y = "f-", y, x.args[0].(*Term)
	}
	if (op == "f+" || op == "f*") && x.id > y.id {
		x, y = y, x
	}
	return App(SFloat, op, nil, x, y)
}

// fLess: a < b, decided for constants.
func fLess(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.op == "flt" && b.op == "flt" && a.sort == SFloat && b.sort == SFloat {
		x, ok1 := new(big.Rat).SetString(a.s)
		y, ok2 := new(big.Rat).SetString(b.s)
		if ok1 && ok2 {
			return BoolC(x.Cmp(y) < 0)
		}
	}
	return App(SBool, "flt", nil, a, b)
}

// fLessEq: a <= b, decided for constants.
func fLessEq(a, b *Term) *Term {
	if a.op == "flt" && b.op == "flt" && a.sort == SFloat && b.sort == SFloat {
		x, ok1 := new(big.Rat).SetString(a.s)
		y, ok2 := new(big.Rat).SetString(b.s)
		if ok1 && ok2 {
			return BoolC(x.Cmp(y) <= 0)
		}
	}
	return App(SBool, "fle", nil, a, b)
}

func mBig1(op string) modelFn {
	return func(r *Run, fn *ssa.Function, a []Val) []Val {
		x := r.bigCell(a[1])
		if op != "" {
			x = bigTerm(op, x)
		}
		return []Val{r.bigSet(a[0], x)}
	}
}

func mBigBytes(op string) modelFn {
	return func(r *Run, fn *ssa.Function, a []Val) []Val {
		c := r.bigCell(a[0])
		t := fn.Signature.Results().At(0).Type()
		res := []Val{r.freshSliceOf(App(SOpaque, op, t, c), t)}
		if fn.Signature.Results().Len() > 1 {
			res = append(res, App(SOpaque, op+".err", fn.Signature.Results().At(1).Type(), c))
		}
		return res
	}
}

func mDecBig(op string) modelFn {
	return func(r *Run, fn *ssa.Function, a []Val) []Val {
		return []Val{r.newBig(fn, bigTerm(op, a[0]))}
	}
}

func mDecDiv(r *Run, fn *ssa.Function, a []Val) []Val {
	r.require(Not(App(SBool, "dec.IsZero", nil, a[1])), "decimal division by zero")
	return r.pureCall(fn.String(), fn.Signature, r.freezeArgs(a))
}

func mBufio(r *Run, fn *ssa.Function, a []Val) []Val {
	s := r.streamOf(a[0])
	if s == nil {
		x := App(SOpaque, "bufio.NewReader", fn.Signature.Results().At(0).Type(), r.pick(a[0]))
		x.non = true
		return []Val{x}
	}
	return []Val{r.buffered(s, fn.Signature.Results().At(0).Type())}
}

func (r *Run) stuckVals(what string) []Val {
	r.stuck("%s", what)
	return nil
}

func mReadAll(r *Run, fn *ssa.Function, a []Val) []Val {
	src := r.pick(a[0])
	if s := r.streamOf(src); s != nil {
		n := r.streamLeft(s)
		segs := r.streamTake(s, n)
		er := r.nilErr()
		if f := r.streamFailure(s); f != nil {
			er = f
		}
		t := fn.Signature.Results().At(0).Type()
		return []Val{r.newSlice(t, n, segs, &Meta{fresh: true, typ: t}), er}
	}
	if len(r.e.streams) > 0 {
		r.stuck("io.ReadAll of a reader that is not modelled")
	}
	r.emit("io.ReadAll", src)
	t := fn.Signature.Results().At(0).Type()
	x := App(SOpaque, "fresh:"+r.freshName("readall"), t, r.ctxArgs()...)
	s := r.freshSliceOf(x, t)
	e := r.freshErr("readallerr")
	if st, ok := src.(*Term); ok && st.op == "io.LimitReader" {
		lim := st.args[1].(*Term)
		r.assume(Or(Le(s.len, lim), Eq0(s.len)))
	}
	return []Val{s, e}
}

func mBox(op string) modelFn {
	return func(r *Run, fn *ssa.Function, a []Val) []Val {
		out := needSlice(r, a[0])
		var fz []Val
		for _, x := range a[1:] {
			y := r.pick(x)
			if p, ok := y.(*PtrV); ok {
				c := r.load(p)
				if ar, ok := c.(*ArrayV); ok {
					fz = append(fz, &SeqV{ar.elem, ar.n, ar.segs})
					continue
				}
			}
			if t, ok := y.(*Term); ok {
				r.require(Not(IsNilAtom(t)), "nil pointer dereference")
			}
			fz = append(fz, r.freezeArg(y))
		}
		pos, _ := r.where()
		_ = pos
		r.emit(op, append([]Val{r.freezeArg(out)}, fz...)...)
		t := fn.Signature.Results().At(0).Type()
		x := App(SOpaque, op, t, fz...)
		r.st.evs[len(r.st.evs)-1].res = []Val{x}
		el := t.Underlying().(*types.Slice).Elem()
		n := AppR("len", bigZero, nil, x)
		kv := BoundVar("·e")
		segs := []Seg{{IntC(0), n, kv, elemOf(x, el, kv)}}
		if op == "box.Open" {
			ok := App(SBool, op+".ok", nil, fz...)
			return []Val{r.appendSegs(out, n, segs, t), ok}
		}
		return []Val{r.appendSegs(out, n, segs, t)}
	}
}

// bytesStr: the byte content of a []byte as a string term.
func (r *Run) bytesStr(v Val) *Term {
	s := needSlice(r, v)
	if s.obj == 0 {
		return StrC("")
	}
	return r.strOfSeq(r.freezeSlice(s))
}

// ---- sorting and searching

// mSearch: sort.Search(n, f) = i with 0<=i<=n, f(i) if i<n, !f(i-1) if i>0.
func mSearch(r *Run, fn *ssa.Function, a []Val) []Val {
	n := r.intVal(a[0])
	i := r.freshInt("search", bigZero)
	r.assume(Or(Le(i, n), And(Lt(n, IntC(0)), Eq0(i))))
	if r.Decide(Lt(i, n)) {
		v := r.callVal(a[1], []Val{i})
		r.assumeVal(v[0])
	} else {
		r.assume(Or(EqI(i, n), Eq0(i)))
		if r.entails(Ge0(n)) {
			r.assume(EqI(i, n))
		}
	}
	if r.Decide(Ge(i, IntC(1))) {
		v := r.callVal(a[1], []Val{AddC(i, -1)})
		t, ok := r.pick(v[0]).(*Term)
		if !ok {
			r.stuck("search predicate")
		}
		r.assume(Not(t))
	}
	return []Val{r.locate(i)}
}

func (r *Run) assumeVal(v Val) {
	t, ok := r.pick(v).(*Term)
	if !ok {
		r.stuck("predicate value %s", show(v))
	}
	r.assume(t)
}

// sortedSeq replaces the content of slice s by the stable description of its
// sorted permutation under the ordering less.
func (r *Run) sortContent(s *SliceV, sig Val, nonNil bool) {
	if s.obj == 0 {
		return
	}
	el := r.sliceElem(s)
	x := App(SOpaque, "sorted", s.typ, r.freezeSlice(s), sig)
	kv := BoundVar("·e")
	r.writeSlice(s, IntC(0), s.len, []Seg{{IntC(0), s.len, kv, elemOf(x, el, kv)}}, x)
	if j := BoundVar("·q"); nonNil {
		if e, ok := elemOf(x, el, j).(*Term); ok {
			r.st.f.all = append(r.st.f.all[:len(r.st.f.all):len(r.st.f.all)],
				&Forall{j: j, from: IntC(0), to: s.len, conds: []*Term{Not(IsNilAtom(e))}})
		}
	}
}

// lessSig evaluates the ordering on two generic elements of a generic slice.
func (r *Run) lessSig(nonNil bool, t types.Type, call func(s *SliceV, i, j *Term) Val) Val {
	g := Sym(SOpaque, "·sort", t)
	s := r.symSlice(g, t)
	i, j := Sym(SInt, "·i", nil), Sym(SInt, "·j", nil)
	save := r.st
	st := r.st.clone()
	st.f.assume(Ge0(i))
	st.f.assume(Ge0(j))
	st.f.assume(Lt(i, s.len))
	st.f.assume(Lt(j, s.len))
	if el := r.sliceElem(s); nonNil {
		for _, k := range []*Term{i, j} {
			st.f.assume(Not(r.isNil(elemOf(g, el, k))))
		}
	}
	outs := r.e.Explore(st, r.stack, func(q *Run) []Val {
		return []Val{call(s, i, j)}
	})
	r.st = save
	var res Val
	for _, o := range outs {
		if o.kind != "ret" {
			if o.kind == "panic" {
				r.progPanic("ordering used for sorting: " + o.msg)
			}
			r.stuck("ordering used for sorting: %s", o.msg)
		}
		if len(o.st.writes) > len(save.writes) {
			for _, w := range o.st.writes[len(save.writes):] {
				if m := o.st.meta[w.obj]; m == nil || !m.fresh {
					r.stuck("the ordering used for sorting writes memory")
				}
			}
		}
	}
	// several outcomes: nested conditions on the first-level facts
	for k := len(outs) - 1; k >= 0; k-- {
		o := outs[k]
		if res == nil {
			res = o.res[0]
			continue
		}
		var cs []*Term
		seen := map[*Term]bool{}
		for _, t := range st.f.list {
			seen[t] = true
		}
		for _, t := range o.st.f.list {
			if !seen[t] {
				cs = append(cs, t)
			}
		}
		res = mkIte(And(cs...), o.res[0], res)
	}
	if res == nil {
		r.stuck("ordering used for sorting does not return")
	}
	return res
}

// allNonNil: no element of the slice of interfaces is nil.
func (r *Run) allNonNil(s *SliceV) bool {
	if s == nil || !types.IsInterface(r.sliceElem(s)) {
		return false
	}
	if s.obj == 0 || r.entails(Le(s.len, IntC(0))) {
		return true
	}
	if !r.Decide(Gt(s.len, IntC(0))) {
		return true
	}
	k := r.index("el", s.len)
	x := r.pick(r.segRead(r.sliceSegs(s), k))
	if _, ok := x.(*IfaceV); ok {
		return true
	}
	r.hint(x)
	return r.deep(Not(r.isNil(x)))
}

func mSort(r *Run, fn *ssa.Function, a []Val) []Val {
	iv, ok := r.pick(a[0]).(*IfaceV)
	if !ok {
		r.stuck("sort of %s", show(a[0]))
	}
	s, ok := r.pick(iv.v).(*SliceV)
	if !ok {
		r.stuck("sort of %s", show(iv.v))
	}
	less := r.lookupMethod(iv.dyn, "Less")
	swap := r.lookupMethod(iv.dyn, "Swap")
	ln := r.lookupMethod(iv.dyn, "Len")
	if less == nil || swap == nil || ln == nil {
		r.stuck("sort of %s", iv.dyn)
	}
	if r.sortKnown(s, func(i, j int64) bool {
		v, ok := r2call(r, less, retype(s, iv.dyn), IntC(i), IntC(j)).(*Term)
		if !ok {
			r.stuck("ordering of %s", iv.dyn)
		}
		return r.Decide(v)
	}, func(i, j int64) {
		r.callFn(swap, []Val{retype(s, iv.dyn), IntC(i), IntC(j)}, nil)
	}) {
		return nil
	}
	nonNil := r.allNonNil(s)
	sig := r.lessSig(nonNil, s.typ, func(x *SliceV, i, j *Term) Val {
		return r2call(r, less, retype(x, iv.dyn), i, j)
	})
	// Swap and Len are what sort.Sort needs
	if !r.e.sortOK[typeKey(iv.dyn)] {
		r.checkSortInterface(iv.dyn, swap, ln)
		r.e.sortOK[typeKey(iv.dyn)] = true
	}
	r.sortContent(s, sig, nonNil)
	return nil
}

// sortKnown sorts a slice of a few known elements by insertion.
func (r *Run) sortKnown(s *SliceV, less func(i, j int64) bool, swap func(i, j int64)) bool {
	n, ok := s.len.int64()
	if !ok || n > 8 || !r.e.reflectOn {
		return false
	}
	save := r.e.curRun
	r.e.curRun = r
	for i := int64(1); i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
	r.e.curRun = save
	return true
}

func r2call(r *Run, fn *ssa.Function, args ...Val) Val {
	// the exploring run is the innermost one
	res := r.e.curRun.callFn(fn, args, nil)
	if len(res) == 0 {
		return nil
	}
	return res[0]
}

func (r *Run) checkSortInterface(t types.Type, swap, ln *ssa.Function) {
	g := Sym(SOpaque, "·swap", t)
	i, j := Sym(SInt, "·i", nil), Sym(SInt, "·j", nil)
	st := r.e.start()
	outs := r.e.Explore(st, nil, func(q *Run) []Val {
		s := q.symSlice(g, t)
		q.assume(Ge0(i))
		q.assume(Ge0(j))
		q.assume(Lt(i, s.len))
		q.assume(Lt(j, s.len))
		n := q.callFn(ln, []Val{s}, nil)[0]
		if n.key() != s.len.key() {
			q.violation("Len of %s is not the length", shortType(t))
		}
		el := q.sliceElem(s)
		xi, xj := elemOf(g, el, i), elemOf(g, el, j)
		q.callFn(swap, []Val{s, i, j}, nil)
		ni := q.loadPtr(q.indexAddr(s, i, types.NewPointer(el)))
		nj := q.loadPtr(q.indexAddr(s, j, types.NewPointer(el)))
		if !q.Decide(EqI(i, j)) {
			if ni.key() != xj.key() || nj.key() != xi.key() {
				q.violation("Swap of %s does not exchange two elements", shortType(t))
			}
		}
		return nil
	})
	for _, o := range outs {
		if o.kind != "ret" {
			panic(pathEnd{kind: o.kind, msg: o.msg, pos: o.pos, fn: o.fn})
		}
	}
}

func (r *Run) violation(format string, a ...interface{}) {
	r.refute()
	pos, fn := r.where()
	panic(pathEnd{kind: "violation", msg: sprintf(format, a...), pos: pos, fn: fn})
}

func mSortSlice(r *Run, fn *ssa.Function, a []Val) []Val {
	v := r.pick(a[0])
	if iv, ok := v.(*IfaceV); ok {
		v = r.pick(iv.v)
	}
	s, ok := v.(*SliceV)
	if !ok {
		r.stuck("sort of %s", show(v))
	}
	f, ok := r.pick(a[1]).(*FuncV)
	if !ok {
		r.stuck("ordering %s", show(a[1]))
	}
	if s.obj == 0 {
		return nil
	}
	if r.sortKnown(s, func(i, j int64) bool {
		v, ok := r.callVal(f, []Val{IntC(i), IntC(j)})[0].(*Term)
		if !ok {
			r.stuck("ordering by %s", show(f))
		}
		return r.Decide(v)
	}, func(i, j int64) {
		et := types.NewPointer(r.sliceElem(s))
		p, q := r.indexAddr(s, IntC(i), et).(*PtrV), r.indexAddr(s, IntC(j), et).(*PtrV)
		x, y := r.load(p), r.load(q)
		r.store(p, y)
		r.store(q, x)
	}) {
		return nil
	}
	nonNil := r.allNonNil(s)
	// evaluate the closure on the slice itself with generic content
	id := s.obj
	save := r.st.heap[id]
	g := Sym(SOpaque, "·sort", s.typ)
	gs := r.symSlice(g, s.typ)
	gc := r.st.heap[gs.obj].(*ArrayV)
	r.st.heap[id] = &ArrayV{gc.elem, save.(*ArrayV).n, shiftSegs(gc.segs, s.off)}
	sig := r.lessSig(nonNil, s.typ, func(x *SliceV, i, j *Term) Val {
		q := r.e.curRun
		q.st.f.assume(Lt(i, s.len))
		q.st.f.assume(Lt(j, s.len))
		return q.callVal(f, []Val{i, j})[0]
	})
	r.st.heap[id] = save
	r.sortContent(s, sig, nonNil)
	return nil
}

// ---- builtins

func (r *Run) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Val) []Val {
	switch b.Name() {
	case "len":
		x := r.pick(args[0])
		switch x := x.(type) {
		case *SliceV:
			return []Val{x.len}
		case *Term:
			if x.sort == SStr {
				return []Val{strLen(x)}
			}
			if _, ok := x.typ.Underlying().(*types.Map); ok {
				_, mv := r.mapObj(x)
				return []Val{r.lenOfMap(mv)}
			}
			if pt, ok := x.typ.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return []Val{IntC(at.Len())}
				}
			}
		case *ArrayV:
			return []Val{x.n}
		case *NilV:
			return []Val{IntC(0)}
		case *PtrV:
			switch v := r.load(x).(type) {
			case *MapV:
				return []Val{r.lenOfMap(v)}
			case *ArrayV:
				return []Val{v.n}
			}
		}
		r.stuck("len of %s", show(x))
	case "cap":
		if s, ok := r.pick(args[0]).(*SliceV); ok {
			return []Val{s.cap}
		}
		r.stuck("cap of %s", show(args[0]))
	case "append":
		s := needSlice(r, args[0])
		t := c.Args[0].Type()
		var n *Term
		var segs []Seg
		switch y := r.pick(args[1]).(type) {
		case *SliceV:
			n, segs = y.len, r.sliceSegs(y)
		case *Term:
			if y.sort != SStr {
				r.stuck("append of %s", show(y))
			}
			q := r.bytesOf(y, t)
			n, segs = q.len, r.sliceSegs(q)
		case *NilV:
			n = IntC(0)
		default:
			r.stuck("append of %s", show(y))
		}
		return []Val{r.appendSegs(s, n, segs, t)}
	case "copy":
		d := needSlice(r, args[0])
		var n *Term
		var segs []Seg
		var from Val
		switch y := r.pick(args[1]).(type) {
		case *SliceV:
			n, segs, from = y.len, r.sliceSegs(y), y
		case *Term:
			q := r.bytesOf(y, d.typ)
			n, segs = q.len, r.sliceSegs(q)
		}
		cnt := n
		if !r.Decide(Le(n, d.len)) {
			cnt = d.len
			_, rest := r.cut(segs, cnt)
			_ = rest
			l, _ := r.cut(segs, cnt)
			segs = l
		}
		if d.obj != 0 {
			r.writeSlice(d, IntC(0), cnt, segs, from)
		}
		return []Val{cnt}
	case "delete":
		r.stuck("delete")
	case "print", "println":
		return nil
	case "close":
		r.emit("close", args[0])
		return nil
	case "min", "max":
		x := r.intVal(args[0])
		for _, y := range args[1:] {
			t := r.intVal(y)
			if r.Decide(Le(x, t)) == (b.Name() == "max") {
				x = t
			}
		}
		return []Val{x}
	case "ssa:wrapnilchk":
		p := r.pick(args[0])
		if _, ok := p.(*NilV); ok {
			r.progPanic("nil pointer dereference")
		}
		if t, ok := p.(*Term); ok {
			r.require(Not(IsNilAtom(t)), "nil pointer dereference")
		}
		return []Val{p}
	}
	r.stuck("builtin %s", b.Name())
	return nil
}

func (r *Run) lenOfMap(mv *MapV) *Term {
	if len(mv.ups) == 0 {
		if mv.base == nil {
			return IntC(0)
		}
		return mapLen(mv.base)
	}
	return AppR("maplen", bigZero, nil, mv)
}

// appendSegs: append(s, n elements given by segs).
func (r *Run) appendSegs(s *SliceV, n *Term, segs []Seg, t types.Type) Val {
	if r.entails(Le(n, IntC(0))) {
		return retype(s, t)
	}
	total := Add(s.len, n)
	grows := ""
	if s.obj != 0 {
		m := r.st.meta[s.obj]
		if m == nil || !m.appnd {
			// in place when the capacity suffices
			if r.Decide(Le(total, s.cap)) {
				r.writeSlice(s, s.len, n, segs, nil)
				return &SliceV{s.obj, s.path, s.off, total, s.cap, t}
			}
		} else if !r.entails(EqI(s.len, s.cap)) {
			// grown by append before: spare capacity is unknown; a second
			// append to the same prefix could overwrite the first
			k := s.key()
			if id := r.st.grown[k]; id != 0 {
				if !r.e.reflectOn {
					r.stuck("two appends to the same slice %s", show(s))
				}
				a, ok := r.st.heap[id].(*ArrayV)
				if !ok {
					r.stuck("two appends to the same slice %s", show(s))
				}
				if r.choose(2) == 0 {
					// the spare capacity the first one took
					r.assume(Le(total, s.cap))
					r.assume(Le(total, a.n))
					first := &SliceV{obj: id, off: IntC(0), len: total, cap: a.n, typ: t}
					r.writeSlice(first, s.len, n, segs, nil)
					return first
				}
			} else {
				grows = k
			}
		}
	}
	base := r.sliceSegs(s)
	all := append(append([]Seg{}, base...), shiftSegs(segs, s.len)...)
	m := &Meta{fresh: true, typ: t, appnd: true}
	if s.obj == 0 || r.entails(Eq0(s.len)) {
		// append(nil, nothing...) stays nil
		nn := r.isNil(s)
		if nn == True {
			m.nilIf = Le(n, IntC(0))
		}
	}
	c := r.freshInt("cap", bigZero)
	r.st.f.assume(Ge(c, total))
	el := t.Underlying().(*types.Slice).Elem()
	all = r.clean(all)
	id := r.st.newObj(&ArrayV{el, c, append(all[:len(all):len(all)], Seg{total, c, nil, r.zero(el)})}, m)
	if grows != "" {
		g := map[string]int{grows: id}
		for x, o := range r.st.grown {
			g[x] = o
		}
		r.st.grown = g
	}
	return &SliceV{obj: id, off: IntC(0), len: total, cap: c, typ: t}
}

var _ = token.ADD
var _ = big.NewInt

// ---- opaque interface methods

func (r *Run) opaqueInvoke(x *Term, m *types.Func, args []Val) []Val {
	if r.e.invokeHook != nil {
		if res, ok := r.e.invokeHook(r, x, m, args); ok {
			return res
		}
	}
	sig := m.Type().(*types.Signature)
	name := m.Name()
	owner := ""
	if m.Pkg() != nil {
		owner = m.Pkg().Path()
	}
	r.e.calls["invoke "+name]++
	iface := ""
	if n, ok := x.typ.(*types.Named); ok {
		iface = n.Obj().Name()
	}
	if owner == pkgPath {
		switch name {
		case "Pack":
			return r.packOpaque(x, args)
		case "PrintJSON":
			r.sinkAdd(args[0], "json", x)
			return nil
		case "Equal":
			y, ok := r.pick(args[0]).(*Term)
			if !ok {
				break
			}
			if iface == "ListItem" || iface == "MapEntry" {
				r.require(Not(IsNilAtom(y)), "nil dereference")
				return []Val{And(r.keyEq(r.keyOf(x), r.keyOf(y)), r.eqTerm(r.valueOf(x), r.valueOf(y)))}
			}
			return []Val{equalAtom(x, y)}
		case "Update":
			r.emit("Update", append([]Val{x}, r.freezeArgs(args)...)...)
			res := r.freshResults(sig, "updated")
			r.st.evs[len(r.st.evs)-1].res = res
			return res
		}
		if strings.HasPrefix(name, "Pack") || strings.HasPrefix(name, "Parse") || iface == "Unpacker" || (iface == "Packer") || iface == "Parser" {
			r.emit(iface+"."+name, append([]Val{x}, r.freezeArgs(args)...)...)
			if name == "Error" {
				return r.freshResults(sig, "perr")
			}
			return r.freshResults(sig, name)
		}
	}
	switch owner {
	case pkgPath, "reflect", "fmt", "":
		if g := goType(x); g != nil && owner == "reflect" && (r.e.reflectOn || name == "Elem") {
			if res, ok := r.typeMethod(x, g, m, args); ok {
				return res
			}
		}
		if name == "Elem" && owner == "reflect" && strings.HasPrefix(x.op, "reflect.type:*") {
			t := App(SOpaque, "reflect.type:"+strings.TrimPrefix(x.op, "reflect.type:*"), x.typ)
			t.non = true
			return []Val{t}
		}
		if name == "String" {
			return []Val{App(SStr, "call:String", nil, x)}
		}
		if name == "Kind" && owner == pkgPath {
			return []Val{kindOf(x)}
		}
		op := "call:" + name
		n := sig.Results().Len()
		var res []Val
		for i := 0; i < n; i++ {
			o := op
			if n > 1 {
				o = op + "." + string(rune('0'+i))
			}
			t := sig.Results().At(i).Type()
			fa := r.freezeArgs(args)
			if name == "Len" && owner == pkgPath {
				res = append(res, AppR(o, bigZero, nil, x))
				continue
			}
			v := r.opaqueVal(t, o, append([]Val{x}, fa...)...)
			if s, ok := v.(*SliceV); ok && owner == pkgPath {
				if (name == "Entries" && r.isKind(x, "Map", iface)) || (name == "Values" && r.isKind(x, "List", iface)) {
					r.st.f.assume(EqI(s.len, AppR("call:Len", bigZero, nil, x)))
				}
			}
			if tt, ok := v.(*Term); ok && tt.sort == SOpaque {
				switch {
				case owner == "reflect", name == "BigInt", name == "Class":
					tt.non = true
				}
			}
			res = append(res, v)
		}
		return res
	case "io":
		switch name {
		case "Write":
			b := needSlice(r, args[0])
			if strings.HasPrefix(x.op, "fresh:hash") {
				// hash.Hash: Write never returns an error
				r.emit("Write", x, r.freezeArg(b), r.nilErr())
				return []Val{b.len, r.nilErr()}
			}
			n := r.freshInt("wn", nil)
			e := r.freshErr("werr")
			// io.Writer: a short write is an error
			r.assume(Le(n, b.len))
			r.assume(Or(EqI(n, b.len), Not(IsNilAtom(e))))
			r.emit("Write", x, r.freezeArg(b), e)
			return []Val{n, e}
		case "Read":
			b := needSlice(r, args[0])
			if s := r.streamOf(x); s != nil {
				return r.streamRead(s, b)
			}
			n := r.freshInt("rn", bigZero)
			r.assume(Le(n, b.len))
			e := r.freshErr("rerr")
			r.emit("Read", x, b.len)
			if b.obj != 0 {
				d := App(SOpaque, "fresh:"+r.freshName("rdata"), b.typ, r.ctxArgs()...)
				r.st.evs[len(r.st.evs)-1].res = []Val{d, e, n}
				kv := BoundVar("·e")
				r.writeSlice(b, IntC(0), b.len, []Seg{{IntC(0), b.len, kv, elemOf(d, r.sliceElem(b), kv)}}, nil)
			}
			return []Val{n, e}
		case "ReadByte":
			if s := r.streamOf(x); s != nil {
				if !r.Decide(Ge(r.streamLeft(s), IntC(1))) {
					return []Val{IntC(0), r.streamEnd(s, false)}
				}
				return []Val{r.segRead(r.streamTake(s, IntC(1)), IntC(0)), r.nilErr()}
			}
			r.emit("ReadByte", x)
			return r.freshResults(sig, "readbyte")
		}
	case "hash":
		switch name {
		case "Sum":
			r.emit("hash.Sum", append([]Val{x}, r.freezeArgs(args)...)...)
			t := sig.Results().At(0).Type()
			d := App(SOpaque, "fresh:"+r.freshName("digest"), t, r.ctxArgs()...)
			r.st.evs[len(r.st.evs)-1].res = []Val{d}
			kv, n := BoundVar("·e"), AppR("len", bigZero, nil, d)
			b := needSlice(r, args[0])
			return []Val{r.appendSegs(b, n, []Seg{{IntC(0), n, kv, elemOf(d, r.sliceElem(b), kv)}}, t)}
		case "Reset":
			r.emit("hash.Reset", x)
			return nil
		case "Size", "BlockSize":
			n := AppR("hash."+name, bigZero, nil, x)
			r.assume(Le(n, IntC(1<<16)))
			return []Val{n}
		}
	}
	r.stuck("no contract for method %s of %s", name, x)
	return nil
}

func (r *Run) isKind(x *Term, name, iface string) bool {
	if iface == name {
		return true
	}
	for k, n := range kindIface {
		if n == name {
			return r.st.f.entails(EqI(kindOf(x), IntC(k)))
		}
	}
	return false
}

func (r *Run) freshResults(sig *types.Signature, base string) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := r.fresh(t, base+"."+string(rune('0'+i)))
		if s, ok := v.(*SliceV); ok {
			_ = s
		}
		res = append(res, v)
	}
	return res
}

// packOpaque: x.Pack(p). When p is a packer of the library its Error and
// writer are affected as by any sequence of Pack calls.
func (r *Run) packOpaque(x *Term, args []Val) []Val {
	p := r.pick(args[0])
	iv, ok := p.(*IfaceV)
	if !ok || r.e.packLog {
		r.emit("Value.Pack", x, p)
		return nil
	}
	ptr, ok := r.pick(iv.v).(*PtrV)
	if !ok {
		r.stuck("Pack on %s", show(p))
	}
	st, ok := r.load(ptr).(*StructV)
	if !ok {
		r.stuck("Pack on %s", show(p))
	}
	ut, ok := st.typ.Underlying().(*types.Struct)
	if !ok {
		r.stuck("Pack on %s", show(p))
	}
	wi, ei := -1, -1
	for i := 0; i < ut.NumFields(); i++ {
		switch typeKey(ut.Field(i).Type()) {
		case "io.Writer":
			wi = i
		case "error":
			ei = i
		}
	}
	if wi < 0 || ei < 0 {
		r.stuck("packer %s", show(st))
	}
	if !r.Decide(r.isNil(st.fields[ei])) {
		return nil
	}
	e := r.freshErr("packerr")
	w := r.pick(st.fields[wi])
	if wv, ok := w.(*IfaceV); ok {
		r.sinkAdd(wv.v, "pack", x)
		if !r.e.packFails {
			return nil
		}
		r.emit("packed", x, e)
	} else {
		r.emit("PackTo", w, x, e)
	}
	np := &PtrV{ptr.obj, append(ptr.path[:len(ptr.path):len(ptr.path)], Acc{field: ei}), nil}
	r.store(np, e)
	return nil
}

// encodedBy: the sequence is exactly what the encoder op produced; returns
// what was encoded.
func (r *Run) encodedBy(v Val, op string) *Term {
	q, ok := v.(*SeqV)
	if !ok || len(q.segs) != 1 || q.segs[0].kv == nil || !q.segs[0].lo.isConst() {
		return nil
	}
	b, ok := q.segs[0].body.(*Term)
	if !ok || b.op != "elem" || b.args[1] != Val(q.segs[0].kv) {
		return nil
	}
	x, ok := b.args[0].(*Term)
	if !ok || x.op != op {
		return nil
	}
	// the length may have been decided by comparisons: equal, not identical
	if n := AppR("len", bigZero, nil, x); q.n != n && !r.st.f.entails(EqI(q.n, n)) {
		return nil
	}
	c, _ := x.args[0].(*Term)
	return c
}

// payload notes the outcome of decoding an extension's payload.
func (r *Run) payload(err *Term) []Val {
	if r.e.notePayload {
		r.emit("payload")
		r.st.evs[len(r.st.evs)-1].res = []Val{nil, err}
	}
	return []Val{err}
}

// decBig: the decimal of a coefficient and an exponent; a whole number of an
// int64 is the decimal of that number
func (r *Run) decBig(typ types.Type, c *Term, exp Val) *Term {
	if c.op == "big.int" && c.args[0].(*Term).sort == SInt && r.entails(Eq0(r.intVal(exp))) {
		// the decimal of an unsigned number beyond 63 bits is not an int64
		if k := c.args[0].(*Term); r.entails(Le(k, IntB(new(big.Int).Sub(pow2(63), bigOne)))) {
			return App(SOpaque, "dec.int", typ, k)
		}
	}
	return App(SOpaque, "dec.big", typ, c, exp)
}
