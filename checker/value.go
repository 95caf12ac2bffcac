package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// composite abstract values

type NilV struct{ typ types.Type } // nil pointer / interface / map / func / chan

type IfaceV struct { // interface value with a known dynamic type
	dyn types.Type
	v   Val
}

type Acc struct { // one step of an access path
	field int   // >= 0
	idx   *Term // array index when field < 0
}

type PtrV struct {
	obj  int
	path []Acc
	typ  types.Type // pointer type
}

type SliceV struct {
	obj  int // 0: nil slice
	path []Acc
	off  *Term
	len  *Term
	cap  *Term
	typ  types.Type
}

type StructV struct {
	typ    types.Type
	fields []Val
}

// Seg: elements [lo,hi) are body with kv replaced by the index.
type Seg struct {
	lo, hi *Term
	kv     *Term // nil: body does not depend on the index
	body   Val
}

type ArrayV struct {
	elem types.Type
	n    *Term
	segs []Seg
}

type TupleV struct{ vs []Val }

type FuncV struct {
	fn   *ssa.Function
	bind []Val
}

type BoundMethodV struct { // method value on an opaque receiver
	recv Val
	name string
}

// NewV is the address of an object allocated in a finished loop iteration,
// known by its content.
type NewV struct {
	typ  types.Type // pointer type
	cell Val
}

// SeqV is an immutable snapshot of a sequence (base 0).
type SeqV struct {
	elem types.Type
	n    *Term
	segs []Seg
}

type IteV struct {
	c    *Term
	a, b Val
}

// MapV is a Go map object content: updates over a base.
type MapV struct {
	typ  types.Type
	base *Term // nil: empty
	ups  []MapUp
	tag  string // marks contents produced by a summarised loop
}

type MapUp struct {
	k, v Val
	loop *LoopUp // non-nil: for all iterations
}

type LoopUp struct {
	j, n *Term
	may  bool // some iterations do not make the update
}

// OpaqueObj: content of a heap object modelled by stdlib models (builders etc.)
type SinkV struct {
	kind string
	evs  []Event
	ver  int
}

func (v *NilV) key() string { return "nil" }
func (v *IfaceV) key() string {
	return "I{" + typeKey(v.dyn) + ":" + v.v.key() + "}"
}
func pathKey(p []Acc) string {
	var sb strings.Builder
	for _, a := range p {
		if a.field >= 0 {
			fmt.Fprintf(&sb, ".%d", a.field)
		} else {
			sb.WriteString("[" + a.idx.key() + "]")
		}
	}
	return sb.String()
}
func (v *PtrV) key() string { return "P" + strconv.Itoa(v.obj) + pathKey(v.path) }
func (v *SliceV) key() string {
	if v.obj == 0 {
		return "nil"
	}
	return fmt.Sprintf("S%d%s:%s:%s:%s", v.obj, pathKey(v.path), v.off.key(), v.len.key(), v.cap.key())
}
func valsKey(vs []Val) string {
	var ss []string
	for _, v := range vs {
		if v == nil {
			ss = append(ss, "_")
		} else {
			ss = append(ss, v.key())
		}
	}
	return strings.Join(ss, ",")
}
func (v *StructV) key() string { return "{" + valsKey(v.fields) + "}" }

var canonKV = BoundVar("·k")

func segsKey(segs []Seg) string {
	var ss []string
	for _, s := range segs {
		b := s.body
		if s.kv != nil && s.kv != canonKV {
			b = subst(b, s.kv, canonKV)
		}
		ss = append(ss, s.lo.key()+".."+s.hi.key()+"="+b.key())
	}
	return strings.Join(ss, ";")
}
func (v *ArrayV) key() string { return "A" + v.n.key() + "[" + segsKey(v.segs) + "]" }
func (v *SeqV) key() string   { return "Q" + v.n.key() + "[" + segsKey(v.segs) + "]" }
func (v *TupleV) key() string { return "(" + valsKey(v.vs) + ")" }
func (v *FuncV) key() string  { return "F" + v.fn.String() + "{" + valsKey(v.bind) + "}" }
func (v *BoundMethodV) key() string {
	return "BM" + v.name + "{" + v.recv.key() + "}"
}
func (v *NewV) key() string { return "N" + typeKey(v.typ) + "{" + v.cell.key() + "}" }
func (v *IteV) key() string {
	return "?(" + v.c.key() + "," + v.a.key() + "," + v.b.key() + ")"
}
func (v *MapV) key() string {
	s := "M"
	if v.base != nil {
		s += v.base.key()
	}
	for _, u := range v.ups {
		s += "|" + u.k.key() + "=>" + u.v.key()
		if u.loop != nil {
			s += "@" + u.loop.j.key() + "<" + u.loop.n.key()
		}
	}
	return s
}
func (v *SinkV) key() string {
	s := "K" + v.kind
	for _, e := range v.evs {
		s += "|" + e.key()
	}
	return s
}

func mentionsBound(v Val) bool {
	switch v := v.(type) {
	case *Term:
		return v.bnd
	case *IfaceV:
		return mentionsBound(v.v)
	case *PtrV:
		for _, a := range v.path {
			if a.field < 0 && a.idx.bnd {
				return true
			}
		}
		return false
	case *SliceV:
		return v.obj != 0 && (v.off.bnd || v.len.bnd || v.cap.bnd)
	case *StructV:
		return anyBound(v.fields)
	case *ArrayV:
		return v.n.bnd || segsBound(v.segs)
	case *SeqV:
		return v.n.bnd || segsBound(v.segs)
	case *TupleV:
		return anyBound(v.vs)
	case *FuncV:
		return anyBound(v.bind)
	case *BoundMethodV:
		return mentionsBound(v.recv)
	case *NewV:
		return mentionsBound(v.cell)
	case *IteV:
		return v.c.bnd || mentionsBound(v.a) || mentionsBound(v.b)
	case *MapV:
		return true
	case *SinkV:
		return true
	}
	return false
}

func anyBound(vs []Val) bool {
	for _, v := range vs {
		if v != nil && mentionsBound(v) {
			return true
		}
	}
	return false
}

func segsBound(segs []Seg) bool {
	for _, s := range segs {
		if s.lo.bnd || s.hi.bnd || mentionsBound(s.body) {
			return true
		}
	}
	return false
}

// ---- substitution of an integer variable

func subst(v Val, x *Term, by *Term) Val {
	if v == nil || x == by {
		return v
	}
	s := &substituter{x: x, by: by, memo: map[*Term]*Term{}}
	return s.val(v)
}

func substT(t *Term, x, by *Term) *Term { return subst(t, x, by).(*Term) }

type substituter struct {
	x, by *Term
	memo  map[*Term]*Term
}

func (s *substituter) term(t *Term) *Term {
	if t == s.x {
		return s.by
	}
	if len(t.args) == 0 && len(t.mono) == 0 {
		return t
	}
	if s.x.bnd && !t.bnd {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.term1(t)
	s.memo[t] = r
	return r
}

func (s *substituter) term1(t *Term) *Term {
	if t.op == "lin" {
		r := IntB(t.k)
		for _, m := range t.mono {
			r = Add(r, scale(s.term(m.a), m.c))
		}
		return r
	}
	args := make([]Val, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = s.val(a)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

// rebuild re-applies the smart constructor of t's operator.
func rebuild(t *Term, args []Val) *Term {
	switch t.op {
	case "ge0":
		return Ge0(args[0].(*Term))
	case "eq0":
		return Eq0(args[0].(*Term))
	case "not":
		return Not(args[0].(*Term))
	case "and", "or":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.(*Term))
		}
		if t.op == "and" {
			return And(ts...)
		}
		return Or(ts...)
	case "byte":
		j, _ := args[1].(*Term).int64()
		return Byte(args[0].(*Term), int(j))
	case "low":
		j, _ := args[1].(*Term).int64()
		return Low(args[0].(*Term), int(j))
	case "isnil":
		if x, ok := args[0].(*Term); ok {
			return IsNilAtom(x)
		}
		return BoolC(isNilVal(args[0]))
	}
	if strings.HasPrefix(t.op, "cmp:") {
		return Cmp(t.op[4:], args[0], args[1])
	}
	n := App(t.sort, t.op, t.typ, args...)
	if t.sort == SInt {
		if n.lo == nil {
			n.lo = t.lo
		}
		if n.hi == nil {
			n.hi = t.hi
		}
	}
	n.non = n.non || t.non
	return n
}

func isNilVal(v Val) bool {
	switch v := v.(type) {
	case *NilV:
		return true
	case *SliceV:
		return v.obj == 0
	}
	return false
}

func (s *substituter) vals(vs []Val) ([]Val, bool) {
	ch := false
	out := make([]Val, len(vs))
	for i, v := range vs {
		if v == nil {
			continue
		}
		out[i] = s.val(v)
		if out[i] != v {
			ch = true
		}
	}
	return out, ch
}

func (s *substituter) path(p []Acc) []Acc {
	var out []Acc
	for i, a := range p {
		if a.field < 0 {
			n := s.term(a.idx)
			if n != a.idx && out == nil {
				out = append([]Acc{}, p...)
			}
			if out != nil {
				out[i].idx = n
			}
		}
	}
	if out == nil {
		return p
	}
	return out
}

func (s *substituter) segs(segs []Seg) []Seg {
	var out []Seg
	for _, g := range segs {
		n := Seg{lo: s.term(g.lo), hi: s.term(g.hi), kv: g.kv, body: g.body}
		if g.kv != s.x {
			n.body = s.val(g.body)
		}
		out = append(out, n)
	}
	return out
}

func (s *substituter) val(v Val) Val {
	switch v := v.(type) {
	case *Term:
		return s.term(v)
	case *IfaceV:
		if n := s.val(v.v); n != v.v {
			return &IfaceV{v.dyn, n}
		}
	case *PtrV:
		p := s.path(v.path)
		return &PtrV{v.obj, p, v.typ}
	case *SliceV:
		if v.obj != 0 {
			return &SliceV{v.obj, s.path(v.path), s.term(v.off), s.term(v.len), s.term(v.cap), v.typ}
		}
	case *StructV:
		if fs, ch := s.vals(v.fields); ch {
			return &StructV{v.typ, fs}
		}
	case *ArrayV:
		return &ArrayV{v.elem, s.term(v.n), s.segs(v.segs)}
	case *SeqV:
		return &SeqV{v.elem, s.term(v.n), s.segs(v.segs)}
	case *TupleV:
		if fs, ch := s.vals(v.vs); ch {
			return &TupleV{fs}
		}
	case *FuncV:
		if fs, ch := s.vals(v.bind); ch {
			return &FuncV{v.fn, fs}
		}
	case *BoundMethodV:
		return &BoundMethodV{s.val(v.recv), v.name}
	case *NewV:
		if n := s.val(v.cell); n != v.cell {
			return &NewV{v.typ, n}
		}
	case *IteV:
		c, a, b := s.term(v.c), s.val(v.a), s.val(v.b)
		return mkIte(c, a, b)
	case *MapV:
		n := &MapV{typ: v.typ, tag: v.tag}
		if v.base != nil {
			n.base = s.term(v.base)
		}
		for _, u := range v.ups {
			nu := MapUp{s.val(u.k), s.val(u.v), u.loop}
			if u.loop != nil {
				nu.loop = &LoopUp{u.loop.j, s.term(u.loop.n), u.loop.may}
			}
			n.ups = append(n.ups, nu)
		}
		return n
	case *SinkV:
		n := &SinkV{kind: v.kind, ver: v.ver}
		for _, e := range v.evs {
			n.evs = append(n.evs, s.event(e))
		}
		return n
	}
	return v
}

func (s *substituter) event(e Event) Event {
	n := e
	n.args, _ = s.vals(e.args)
	n.res, _ = s.vals(e.res)
	if e.loop != nil {
		l := &LoopEv{j: e.loop.j, from: s.term(e.loop.from), n: s.term(e.loop.n)}
		for _, a := range e.loop.alts {
			na := LoopAlt{}
			for _, c := range a.conds {
				na.conds = append(na.conds, s.term(c))
			}
			for _, x := range a.evs {
				na.evs = append(na.evs, s.event(x))
			}
			l.alts = append(l.alts, na)
		}
		n.loop = l
	}
	return n
}

func mkIte(c *Term, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a.key() == b.key() {
		return a
	}
	if c.op == "not" {
		return mkIte(c.args[0].(*Term), b, a)
	}
	return &IteV{c, a, b}
}

// ---- events

type Event struct {
	op   string
	args []Val
	res  []Val
	loop *LoopEv // op == "loop"
	pos  string
	fn   *ssa.Function // the function called, if any
}

type LoopEv struct {
	j       *Term // iteration variable, runs over [from, n)
	from, n *Term
	alts    []LoopAlt
}

type LoopAlt struct {
	conds []*Term
	evs   []Event
}

func (e Event) key() string {
	s := e.op + "(" + valsKey(e.args) + ")"
	if e.loop != nil {
		s += fmt.Sprintf("L%s<%s", e.loop.from.key(), e.loop.n.key())
		for _, a := range e.loop.alts {
			s += "{"
			for _, c := range a.conds {
				s += c.key() + "&"
			}
			s += ":"
			for _, x := range a.evs {
				s += x.key() + ";"
			}
			s += "}"
		}
	}
	return s
}

func (e Event) String() string {
	if e.loop != nil {
		var as []string
		for _, a := range e.loop.alts {
			var es []string
			for _, x := range a.evs {
				es = append(es, x.String())
			}
			as = append(as, showConds(a.conds)+": "+strings.Join(es, "; "))
		}
		return fmt.Sprintf("for %s in [%s,%s) {%s}", e.loop.j, e.loop.from, e.loop.n, strings.Join(as, " | "))
	}
	var ss []string
	for _, a := range e.args {
		ss = append(ss, showV(a, 0))
	}
	return e.op + "(" + strings.Join(ss, ", ") + ")"
}

func showConds(cs []*Term) string {
	var ss []string
	for _, c := range cs {
		ss = append(ss, c.String())
	}
	sort.Strings(ss)
	return strings.Join(ss, " & ")
}

// ---- printing

func show(v Val) string { return showV(v, 0) }

func showV(v Val, d int) string {
	if d > 10 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "_"
	case *Term:
		return showT(v, d)
	case *NilV:
		return "nil"
	case *IfaceV:
		return shortType(v.dyn) + "(" + showV(v.v, d+1) + ")"
	case *PtrV:
		return fmt.Sprintf("&o%d%s", v.obj, showPath(v.path))
	case *SliceV:
		if v.obj == 0 {
			return "nil[]"
		}
		return fmt.Sprintf("o%d%s[%s:+%s]", v.obj, showPath(v.path), v.off, v.len)
	case *StructV:
		var ss []string
		for _, f := range v.fields {
			ss = append(ss, showV(f, d+1))
		}
		return shortType(v.typ) + "{" + strings.Join(ss, ", ") + "}"
	case *ArrayV:
		return "arr" + showSegs(v.segs, v.n, d)
	case *SeqV:
		return "seq" + showSegs(v.segs, v.n, d)
	case *TupleV:
		var ss []string
		for _, f := range v.vs {
			ss = append(ss, showV(f, d+1))
		}
		return "(" + strings.Join(ss, ", ") + ")"
	case *FuncV:
		return v.fn.Name()
	case *NewV:
		return "&" + showV(v.cell, d+1)
	case *IteV:
		return "if " + showT(v.c, d+1) + " then " + showV(v.a, d+1) + " else " + showV(v.b, d+1)
	case *SinkV:
		var ss []string
		for _, e := range v.evs {
			ss = append(ss, e.String())
		}
		return v.kind + "<" + strings.Join(ss, " ") + ">"
	}
	return v.key()
}

func showPath(p []Acc) string {
	s := ""
	for _, a := range p {
		if a.field >= 0 {
			s += fmt.Sprintf(".%d", a.field)
		} else {
			s += "[" + a.idx.String() + "]"
		}
	}
	return s
}

func showSegs(segs []Seg, n *Term, d int) string {
	var ss []string
	for _, s := range segs {
		kv := ""
		if s.kv != nil {
			kv = s.kv.String() + "→"
		}
		ss = append(ss, fmt.Sprintf("[%s,%s):%s%s", s.lo, s.hi, kv, showV(s.body, d+1)))
	}
	return "(" + n.String() + "){" + strings.Join(ss, " ") + "}"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "value" {
			return ""
		}
		return p.Name()
	})
}
