package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Facts is a conjunction: linear inequalities and disequalities over integer
// atoms, boolean literals, and universally quantified facts from loops.
type Facts struct {
	splitDone bool
	ge        []*Term // lin >= 0
	eq        []*Term // lin == 0
	ne        []*Term // lin != 0
	lits      map[*Term]bool
	all       []*Forall
	hash      uint64
	insts     map[string]bool // instantiations already made
	dead      bool
	list      []*Term // everything assumed, in order (for reports)
}

// Forall: for every j with from <= j < to, all conds hold.
type Forall struct {
	j        *Term
	from, to *Term
	conds    []*Term
	alts     [][]*Term // other admissible condition sets (disjunction with conds), or nil
}

func newFacts() *Facts { return &Facts{lits: map[*Term]bool{}, insts: map[string]bool{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{hash: f.hash, dead: f.dead}
	n.ge = f.ge[:len(f.ge):len(f.ge)]
	n.eq = f.eq[:len(f.eq):len(f.eq)]
	n.ne = f.ne[:len(f.ne):len(f.ne)]
	n.all = f.all[:len(f.all):len(f.all)]
	n.list = f.list[:len(f.list):len(f.list)]
	n.lits = make(map[*Term]bool, len(f.lits))
	for k, v := range f.lits {
		n.lits[k] = v
	}
	n.insts = make(map[string]bool, len(f.insts))
	for k, v := range f.insts {
		n.insts[k] = v
	}
	return n
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (f *Facts) has(list []*Term, t *Term) bool {
	for _, x := range list {
		if x == t {
			return true
		}
	}
	return false
}

// assume adds a formula to the facts.
func (f *Facts) assume(t *Term) {
	switch t.op {
	case "true":
		return
	case "false":
		f.dead = true
		return
	case "and":
		for _, a := range t.args {
			f.assume(a.(*Term))
		}
		return
	case "ge0":
		l := t.args[0].(*Term)
		if f.has(f.ge, l) {
			return
		}
		f.ge = append(f.ge, l)
	case "eq0":
		l := t.args[0].(*Term)
		if f.has(f.eq, l) {
			return
		}
		f.eq = append(f.eq, l)
		f.kindEq(l)
	default:
		pos := true
		a := t
		if t.op == "not" {
			pos = false
			a = t.args[0].(*Term)
		}
		if a.op == "eq0" && !pos {
			l := a.args[0].(*Term)
			if f.has(f.ne, l) {
				return
			}
			f.ne = append(f.ne, l)
		} else {
			if v, ok := f.lits[a]; ok {
				if v != pos {
					f.dead = true
				}
				return
			}
			f.lits[a] = pos
			f.propagate(a, pos)
		}
	}
	f.hash += mix(uint64(t.id) * 0x9e3779b97f4a7c15)
	f.list = append(f.list, t)
}

const (
	kindNULL = 1
	kindMax  = 7
)

func kindOf(x *Term) *Term {
	return AppR("call:Kind", bi(1), bi(kindMax), x)
}

// eqNullAtom: x is the Null value.
func eqNullAtom(x *Term) *Term { return App(SBool, "eqnull", nil, x) }

// propagate applies the axioms linking nil tests, Null tests and Kind.
func (f *Facts) propagate(a *Term, pos bool) {
	switch a.op {
	case "isnil":
		x, ok := a.args[0].(*Term)
		if ok && pos {
			f.assume(Not(eqNullAtom(x)))
		}
	case "eqnull":
		x := a.args[0].(*Term)
		if pos {
			f.assume(Not(IsNilAtom(x)))
			f.assume(EqI(kindOf(x), IntC(kindNULL)))
		} else if v, ok := f.lits[IsNilAtom(x)]; ok && !v {
			f.assume(Not(EqI(kindOf(x), IntC(kindNULL))))
		}
	case "isNaN":
		if pos {
			break
		}
	}
	if a.op == "isnil" && !pos {
		if x, ok := a.args[0].(*Term); ok {
			if v, ok := f.lits[eqNullAtom(x)]; ok && !v {
				f.assume(Not(EqI(kindOf(x), IntC(kindNULL))))
			}
		}
	}
}

func (f *Facts) kindEq(l *Term) {
	// Kind(x) == NULL  =>  x is Null
	if l.op == "lin" && len(l.mono) == 1 && l.mono[0].a.op == "call:Kind" {
		c := new(big.Int).Neg(l.k)
		x, ok := l.mono[0].a.args[0].(*Term)
		if !ok {
			return
		}
		if c.Cmp(bi(kindNULL)) == 0 {
			f.assume(eqNullAtom(x))
		} else {
			f.assume(Not(eqNullAtom(x)))
		}
	}
}

// ---- decision procedure

type entailKey struct {
	h uint64
	t int
}

var entailCache = map[entailKey]bool{}
var statFM, statEntail int

// entails reports whether the facts imply t.
func (f *Facts) entails(t *Term) bool {
	if f.dead {
		return true
	}
	switch t.op {
	case "true":
		return true
	case "false":
		return f.unsat(nil)
	case "and":
		for _, a := range t.args {
			if !f.entails(a.(*Term)) {
				return false
			}
		}
		return true
	case "or":
		for _, a := range t.args {
			if f.entails(a.(*Term)) {
				return true
			}
		}
		// assume the negation of all but one
		g := f.clone()
		for _, a := range t.args[1:] {
			g.assume(Not(a.(*Term)))
		}
		return g.dead || g.entails(t.args[0].(*Term))
	}
	k := entailKey{f.hash, t.id}
	if v, ok := entailCache[k]; ok {
		return v
	}
	v := f.entails1(t)
	entailCache[k] = v
	return v
}

func (f *Facts) entails1(t *Term) bool {
	statEntail++
	pos := true
	a := t
	if t.op == "not" {
		pos = false
		a = t.args[0].(*Term)
	}
	switch a.op {
	case "ge0":
		l := a.args[0].(*Term)
		return f.unsat([]row{rowOf(AddC(Neg(l), -1))})
	case "eq0":
		l := a.args[0].(*Term)
		if pos {
			return f.unsat([]row{rowOf(AddC(l, -1))}) && f.unsat([]row{rowOf(AddC(Neg(l), -1))})
		}
		for _, n := range f.ne {
			if n == l {
				return true
			}
		}
		return f.unsat([]row{rowOf(l), rowOf(Neg(l))})
	}
	if v, ok := f.lits[a]; ok {
		return v == pos
	}
	for l, v := range f.lits {
		if v == pos && l.op == a.op && f.congr(l, a) {
			return true
		}
	}
	if a.op == "eq" && pos && len(a.args) == 2 && f.congr(a.args[0], a.args[1]) {
		return true
	}
	switch a.op {
	case "isnil":
		x, ok := a.args[0].(*Term)
		if !ok {
			return isNilVal(a.args[0]) == pos
		}
		if !pos {
			if x.non {
				return true
			}
			if v, ok := f.lits[eqNullAtom(x)]; ok && v {
				return true
			}
		}
	case "eqnull":
		x := a.args[0].(*Term)
		if v, ok := f.lits[IsNilAtom(x)]; ok && v {
			return !pos
		}
		nn := f.entails(Not(IsNilAtom(x)))
		if nn {
			kq := EqI(kindOf(x), IntC(kindNULL))
			if pos {
				return f.entails(kq)
			}
			return f.entails(Not(kq))
		}
	}
	return false
}

// congr: the values are equal by congruence and the linear facts.
func (f *Facts) congr(a, b Val) bool {
	if a == nil || b == nil {
		return false
	}
	if a.key() == b.key() {
		return true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort || x.lam() || y.lam() {
			return false
		}
		if x.sort == SInt && (x.op == "lin" || y.op == "lin" || x.op != y.op || len(x.args) == 0) {
			return f.entails(EqI(x, y))
		}
		if x.sort == SOpaque {
			a, b := x, y
			if a.id > b.id {
				a, b = b, a
			}
			if f.lits[App(SBool, "eq", nil, a, b)] {
				return true
			}
		}
		if x.op != y.op || len(x.args) != len(y.args) || len(x.args) == 0 || x.s != y.s {
			return false
		}
		if (x.typ == nil) != (y.typ == nil) {
			return false
		}
		for i := range x.args {
			if !f.congr(x.args[i], y.args[i]) {
				return x.sort == SInt && f.entails(EqI(x, y))
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && typeKey(x.dyn) == typeKey(y.dyn) && f.congr(x.v, y.v)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.fields) != len(y.fields) {
			return false
		}
		for i := range x.fields {
			if !f.congr(x.fields[i], y.fields[i]) {
				return false
			}
		}
		return true
	case *NewV:
		y, ok := b.(*NewV)
		return ok && typeKey(x.typ) == typeKey(y.typ) && f.congr(x.cell, y.cell)
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok || !f.congr(x.n, y.n) {
			return false
		}
		xs, ys := f.filled(x.segs), f.filled(y.segs)
		if len(xs) != len(ys) {
			return false
		}
		at := Sym(SInt, "·at", nil)
		for i, s := range xs {
			t := ys[i]
			if (s.kv == nil) != (t.kv == nil) || !f.congr(s.lo, t.lo) || !f.congr(s.hi, t.hi) {
				return false
			}
			v, w := s.body, t.body
			if s.kv != nil {
				v, w = subst(v, s.kv, at), subst(w, t.kv, at)
			}
			if !f.congr(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

// filled: the parts that are not known to be empty.
func (f *Facts) filled(segs []Seg) []Seg {
	var l []Seg
	for _, g := range segs {
		if !f.entails(Le(g.hi, g.lo)) {
			l = append(l, g)
		}
	}
	return l
}

type row struct {
	k *big.Int
	m map[*Term]*big.Int
	f *frow // the same in machine integers, if known
}

var rowCache = map[*Term]row{}

// rowOf is shared: not to be changed.
func rowOf(t *Term) row {
	if r, ok := rowCache[t]; ok {
		return r
	}
	k, ms := lin(t)
	r := row{k: new(big.Int).Set(k), m: map[*Term]*big.Int{}}
	for _, m := range ms {
		r.m[m.a] = new(big.Int).Set(m.c)
	}
	r.f = r.machine()
	rowCache[t] = r
	return r
}

func (r row) machine() (f *frow) {
	defer func() {
		if x := recover(); x != nil {
			f = nil
		}
	}()
	return toF(r)
}

func (r row) clone() row {
	n := row{k: new(big.Int).Set(r.k), m: make(map[*Term]*big.Int, len(r.m))}
	for a, c := range r.m {
		n.m[a] = new(big.Int).Set(c)
	}
	return n
}

func (r row) tighten() {
	if len(r.m) == 0 {
		return
	}
	g := new(big.Int)
	for _, c := range r.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(bigOne) > 0 {
		for a, c := range r.m {
			r.m[a] = new(big.Int).Quo(c, g)
		}
		q, m := new(big.Int), new(big.Int)
		q.DivMod(r.k, g, m)
		r.k.Set(q)
	}
}

func (r row) sig() string {
	ids := make([]int, 0, len(r.m))
	by := map[int]*big.Int{}
	for a, c := range r.m {
		ids = append(ids, a.id)
		by[a.id] = c
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, id := range ids {
		sb.WriteString(strconv.Itoa(id))
		sb.WriteByte('*')
		sb.WriteString(by[id].String())
		sb.WriteByte(' ')
	}
	return sb.String()
}

// unsat: are the facts together with extra rows (>= 0) contradictory?
func (f *Facts) unsat(extra []row) bool {
	// cone of influence
	in := map[*Term]bool{}
	var work []*Term
	addAtoms := func(r row) {
		for a := range r.m {
			if !in[a] {
				in[a] = true
				work = append(work, a)
			}
		}
	}
	for _, r := range extra {
		addAtoms(r)
	}
	type src struct {
		r  row
		eq bool
		ne bool
	}
	var all []src
	for _, t := range f.eq {
		all = append(all, src{rowOf(t), true, false})
	}
	for _, t := range f.ge {
		all = append(all, src{rowOf(t), false, false})
	}
	for _, t := range f.ne {
		all = append(all, src{rowOf(t), false, true})
	}
	byAtom := map[*Term][]int{}
	for i, s := range all {
		for a := range s.r.m {
			byAtom[a] = append(byAtom[a], i)
		}
	}
	used := make([]bool, len(all))
	if extra == nil {
		for i := range all {
			used[i] = true
			addAtoms(all[i].r)
		}
	}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		for _, i := range byAtom[a] {
			if !used[i] {
				used[i] = true
				addAtoms(all[i].r)
			}
		}
	}
	var eqs, ges, nes []row
	for i, s := range all {
		if !used[i] {
			continue
		}
		switch {
		case s.eq:
			eqs = append(eqs, s.r)
		case s.ne:
			nes = append(nes, s.r)
		default:
			ges = append(ges, s.r)
		}
	}
	ges = append(ges, extra...)
	for a := range in {
		if a.lo != nil {
			r := row{k: new(big.Int).Neg(a.lo), m: map[*Term]*big.Int{a: bi(1)}}
			ges = append(ges, r)
		}
		if a.hi != nil {
			r := row{k: new(big.Int).Set(a.hi), m: map[*Term]*big.Int{a: bi(-1)}}
			ges = append(ges, r)
		}
	}
	if fm(eqs, ges) {
		return true
	}
	// the low bytes of a value in range are the value itself
	var mods []row
	for a := range in {
		v, lo, m := modAtom(a)
		if v == nil {
			continue
		}
		cone := map[*Term]bool{}
		for b := range rowOf(v).m {
			if !in[b] {
				cone[b] = true
			}
		}
		g := ges
		if len(cone) > 0 {
			g = append(g[:len(g):len(g)], f.coneRows(cone)...)
		}
		for _, sh := range []*big.Int{bigZero, m, new(big.Int).Neg(m)} {
			// a = v + sh when lo <= v+sh < lo+m
			x := Add(v, IntB(sh))
			if fm(eqs, append(g[:len(g):len(g)], rowOf(AddC(Sub(IntB(lo), x), -1)))) &&
				fm(eqs, append(g[:len(g):len(g)], rowOf(Sub(x, IntB(new(big.Int).Add(lo, m)))))) {
				mods = append(mods, rowOf(Sub(a, x)))
				ges = g
				break
			}
		}
	}
	if len(mods) > 0 {
		eqs = append(eqs, mods...)
		if fm(eqs, ges) {
			return true
		}
	}
	if len(nes) == 0 || len(nes) > 12 {
		return false
	}
	// integer disequalities at the border of a range
	pending := nes
	for round := 0; round < 4; round++ {
		ch := false
		var rest []row
		for _, n := range pending {
			up := n.clone()
			up.k.Sub(up.k, bigOne) // n >= 1
			dn := negRow(n)
			dn.k.Sub(dn.k, bigOne) // n <= -1
			u1 := fm(eqs, append(ges[:len(ges):len(ges)], up))
			u2 := fm(eqs, append(ges[:len(ges):len(ges)], dn))
			switch {
			case u1 && u2:
				return true
			case u1:
				ges = append(ges, dn)
				ch = true
			case u2:
				ges = append(ges, up)
				ch = true
			default:
				rest = append(rest, n)
			}
		}
		pending = rest
		if !ch {
			return false
		}
	}
	return fm(eqs, ges)
}

// modAtom: a is the representative of v modulo m in [lo, lo+m).
func modAtom(a *Term) (v *Term, lo, m *big.Int) {
	switch {
	case a.op == "low":
		n, _ := a.args[1].(*Term).int64()
		return a.args[0].(*Term), bigZero, pow2(uint(8 * n))
	case a.op == "byte":
		if j, _ := a.args[1].(*Term).int64(); j == 0 {
			return a.args[0].(*Term), bigZero, pow2(8)
		}
	case strings.HasPrefix(a.op, "sext"):
		w, _ := strconv.Atoi(a.op[4:])
		return a.args[0].(*Term), new(big.Int).Neg(pow2(uint(w - 1))), pow2(uint(w))
	}
	return nil, nil, nil
}

// coneRows: the inequalities known about the given atoms only.
func (f *Facts) coneRows(in map[*Term]bool) []row {
	var out []row
	inside := func(r row) bool {
		any := false
		for a := range r.m {
			if in[a] {
				any = true
			}
		}
		return any
	}
	for _, t := range f.ge {
		if r := rowOf(t); inside(r) {
			out = append(out, r)
		}
	}
	for _, t := range f.eq {
		if r := rowOf(t); inside(r) {
			out = append(out, r, negRow(r))
		}
	}
	for a := range in {
		if a.lo != nil {
			out = append(out, row{k: new(big.Int).Neg(a.lo), m: map[*Term]*big.Int{a: bi(1)}})
		}
		if a.hi != nil {
			out = append(out, row{k: new(big.Int).Set(a.hi), m: map[*Term]*big.Int{a: bi(-1)}})
		}
	}
	return out
}

func negRow(r row) row {
	n := row{k: new(big.Int).Neg(r.k), m: map[*Term]*big.Int{}}
	for a, c := range r.m {
		n.m[a] = new(big.Int).Neg(c)
	}
	return n
}

// fm: Fourier–Motzkin with integer tightening; true = contradiction found.
func fm(eqs0, ges0 []row) bool {
	statFM++
	if v, ok := fm64(eqs0, ges0); ok {
		return v
	}
	return fmBig(eqs0, ges0)
}

func fmBig(eqs0, ges0 []row) bool {
	eqs := make([]row, len(eqs0))
	for i, r := range eqs0 {
		eqs[i] = r.clone()
	}
	ges := make([]row, len(ges0))
	for i, r := range ges0 {
		ges[i] = r.clone()
	}
	// eliminate equalities with a unit coefficient
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		if len(e.m) == 0 {
			if e.k.Sign() != 0 {
				return true
			}
			continue
		}
		var x *Term
		for a, c := range e.m {
			if c.CmpAbs(bigOne) == 0 && (x == nil || a.id < x.id) {
				x = a
			}
		}
		if x == nil {
			// gcd test, then as two inequalities
			g := new(big.Int)
			for _, c := range e.m {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if new(big.Int).Mod(e.k, g).Sign() != 0 {
				return true
			}
			ges = append(ges, e.clone(), negRow(e))
			continue
		}
		cx := e.m[x]
		elim := func(r row) {
			c, ok := r.m[x]
			if !ok {
				return
			}
			// r := r - (c/cx) e
			q := new(big.Int).Mul(c, cx) // cx = ±1
			for a, ec := range e.m {
				v, ok := r.m[a]
				if !ok {
					v = new(big.Int)
				}
				v = new(big.Int).Sub(v, new(big.Int).Mul(q, ec))
				if v.Sign() == 0 {
					delete(r.m, a)
				} else {
					r.m[a] = v
				}
			}
			r.k.Sub(r.k, new(big.Int).Mul(q, e.k))
		}
		for _, r := range eqs {
			elim(r)
		}
		for _, r := range ges {
			elim(r)
		}
	}
	norm := func(rs []row) ([]row, bool) {
		best := map[string]int{}
		var out []row
		for _, r := range rs {
			if len(r.m) == 0 {
				if r.k.Sign() < 0 {
					return nil, true
				}
				continue
			}
			r.tighten()
			s := r.sig()
			if i, ok := best[s]; ok {
				if r.k.Cmp(out[i].k) < 0 {
					out[i] = r
				}
				continue
			}
			best[s] = len(out)
			out = append(out, r)
		}
		return out, false
	}
	ges, bad := norm(ges)
	if bad {
		return true
	}
	for {
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, r := range ges {
			for a, c := range r.m {
				if c.Sign() > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		var x *Term
		bestCost := 0
		seen := map[*Term]bool{}
		for _, r := range ges {
			for a := range r.m {
				if seen[a] {
					continue
				}
				seen[a] = true
				cost := pos[a]*neg[a] - pos[a] - neg[a]
				if x == nil || cost < bestCost || (cost == bestCost && a.id < x.id) {
					x, bestCost = a, cost
				}
			}
		}
		if x == nil {
			return false
		}
		var keep, ps, ns []row
		for _, r := range ges {
			c, ok := r.m[x]
			switch {
			case !ok:
				keep = append(keep, r)
			case c.Sign() > 0:
				ps = append(ps, r)
			default:
				ns = append(ns, r)
			}
		}
		if len(keep)+len(ps)*len(ns) > 1500 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				cp, cn := p.m[x], new(big.Int).Neg(n.m[x])
				r := row{k: new(big.Int), m: map[*Term]*big.Int{}}
				r.k.Add(new(big.Int).Mul(p.k, cn), new(big.Int).Mul(n.k, cp))
				for a, c := range p.m {
					r.m[a] = new(big.Int).Mul(c, cn)
				}
				for a, c := range n.m {
					v, ok := r.m[a]
					if !ok {
						v = new(big.Int)
					}
					v = new(big.Int).Add(v, new(big.Int).Mul(c, cp))
					if v.Sign() == 0 {
						delete(r.m, a)
					} else {
						r.m[a] = v
					}
				}
				delete(r.m, x)
				keep = append(keep, r)
			}
		}
		ges, bad = norm(keep)
		if bad {
			return true
		}
	}
}

// ---- instantiation of quantified facts

func subterms(v Val, f func(*Term)) {
	switch v := v.(type) {
	case *Term:
		f(v)
		for _, a := range v.args {
			subterms(a, f)
		}
		for _, m := range v.mono {
			subterms(m.a, f)
		}
	case *IfaceV:
		subterms(v.v, f)
	case *StructV:
		for _, x := range v.fields {
			if x != nil {
				subterms(x, f)
			}
		}
	case *NewV:
		subterms(v.cell, f)
	case *IteV:
		subterms(v.c, f)
		subterms(v.a, f)
		subterms(v.b, f)
	case *TupleV:
		for _, x := range v.vs {
			if x != nil {
				subterms(x, f)
			}
		}
	case *SeqV:
		subterms(v.n, f)
		for _, s := range v.segs {
			subterms(s.lo, f)
			subterms(s.hi, f)
			subterms(s.body, f)
		}
	}
}

// offsetIn: t = j + c with coefficient one; returns c.
func offsetIn(t, j *Term) (*Term, bool) {
	_, ms := lin(t)
	for _, m := range ms {
		if m.a == j && m.c.Cmp(bigOne) == 0 {
			c := Sub(t, j)
			bad := false
			subterms(c, func(x *Term) {
				if x == j {
					bad = true
				}
			})
			return c, !bad
		}
	}
	return nil, false
}

// instantiate adds the instances of quantified facts relevant to q; reports
// whether anything was added.
func (f *Facts) instantiate(q ...Val) bool {
	if len(f.all) == 0 {
		return false
	}
	ground := map[string][]*Term{} // base key -> indexes
	seen := map[*Term]bool{}
	for _, v := range q {
		subterms(v, func(t *Term) {
			if !seen[t] && !t.lam() && (t.op == "elem" || strings.HasPrefix(t.op, "src:")) {
				seen[t] = true
				k := trigKey(t)
				ground[k] = append(ground[k], t.args[len(t.args)-1].(*Term))
			}
		})
	}
	if len(ground) == 0 {
		return false
	}
	added := false
	for fi, fa := range f.all {
		if fa.alts != nil {
			continue
		}
		for _, cand := range f.candidates(fa, ground) {
			ik := strconv.Itoa(fi) + "@" + cand.key()
			if f.insts[ik] {
				continue
			}
			if f.entails(Ge(cand, fa.from)) && f.entails(Lt(cand, fa.to)) {
				f.insts[ik] = true
				for _, c2 := range fa.conds {
					i := substT(c2, fa.j, cand)
					n := len(f.list)
					f.assume(i)
					if len(f.list) > n {
						added = true
					}
				}
			}
		}
	}
	return added
}

func trigKey(t *Term) string {
	if t.op == "elem" {
		return t.args[0].key()
	}
	return t.op
}

// candidates: values of the quantified variable for which an element term of
// fa becomes one of the ground terms.
func (f *Facts) candidates(fa *Forall, ground map[string][]*Term) []*Term {
	var out []*Term
	have := map[*Term]bool{}
	visit := func(t *Term) {
		if t.op != "elem" && !strings.HasPrefix(t.op, "src:") {
			return
		}
		gs := ground[trigKey(t)]
		if len(gs) == 0 {
			return
		}
		off, ok := offsetIn(t.args[len(t.args)-1].(*Term), fa.j)
		if !ok {
			return
		}
		for _, g := range gs {
			cand := Sub(g, off)
			if !have[cand] {
				have[cand] = true
				out = append(out, cand)
			}
		}
	}
	for _, c := range fa.conds {
		subterms(c, visit)
	}
	for _, a := range fa.alts {
		for _, c := range a {
			subterms(c, visit)
		}
	}
	return out
}

// saturate instantiates on everything the facts and hints mention and links
// integer terms that are equal by congruence.
func (f *Facts) saturate(hints []Val) bool {
	var q []Val
	for _, t := range f.list {
		q = append(q, t)
	}
	q = append(q, hints...)
	added := f.instantiate(q...)
	if f.dead {
		return true
	}
	// congruence
	atoms := map[string][]*Term{}
	seen := map[*Term]bool{}
	for _, t := range f.list {
		subterms(t, func(x *Term) {
			if !seen[x] && x.sort == SInt && x.op != "lin" && len(x.args) > 0 && !x.lam() {
				seen[x] = true
				atoms[x.op] = append(atoms[x.op], x)
			}
		})
	}
	for op, as := range atoms {
		if strings.HasPrefix(op, "cmp:") {
			for _, x := range as {
				if f.congr(x.args[0], x.args[1]) {
					n := len(f.list)
					f.assume(Eq0(x))
					added = added || len(f.list) > n
				}
			}
		}
		if len(as) > 24 {
			continue
		}
		for i := range as {
			for j := i + 1; j < len(as); j++ {
				x, y := as[i], as[j]
				if len(x.args) != len(y.args) || f.has(f.eq, mustLin(EqI(x, y))) {
					continue
				}
				ok := true
				for k := range x.args {
					if !f.congr(x.args[k], y.args[k]) {
						ok = false
						break
					}
				}
				if ok {
					n := len(f.list)
					f.assume(EqI(x, y))
					if len(f.list) > n {
						added = true
					}
				}
			}
		}
	}
	// contradictory literals
	for l, v := range f.lits {
		if l.op == "eq" && !v && len(l.args) == 2 && f.congr(l.args[0], l.args[1]) {
			f.dead = true
			return true
		}
		if !v {
			continue
		}
		for m, w := range f.lits {
			if !w && l.op == m.op && f.congr(l, m) {
				f.dead = true
				return true
			}
		}
	}
	return added
}

func mustLin(t *Term) *Term {
	if t.op == "eq0" {
		return t.args[0].(*Term)
	}
	return t
}

// aliased: two of the elements the facts are about may be one, and the facts
// know them by different names.
func (f *Facts) aliased() bool {
	els := map[string][]*Term{}
	seen := map[string]bool{}
	for _, t := range f.list {
		subterms(t, func(x *Term) {
			if x.op != "elem" || len(x.args) != 2 || seen[x.key()] {
				return
			}
			seen[x.key()] = true
			b := x.args[0].key()
			els[b] = append(els[b], x.args[1].(*Term))
		})
	}
	for _, is := range els {
		for i, a := range is {
			for _, b := range is[i+1:] {
				if !f.entails(Lt(a, b)) && !f.entails(Lt(b, a)) {
					return true
				}
			}
		}
	}
	return false
}
