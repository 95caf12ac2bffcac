package main

import (
	"encoding/binary"
	"math"
	"math/big"
	"math/bits"
	"sort"
)

// frow is a row with machine integers: sum cs[i]*ids[i] + k.
type frow struct {
	k   i128
	ids []int32
	cs  []int64
}

type overflow struct{}

// i128 is sign and magnitude.
type i128 struct {
	neg    bool
	hi, lo uint64
}

func (a i128) zero() bool { return a.hi == 0 && a.lo == 0 }

func (a i128) sign() int {
	switch {
	case a.zero():
		return 0
	case a.neg:
		return -1
	}
	return 1
}

func cmpMag(a, b i128) int {
	switch {
	case a.hi != b.hi:
		if a.hi < b.hi {
			return -1
		}
		return 1
	case a.lo < b.lo:
		return -1
	case a.lo > b.lo:
		return 1
	}
	return 0
}

func (a i128) add(b i128) i128 {
	if a.neg == b.neg {
		lo, c := bits.Add64(a.lo, b.lo, 0)
		hi, c := bits.Add64(a.hi, b.hi, c)
		if c != 0 || hi >= 1<<62 {
			panic(overflow{})
		}
		return i128{a.neg, hi, lo}
	}
	if cmpMag(a, b) < 0 {
		a, b = b, a
	}
	lo, c := bits.Sub64(a.lo, b.lo, 0)
	hi, _ := bits.Sub64(a.hi, b.hi, c)
	return i128{a.neg && (hi != 0 || lo != 0), hi, lo}
}

func (a i128) mul(c int64) i128 {
	m := uint64(c)
	if c < 0 {
		m = -m
	}
	h1, l1 := bits.Mul64(a.lo, m)
	h2, l2 := bits.Mul64(a.hi, m)
	hi, carry := bits.Add64(h1, l2, 0)
	if h2 != 0 || carry != 0 || hi >= 1<<62 {
		panic(overflow{})
	}
	return i128{a.neg != (c < 0) && (hi != 0 || l1 != 0), hi, l1}
}

// div is the floor of a/g and whether there is a remainder.
func (a i128) div(g int64) (i128, bool) {
	d := uint64(g)
	hi, rem := a.hi/d, a.hi%d
	lo, rem := bits.Div64(rem, a.lo, d)
	q := i128{a.neg && (hi != 0 || lo != 0), hi, lo}
	if rem != 0 && a.neg {
		q = q.add(i128{true, 0, 1})
	}
	return q, rem != 0
}

func (a i128) less(b i128) bool {
	if a.sign() != b.sign() {
		return a.sign() < b.sign()
	}
	if a.neg {
		return cmpMag(b, a) < 0
	}
	return cmpMag(a, b) < 0
}

func toI128(x *big.Int) i128 {
	if x.BitLen() > 126 {
		panic(overflow{})
	}
	var b [16]byte
	x.FillBytes(b[:])
	return i128{x.Sign() < 0, binary.BigEndian.Uint64(b[:8]), binary.BigEndian.Uint64(b[8:])}
}

func mul64(a, b int64) int64 {
	if a == 1 {
		return b
	}
	if b == 1 {
		return a
	}
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > math.MaxInt64 {
		panic(overflow{})
	}
	if (a < 0) != (b < 0) {
		return -int64(lo)
	}
	return int64(lo)
}

func add64(a, b int64) int64 {
	s := a + b
	if (s > a) != (b > 0) && b != 0 || s == math.MinInt64 {
		panic(overflow{})
	}
	return s
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func small(x *big.Int) int64 {
	if !x.IsInt64() || x.Int64() == math.MinInt64 {
		panic(overflow{})
	}
	return x.Int64()
}

func toF(r row) *frow {
	if r.f != nil {
		return r.f
	}
	f := &frow{k: toI128(r.k), ids: make([]int32, 0, len(r.m)), cs: make([]int64, 0, len(r.m))}
	for a, c := range r.m {
		f.ids = append(f.ids, int32(a.id))
		f.cs = append(f.cs, small(c))
	}
	sort.Sort(f)
	return f
}

func (f *frow) Len() int           { return len(f.ids) }
func (f *frow) Less(i, j int) bool { return f.ids[i] < f.ids[j] }
func (f *frow) Swap(i, j int) {
	f.ids[i], f.ids[j] = f.ids[j], f.ids[i]
	f.cs[i], f.cs[j] = f.cs[j], f.cs[i]
}

func (f *frow) coef(id int32) int64 {
	for i, x := range f.ids {
		if x == id {
			return f.cs[i]
		}
		if x > id {
			break
		}
	}
	return 0
}

// comb is p*x + q*y.
func comb(p *frow, x int64, q *frow, y int64) *frow {
	n := len(p.ids) + len(q.ids)
	r := &frow{k: p.k.mul(x).add(q.k.mul(y)), ids: make([]int32, 0, n), cs: make([]int64, 0, n)}
	i, j := 0, 0
	for i < len(p.ids) || j < len(q.ids) {
		var id int32
		var c int64
		switch {
		case j == len(q.ids) || i < len(p.ids) && p.ids[i] < q.ids[j]:
			id, c = p.ids[i], mul64(p.cs[i], x)
			i++
		case i == len(p.ids) || q.ids[j] < p.ids[i]:
			id, c = q.ids[j], mul64(q.cs[j], y)
			j++
		default:
			id, c = p.ids[i], add64(mul64(p.cs[i], x), mul64(q.cs[j], y))
			i++
			j++
		}
		if c != 0 {
			r.ids = append(r.ids, id)
			r.cs = append(r.cs, c)
		}
	}
	return r
}

func (f *frow) tighten() *frow {
	var g int64
	for _, c := range f.cs {
		g = gcd64(g, c)
		if g == 1 {
			return f
		}
	}
	if g <= 1 {
		return f
	}
	r := &frow{ids: f.ids, cs: make([]int64, len(f.cs))}
	r.k, _ = f.k.div(g)
	for i, c := range f.cs {
		r.cs[i] = c / g
	}
	return r
}

func (f *frow) hash() uint64 {
	h := uint64(14695981039346656037)
	for i := range f.ids {
		h = (h ^ uint64(f.ids[i])) * 1099511628211
		h = (h ^ uint64(f.cs[i])) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func (f *frow) sameCoefs(g *frow) bool {
	if len(f.ids) != len(g.ids) {
		return false
	}
	for i := range f.ids {
		if f.ids[i] != g.ids[i] || f.cs[i] != g.cs[i] {
			return false
		}
	}
	return true
}

func fnorm(rs []*frow) ([]*frow, bool) {
	best := make(map[uint64][]int, len(rs))
	var out []*frow
next:
	for _, r := range rs {
		if len(r.ids) == 0 {
			if r.k.sign() < 0 {
				return nil, true
			}
			continue
		}
		r = r.tighten()
		h := r.hash()
		for _, i := range best[h] {
			if out[i].sameCoefs(r) {
				if r.k.less(out[i].k) {
					out[i] = r
				}
				continue next
			}
		}
		best[h] = append(best[h], len(out))
		out = append(out, r)
	}
	return out, false
}

// fm64 is fm on machine integers; ok is false when they do not suffice.
func fm64(eqs0, ges0 []row) (res, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(overflow); !is {
				panic(x)
			}
			res, ok = false, false
		}
	}()
	eqs := make([]*frow, len(eqs0))
	for i, r := range eqs0 {
		eqs[i] = toF(r)
	}
	ges := make([]*frow, len(ges0), len(ges0)+2*len(eqs0))
	for i, r := range ges0 {
		ges[i] = toF(r)
	}
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		if len(e.ids) == 0 {
			if !e.k.zero() {
				return true, true
			}
			continue
		}
		x := int32(-1)
		var cx int64
		for i, c := range e.cs {
			if c == 1 || c == -1 {
				x, cx = e.ids[i], c
				break
			}
		}
		if x < 0 {
			var g int64
			for _, c := range e.cs {
				g = gcd64(g, c)
			}
			if _, rem := e.k.div(g); rem {
				return true, true
			}
			ges = append(ges, e, comb(e, -1, &frow{}, 0))
			continue
		}
		elim := func(rs []*frow) {
			for i, r := range rs {
				if c := r.coef(x); c != 0 {
					rs[i] = comb(r, 1, e, -mul64(c, cx))
				}
			}
		}
		eqs = append([]*frow{}, eqs...)
		elim(eqs)
		elim(ges)
	}
	ges, bad := fnorm(ges)
	if bad {
		return true, true
	}
	index := make(map[int32]int, 16)
	var atoms []int32
	for _, r := range ges {
		for _, id := range r.ids {
			if _, ok := index[id]; !ok {
				index[id] = len(atoms)
				atoms = append(atoms, id)
			}
		}
	}
	pos, neg := make([]int, len(atoms)), make([]int, len(atoms))
	for {
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for _, r := range ges {
			for i, c := range r.cs {
				if j := index[r.ids[i]]; c > 0 {
					pos[j]++
				} else {
					neg[j]++
				}
			}
		}
		x := int32(-1)
		bestCost := 0
		for j, id := range atoms {
			if pos[j]+neg[j] == 0 {
				continue
			}
			cost := pos[j]*neg[j] - pos[j] - neg[j]
			if x < 0 || cost < bestCost || cost == bestCost && id < x {
				x, bestCost = id, cost
			}
		}
		if x < 0 {
			return false, true
		}
		var keep, ps, ns []*frow
		for _, r := range ges {
			switch c := r.coef(x); {
			case c == 0:
				keep = append(keep, r)
			case c > 0:
				ps = append(ps, r)
			default:
				ns = append(ns, r)
			}
		}
		if len(keep)+len(ps)*len(ns) > 1500 {
			return false, true
		}
		for _, p := range ps {
			cp := p.coef(x)
			for _, n := range ns {
				cn := -n.coef(x)
				g := gcd64(cp, cn)
				keep = append(keep, comb(p, cn/g, n, cp/g))
			}
		}
		ges, bad = fnorm(keep)
		if bad {
			return true, true
		}
	}
}
