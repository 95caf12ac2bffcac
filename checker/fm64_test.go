package main

import (
	"math/big"
	"math/rand"
	"testing"
)

func TestFM(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	vars := []*Term{}
	for i := 0; i < 6; i++ {
		vars = append(vars, Sym(SInt, "v"+string(rune('a'+i)), nil))
	}
	mk := func() row {
		r := row{k: big.NewInt(rnd.Int63n(41) - 20), m: map[*Term]*big.Int{}}
		if rnd.Intn(4) == 0 {
			r.k.Lsh(r.k, 62)
		}
		for _, v := range vars {
			if rnd.Intn(3) == 0 {
				c := rnd.Int63n(7) - 3
				if c != 0 {
					r.m[v] = big.NewInt(c)
				}
			}
		}
		return r
	}
	y, n, over := 0, 0, 0
	for it := 0; it < 20000; it++ {
		var eqs, ges []row
		for i := rnd.Intn(3); i > 0; i-- {
			eqs = append(eqs, mk())
		}
		for i := rnd.Intn(8); i > 0; i-- {
			ges = append(ges, mk())
		}
		want := fmBig(eqs, ges)
		got, ok := fm64(eqs, ges)
		if !ok {
			over++
			continue
		}
		if got != want {
			t.Fatalf("%v %v: got %v want %v", eqs, ges, got, want)
		}
		if got {
			y++
		} else {
			n++
		}
	}
	t.Log(y, n, over)
}
