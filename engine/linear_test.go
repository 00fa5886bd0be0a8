package main

import (
	"math/rand"
	"testing"
)

// Comparisons built through the simplifier mean what Go's int64 comparisons mean.
func TestLinear(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for n := 0; n < 200000; n++ {
		c := NewCtx()
		maxs := []uint64{1, 7, 400, 65535, 2000000, 1 << 40}
		var vs []*Term
		var val []int64
		m := Model{}
		for i := 0; i < 3; i++ {
			mx := maxs[rnd.Intn(len(maxs))]
			v := c.Var(string(rune('a'+i)), 64, mx)
			x := uint64(rnd.Int63()) % (mx + 1)
			switch rnd.Intn(4) {
			case 0:
				x = 0
			case 1:
				x = mx
			}
			vs = append(vs, v)
			val = append(val, int64(x))
			m[v] = x
		}
		consts := []int64{0, 1, -1, 3, 100, 1000000, -1000000, 7000000000, 250000000, 1 << 60, -(1 << 62)}
		var gen func(d int) (*Term, int64)
		gen = func(d int) (*Term, int64) {
			k := consts[rnd.Intn(len(consts))]
			if rnd.Intn(3) == 0 {
				k = rnd.Int63n(2000) - 1000
			}
			switch {
			case d == 0 || rnd.Intn(5) == 0:
				if rnd.Intn(3) == 0 {
					return c.Int(k), k
				}
				i := rnd.Intn(3)
				return vs[i], val[i]
			case rnd.Intn(3) == 0:
				a, x := gen(d - 1)
				return c.Bin(OMul, a, c.Int(k)), x * k
			case rnd.Intn(2) == 0:
				a, x := gen(d - 1)
				b, y := gen(d - 1)
				return c.Bin(OSub, a, b), x - y
			default:
				a, x := gen(d - 1)
				b, y := gen(d - 1)
				return c.Bin(OAdd, a, b), x + y
			}
		}
		a, x := gen(3)
		b, y := gen(3)
		if rnd.Intn(3) == 0 { // near the boundary
			b, y = c.Int(x+rnd.Int63n(5)-2), 0
			y = int64(b.val)
		}
		e := newEval(m)
		if int64(e.eval(a)) != x || int64(e.eval(b)) != y {
			t.Fatal("eval")
		}
		for _, q := range []struct {
			n string
			t *Term
			w bool
		}{{"slt", c.Slt(a, b), x < y}, {"sle", c.Sle(a, b), x <= y}, {"eq", c.Eq(a, b), x == y}, {"nslt", c.Not(c.Slt(a, b)), x >= y}} {
			if (newEval(m).eval(q.t) == 1) != q.w {
				t.Fatalf("%s: %d %d", q.n, x, y)
			}
		}
	}
}
