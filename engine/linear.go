package main

// Linear arithmetic over non-negative atoms that provably do not overflow: comparisons of
// instants (constants plus multiples of a few inputs) are reduced before they reach the
// solver.

import "math/bits"

type linTerm struct {
	t *Term
	k int64
}

type linForm struct {
	ts     []linTerm
	k      int64
	lo, hi int64 // range of the whole
}

const linMax = int64(1) << 61

func mulOK(a, b int64) (int64, bool) {
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	h, l := bits.Mul64(ua, ub)
	if h != 0 || l > uint64(linMax) {
		return 0, false
	}
	if neg {
		return -int64(l), true
	}
	return int64(l), true
}

func (f *linForm) fix(c *Ctx) bool {
	f.lo, f.hi = f.k, f.k
	if f.k > linMax || f.k < -linMax {
		return false
	}
	for _, x := range f.ts {
		m, ok := mulOK(x.k, int64(c.umax(x.t)))
		if !ok {
			return false
		}
		if m > 0 {
			f.hi += m
		} else {
			f.lo += m
		}
		if f.hi > linMax || f.lo < -linMax {
			return false
		}
	}
	return true
}

func (f *linForm) addScaled(g *linForm, s int64) bool {
	k, ok := mulOK(g.k, s)
	if !ok {
		return false
	}
	f.k += k
	for _, y := range g.ts {
		k, ok := mulOK(y.k, s)
		if !ok {
			return false
		}
		found := false
		for i := range f.ts {
			if f.ts[i].t == y.t {
				f.ts[i].k += k
				found = true
			}
		}
		if !found {
			f.ts = append(f.ts, linTerm{y.t, k})
		}
	}
	n := f.ts[:0]
	for _, x := range f.ts {
		if x.k != 0 {
			n = append(n, x)
		}
	}
	f.ts = n
	return len(f.ts) <= 4
}

// lin returns t, read as a signed 64-bit integer, as a linear form.
func (c *Ctx) lin(t *Term, depth int) *linForm {
	if t.w != 64 || depth > 12 {
		return nil
	}
	f := &linForm{}
	switch t.op {
	case OConst:
		f.k = int64(t.val)
		if !f.fix(c) {
			return nil
		}
		return f
	case OAdd, OSub:
		a, b := c.lin(t.a, depth+1), c.lin(t.b, depth+1)
		if a != nil && b != nil {
			s := int64(1)
			if t.op == OSub {
				s = -1
			}
			if f.addScaled(a, 1) && f.addScaled(b, s) && f.fix(c) {
				return f
			}
		}
		return c.atom(t)
	case OMul:
		a, b := t.a, t.b
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			g := c.lin(a, depth+1)
			if g != nil && f.addScaled(g, int64(b.val)) && f.fix(c) {
				return f
			}
		}
		return c.atom(t)
	}
	return c.atom(t)
}

func (c *Ctx) atom(t *Term) *linForm {
	if c.umax(t) > uint64(linMax) {
		return nil
	}
	f := &linForm{ts: []linTerm{{t, 1}}}
	if !f.fix(c) {
		return nil
	}
	return f
}

func floorDiv(a, b int64) int64 { // b > 0
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// linLess decides or reduces a < b (or a <= b); nil if it does not apply.
func (c *Ctx) linLess(a, b *Term, orEq bool) *Term {
	if a.w != 64 {
		return nil
	}
	if !hasArith(a) && !hasArith(b) {
		return nil
	}
	fa, fb := c.lin(a, 0), c.lin(b, 0)
	if fa == nil || fb == nil {
		return nil
	}
	d := &linForm{}
	if !d.addScaled(fa, 1) || !d.addScaled(fb, -1) {
		return nil
	}
	if orEq {
		d.k-- // a <= b  iff  a - b - 1 < 0
	}
	if !d.fix(c) {
		return nil
	}
	if d.hi < 0 {
		return c.True
	}
	if d.lo >= 0 {
		return c.False
	}
	if len(d.ts) == 1 {
		x := d.ts[0]
		if x.k > 0 { // x*k + K < 0  iff  x < ceil(-K/k)
			return c.Ult(x.t, c.Int(-floorDiv(d.k, x.k)))
		}
		// K < x*m  iff  x > floor(K/m)
		return c.Ult(c.Int(floorDiv(d.k, -x.k)), x.t)
	}
	var g int64
	for _, x := range d.ts {
		g = gcd(g, x.k)
	}
	// over the integers S*g + K < 0 iff S + floor(K/g) < 0
	for i := range d.ts {
		d.ts[i].k /= g
	}
	d.k = floorDiv(d.k, g)
	// both sides non-negative; as narrow as their largest values allow
	var ml, mr int64
	for _, x := range d.ts {
		m := x.k * int64(c.umax(x.t))
		if x.k > 0 {
			ml += m
		} else {
			mr -= m
		}
	}
	if d.k > 0 {
		ml += d.k
	} else {
		mr -= d.k
	}
	w := uint8(bits.Len64(uint64(max(ml, mr, 1))))
	if w > 62 {
		return nil
	}
	l, r := c.Const(0, w), c.Const(0, w)
	for _, x := range d.ts {
		n := c.Extract(x.t, w-1, 0)
		if x.k > 0 {
			l = c.Bin(OAdd, l, c.Bin(OMul, n, c.Const(uint64(x.k), w)))
		} else {
			r = c.Bin(OAdd, r, c.Bin(OMul, n, c.Const(uint64(-x.k), w)))
		}
	}
	if d.k > 0 {
		l = c.Bin(OAdd, l, c.Const(uint64(d.k), w))
	} else if d.k < 0 {
		r = c.Bin(OAdd, r, c.Const(uint64(-d.k), w))
	}
	return c.Ult(l, r)
}

// linEq decides or reduces a == b.
func (c *Ctx) linEq(a, b *Term) *Term {
	if a.w != 64 || !hasArith(a) && !hasArith(b) {
		return nil
	}
	fa, fb := c.lin(a, 0), c.lin(b, 0)
	if fa == nil || fb == nil {
		return nil
	}
	d := &linForm{}
	if !d.addScaled(fa, 1) || !d.addScaled(fb, -1) || !d.fix(c) {
		return nil
	}
	if d.lo > 0 || d.hi < 0 {
		return c.False
	}
	if len(d.ts) == 0 {
		return c.Bool(d.k == 0)
	}
	if len(d.ts) == 1 {
		x := d.ts[0]
		if x.t == a || x.t == b {
			return nil // already as simple as it gets
		}
		if d.k%x.k != 0 {
			return c.False
		}
		return c.Eq(x.t, c.Int(-d.k/x.k))
	}
	return nil
}

func hasArith(t *Term) bool { return t.op == OAdd || t.op == OSub || t.op == OMul }

func gcd(a, b int64) int64 {
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}
