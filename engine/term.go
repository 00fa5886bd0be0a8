package main

// Hash-consed SMT terms: booleans (w==0) and bit-vectors of width 1..64.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZext
	OSext
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
}

type Term struct {
	op      Op
	w       uint8 // 0: bool
	hi, lo  uint8 // extract
	id      int32
	val     uint64 // const
	a, b, c *Term
	name    string
	max     uint64 // variables: declared upper bound (unsigned)
}

type tkey struct {
	op        Op
	w, hi, lo uint8
	val       uint64
	a, b, c   int32
}

type vkey struct {
	name string
	w    uint8
	max  uint64
}

// Ctx owns the terms of one worker.
type Ctx struct {
	tab   map[tkey]*Term
	vars  map[vkey]*Term
	next  int32
	True  *Term
	False *Term
	umaxC map[int32]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, vars: map[vkey]*Term{}, next: 1, umaxC: map[int32]uint64{}}
	c.True = c.mk(Term{op: OConst, w: 0, val: 1})
	c.False = c.mk(Term{op: OConst, w: 0, val: 0})
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(t Term) *Term {
	k := tkey{t.op, t.w, t.hi, t.lo, t.val, tid(t.a), tid(t.b), tid(t.c)}
	if r, ok := c.tab[k]; ok {
		return r
	}
	n := t
	n.id = c.next
	c.next++
	c.tab[k] = &n
	return &n
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) Const(v uint64, w uint8) *Term { return c.mk(Term{op: OConst, w: w, val: v & mask(w)}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Int(v int64) *Term { return c.Const(uint64(v), 64) }

// Var returns the variable of that name (made on first use).
func (c *Ctx) Var(name string, w uint8, max uint64) *Term {
	k := vkey{name, w, max}
	if v, ok := c.vars[k]; ok {
		return v
	}
	v := &Term{op: OVar, w: w, name: name, id: c.next, max: max}
	c.next++
	c.vars[k] = v
	return v
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op {
	case OUlt:
		return c.Ule(a.b, a.a)
	case OUle:
		return c.Ult(a.b, a.a)
	case OSlt:
		return c.Sle(a.b, a.a)
	case OSle:
		return c.Slt(a.b, a.a)
	}
	return c.mk(Term{op: ONot, a: a})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() || a == b {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OAnd, a: a, b: b})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return c.True
	}
	if a.IsFalse() || a == b {
		return b
	}
	if b.IsFalse() {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OOr, a: a, b: b})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

// RawEq is Eq without the shortcut for identical terms, so that the solver decides it.
func (c *Ctx) RawEq(a, b *Term) *Term {
	if a == b && !a.IsConst() {
		return c.mk(Term{op: OEq, a: a, b: b})
	}
	return c.Eq(a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if a.w == 64 {
		if t := c.linEq(a, b); t != nil {
			return t
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.val > c.umax(a) {
			return c.False
		}
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return c.False
			}
			return c.Eq(a.a, c.Const(b.val, a.a.w))
		case OIte:
			if a.b.IsConst() || a.c.IsConst() {
				x, y := c.Eq(a.b, b), c.Eq(a.c, b)
				if x.IsConst() || y.IsConst() {
					return c.Ite(a.a, x, y)
				}
			}
		case OConcat:
			lw := a.b.w
			return c.And(c.Eq(a.a, c.Const(b.val>>lw, a.a.w)), c.Eq(a.b, c.Const(b.val, lw)))
		case OAdd:
			if a.b.IsConst() {
				return c.Eq(a.a, c.Const(b.val-a.b.val, a.w))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
		return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
	}
	if a.id > b.id && !b.IsConst() {
		a, b = b, a
	}
	return c.mk(Term{op: OEq, a: a, b: b})
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.IsTrue() {
		return a
	}
	if k.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("Ite width")
	}
	if k.op == ONot {
		return c.Ite(k.a, b, a)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(k, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(k), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(k), a)
		}
		if b.IsFalse() {
			return c.And(k, a)
		}
	}
	if a.op == OIte && a.a == k {
		a = a.b
	}
	if b.op == OIte && b.a == k {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(Term{op: OIte, w: a.w, a: k, b: a, c: b})
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	w := a.w
	m := mask(w)
	if a.IsConst() && b.IsConst() {
		x, y := a.val, b.val
		switch op {
		case OAdd:
			return c.Const(x+y, w)
		case OSub:
			return c.Const(x-y, w)
		case OMul:
			return c.Const(x*y, w)
		case OUDiv:
			if y == 0 {
				return c.Const(m, w)
			}
			return c.Const(x/y, w)
		case OURem:
			if y == 0 {
				return a
			}
			return c.Const(x%y, w)
		case OSDiv, OSRem:
			sx, sy := sext64(x, w), sext64(y, w)
			if sy == 0 {
				if op == OSRem {
					return a
				}
				if sx >= 0 {
					return c.Const(m, w)
				}
				return c.Const(1, w)
			}
			if sy == -1 {
				if op == OSDiv {
					return c.Const(uint64(-sx), w)
				}
				return c.Const(0, w)
			}
			if op == OSDiv {
				return c.Const(uint64(sx/sy), w)
			}
			return c.Const(uint64(sx%sy), w)
		case OBAnd:
			return c.Const(x&y, w)
		case OBOr:
			return c.Const(x|y, w)
		case OBXor:
			return c.Const(x^y, w)
		case OShl:
			if y >= uint64(w) {
				return c.Const(0, w)
			}
			return c.Const(x<<y, w)
		case OLshr:
			if y >= uint64(w) {
				return c.Const(0, w)
			}
			return c.Const(x>>y, w)
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.Const(uint64(sext64(x, w)>>y), w)
		}
	}
	// commutative: constant on the right
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.IsConst() {
		v := b.val
		switch op {
		case OAdd:
			if v == 0 {
				return a
			}
			if a.op == OAdd && a.b.IsConst() {
				return c.Bin(OAdd, a.a, c.Const(a.b.val+v, w))
			}
		case OSub:
			return c.Bin(OAdd, a, c.Const(-v, w))
		case OMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
			if bits.OnesCount64(v) == 1 {
				return c.Bin(OShl, a, c.Const(uint64(bits.TrailingZeros64(v)), w))
			}
		case OUDiv:
			if v == 1 {
				return a
			}
			if v != 0 && bits.OnesCount64(v) == 1 {
				return c.Bin(OLshr, a, c.Const(uint64(bits.TrailingZeros64(v)), w))
			}
		case OURem:
			if v != 0 && bits.OnesCount64(v) == 1 {
				return c.Bin(OBAnd, a, c.Const(v-1, w))
			}
			if v > c.umax(a) {
				return a
			}
		case OSDiv:
			if v == 1 {
				return a
			}
			if sext64(v, w) > 0 && c.umax(a) <= m>>1 {
				return c.Bin(OUDiv, a, b)
			}
		case OSRem:
			if sext64(v, w) > 0 && c.umax(a) <= m>>1 {
				return c.Bin(OURem, a, b)
			}
		case OBAnd:
			if v == 0 {
				return b
			}
			if v == m {
				return a
			}
			if um := c.umax(a); um&(um+1) == 0 && v&um == um {
				return a
			}
			if a.op == OBAnd && a.b.IsConst() {
				return c.Bin(OBAnd, a.a, c.Const(a.b.val&v, w))
			}
			if a.op == OZext && v <= mask(a.a.w) {
				return c.Zext(c.Bin(OBAnd, a.a, c.Const(v, a.a.w)), w)
			}
			if a.op == OBOr && a.b.IsConst() {
				return c.Bin(OBOr, c.Bin(OBAnd, a.a, b), c.Const(a.b.val&v, w))
			}
		case OBOr:
			if v == 0 {
				return a
			}
			if v == m {
				return b
			}
			if a.op == OBOr && a.b.IsConst() {
				return c.Bin(OBOr, a.a, c.Const(a.b.val|v, w))
			}
		case OBXor:
			if v == 0 {
				return a
			}
			if v == m {
				return c.BNot(a)
			}
		case OShl:
			if v == 0 {
				return a
			}
			if v >= uint64(w) {
				return c.Const(0, w)
			}
			// left part of a zero extension: concat form keeps byte swaps readable
			return c.Concat(c.Extract(a, w-1-uint8(v), 0), c.Const(0, uint8(v)))
		case OLshr:
			if v == 0 {
				return a
			}
			if v >= uint64(w) {
				return c.Const(0, w)
			}
			return c.Zext(c.Extract(a, w-1, uint8(v)), w)
		case OAshr:
			if v == 0 {
				return a
			}
			if c.umax(a) <= m>>1 {
				return c.Bin(OLshr, a, b)
			}
		}
	}
	if a.IsConst() && a.val == 0 {
		switch op {
		case OShl, OLshr, OAshr:
			return a
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.Const(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	// disjoint or/add of shifted pieces -> concat
	if op == OBOr || op == OAdd || op == OBXor {
		if r := c.joinDisjoint(a, b); r != nil {
			return r
		}
	}
	return c.mk(Term{op: op, w: w, a: a, b: b})
}

// joinDisjoint recognises concat(x,0) op zext(y) with y fitting in the zero part.
func (c *Ctx) joinDisjoint(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		if a.op == OConcat && a.b.IsConst() && a.b.val == 0 {
			lw := a.b.w
			if c.umax(b) <= mask(lw) {
				return c.Concat(a.a, c.Extract(b, lw-1, 0))
			}
		}
		a, b = b, a
	}
	return nil
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.Const(^a.val, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(Term{op: OBNot, w: a.w, a: a})
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.IsConst() {
		return c.Const(-a.val, a.w)
	}
	return c.mk(Term{op: ONeg, w: a.w, a: a})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val < b.val)
	}
	if a == b {
		return c.False
	}
	if b.IsConst() && c.umax(a) < b.val {
		return c.True
	}
	if a.IsConst() && c.umax(b) <= a.val {
		return c.False
	}
	if b.IsConst() && b.val == 0 {
		return c.False
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZext && b.IsConst() && b.val <= mask(a.a.w) {
		return c.Ult(a.a, c.Const(b.val, a.a.w))
	}
	if b.op == OZext && a.IsConst() && a.val <= mask(b.a.w) {
		return c.Ult(c.Const(a.val, b.a.w), b.a)
	}
	return c.mk(Term{op: OUlt, a: a, b: b})
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val <= b.val)
	}
	if a == b {
		return c.True
	}
	if b.IsConst() && c.umax(a) <= b.val {
		return c.True
	}
	if a.IsConst() && a.val == 0 {
		return c.True
	}
	if a.IsConst() && c.umax(b) < a.val {
		return c.False
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	if a.op == OZext && b.IsConst() && b.val <= mask(a.a.w) {
		return c.Ule(a.a, c.Const(b.val, a.a.w))
	}
	if b.op == OZext && a.IsConst() && a.val <= mask(b.a.w) {
		return c.Ule(c.Const(a.val, b.a.w), b.a)
	}
	return c.mk(Term{op: OUle, a: a, b: b})
}

func (c *Ctx) nonneg(a *Term) bool { return c.umax(a) <= mask(a.w)>>1 }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if a == b {
		return c.False
	}
	if t := c.linLess(a, b, false); t != nil {
		return t
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if c.nonneg(a) && b.IsConst() { // b negative
		return c.False
	}
	if c.nonneg(b) && a.IsConst() { // a negative
		return c.True
	}
	return c.mk(Term{op: OSlt, a: a, b: b})
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext64(a.val, a.w) <= sext64(b.val, b.w))
	}
	if a == b {
		return c.True
	}
	if t := c.linLess(a, b, true); t != nil {
		return t
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if c.nonneg(a) && b.IsConst() {
		return c.False
	}
	if c.nonneg(b) && a.IsConst() {
		return c.True
	}
	return c.mk(Term{op: OSle, a: a, b: b})
}

func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.IsConst() && b.IsConst() {
		return c.Const(a.val<<b.w|b.val, w)
	}
	if a.IsConst() && a.val == 0 {
		return c.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.lo == b.hi+1 {
		return c.Extract(a.a, a.hi, b.lo)
	}
	if a.op == OZext {
		return c.Zext(c.Concat(a.a, b), w)
	}
	// right-normalise constants: concat(x, concat(y,z)) left as is
	return c.mk(Term{op: OConcat, w: w, a: a, b: b})
}

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(a.val>>lo, w)
	case OExtract:
		return c.Extract(a.a, a.lo+hi, a.lo+lo)
	case OZext:
		iw := a.a.w
		if lo >= iw {
			return c.Const(0, w)
		}
		if hi < iw {
			return c.Extract(a.a, hi, lo)
		}
		return c.Zext(c.Extract(a.a, iw-1, lo), w)
	case OSext:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.a, hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.a, hi-lw, 0), c.Extract(a.b, lw-1, lo))
	case OBAnd, OBOr, OBXor:
		if a.b.IsConst() || lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
		}
	case OBNot:
		return c.BNot(c.Extract(a.a, hi, lo))
	case OAdd, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
		}
	case OIte:
		if a.b.IsConst() || a.c.IsConst() {
			return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
		}
	}
	return c.mk(Term{op: OExtract, w: w, hi: hi, lo: lo, a: a})
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(a.val, w)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	return c.mk(Term{op: OZext, w: w, a: a})
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(uint64(sext64(a.val, a.w)), w)
	}
	if c.nonneg(a) {
		return c.Zext(a, w)
	}
	return c.mk(Term{op: OSext, w: w, a: a})
}

// Resize converts an integer term to width w.
func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, w-1, 0)
	}
	if signed {
		return c.Sext(a, w)
	}
	return c.Zext(a, w)
}

// umax is an upper bound of the unsigned value of a.
func (c *Ctx) umax(a *Term) uint64 {
	switch a.op {
	case OConst:
		return a.val
	case OVar:
		return a.max
	}
	if v, ok := c.umaxC[a.id]; ok {
		return v
	}
	m := mask(a.w)
	r := m
	switch a.op {
	case OZext:
		r = c.umax(a.a)
	case OIte:
		r = max(c.umax(a.b), c.umax(a.c))
	case OBAnd:
		r = min(c.umax(a.a), c.umax(a.b))
	case OBOr, OBXor:
		x := c.umax(a.a) | c.umax(a.b)
		r = m
		if x < m {
			r = min(m, (uint64(1)<<bits.Len64(x))-1)
		}
	case OAdd:
		x, y := c.umax(a.a), c.umax(a.b)
		if s, cy := bits.Add64(x, y, 0); cy == 0 && s <= m {
			r = s
		}
	case OMul:
		if hi, lo := bits.Mul64(c.umax(a.a), c.umax(a.b)); hi == 0 && lo <= m {
			r = lo
		}
	case OUDiv:
		if a.b.IsConst() && a.b.val != 0 {
			r = c.umax(a.a) / a.b.val
		}
	case OURem:
		if a.b.IsConst() && a.b.val != 0 {
			r = min(c.umax(a.a), a.b.val-1)
		}
	case OConcat:
		r = c.umax(a.a)<<a.b.w | c.umax(a.b)
	case OExtract:
		x := c.umax(a.a) >> a.lo
		if x <= m {
			r = x
		}
	case OLshr:
		r = c.umax(a.a)
	}
	c.umaxC[a.id] = r
	return r
}

// ---- evaluation under a model ----

type Model map[*Term]uint64

type evaler struct {
	m    Model
	memo map[*Term]uint64
}

func newEval(m Model) *evaler { return &evaler{m, map[*Term]uint64{}} }

func (e *evaler) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m[t]
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - e.eval(t.a)
	case OAnd:
		r = e.eval(t.a)
		if r == 1 {
			r = e.eval(t.b)
		}
	case OOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	case OEq:
		r = b2(e.eval(t.a) == e.eval(t.b))
	case OIte:
		if e.eval(t.a) == 1 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OUlt:
		r = b2(e.eval(t.a) < e.eval(t.b))
	case OUle:
		r = b2(e.eval(t.a) <= e.eval(t.b))
	case OSlt:
		r = b2(sext64(e.eval(t.a), t.a.w) < sext64(e.eval(t.b), t.a.w))
	case OSle:
		r = b2(sext64(e.eval(t.a), t.a.w) <= sext64(e.eval(t.b), t.a.w))
	case OBNot:
		r = ^e.eval(t.a) & mask(t.w)
	case ONeg:
		r = -e.eval(t.a) & mask(t.w)
	case OConcat:
		r = e.eval(t.a)<<t.b.w | e.eval(t.b)
	case OExtract:
		r = (e.eval(t.a) >> t.lo) & mask(t.w)
	case OZext:
		r = e.eval(t.a)
	case OSext:
		r = uint64(sext64(e.eval(t.a), t.a.w)) & mask(t.w)
	default:
		x, y := e.eval(t.a), e.eval(t.b)
		w := t.w
		m := mask(w)
		switch t.op {
		case OAdd:
			r = (x + y) & m
		case OSub:
			r = (x - y) & m
		case OMul:
			r = (x * y) & m
		case OUDiv:
			if y == 0 {
				r = m
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv, OSRem:
			sx, sy := sext64(x, w), sext64(y, w)
			switch {
			case sy == 0 && t.op == OSRem:
				r = x
			case sy == 0 && sx >= 0:
				r = m
			case sy == 0:
				r = 1
			case sy == -1 && t.op == OSDiv:
				r = uint64(-sx) & m
			case sy == -1:
				r = 0
			case t.op == OSDiv:
				r = uint64(sx/sy) & m
			default:
				r = uint64(sx%sy) & m
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OShl:
			if y < uint64(w) {
				r = (x << y) & m
			}
		case OLshr:
			if y < uint64(w) {
				r = x >> y
			}
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sext64(x, w)>>y) & m
		default:
			panic("eval op")
		}
	}
	e.memo[t] = r
	return r
}

func (t *Term) String() string {
	var sb strings.Builder
	n := 0
	var w func(t *Term)
	w = func(t *Term) {
		n++
		if n > 60 {
			sb.WriteString("..")
			return
		}
		switch t.op {
		case OConst:
			if t.w == 0 {
				fmt.Fprintf(&sb, "%v", t.val == 1)
			} else {
				fmt.Fprintf(&sb, "%d", t.val)
			}
		case OVar:
			sb.WriteString(t.name)
		case OExtract:
			w(t.a)
			fmt.Fprintf(&sb, "[%d:%d]", t.hi, t.lo)
		case OZext, OSext:
			w(t.a)
		default:
			sb.WriteString("(" + opName[t.op])
			for _, x := range []*Term{t.a, t.b, t.c} {
				if x != nil {
					sb.WriteByte(' ')
					w(x)
				}
			}
			sb.WriteByte(')')
		}
	}
	w(t)
	return sb.String()
}
