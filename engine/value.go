package main

// Run-time values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (integers, booleans), FloatV, *StrV, StructV, ArrayV,
// *Value (pointer to a slot), *SymPtr (pointer to an array element with symbolic
// index), SliceV, *MapV, *ChanV, *FuncV, *ssa.Builtin, IfaceV, TupleV, *Poison,
// *IterV, nil (untyped absent).
type Value interface{}

type FloatV float64

// StrV is an immutable string of concrete length with possibly symbolic bytes.
// Lazy strings are produced by formatting; they are rendered only when inspected.
type StrV struct {
	b    []*Term
	lazy func(r *Run) []*Term
	tag  interface{} // structured origin (e.g. *udpAddrTag)
}

type StructV []Value
type ArrayV []Value
type TupleV []Value

type SymPtr struct {
	back []Value
	idx  *Term // relative to back
}

type SliceV struct {
	back        []Value // nil: nil slice
	off, ln, cp *Term
}

type mapEnt struct {
	k    Value
	slot *Value
	dead bool
}

type MapV struct {
	kt   types.Type
	ents []*mapEnt
	live int
}

type FuncV struct {
	fn    *ssa.Function
	env   []Value
	nat   func(r *Run, args []Value) Value // native closure
	recv  Value
	bound bool
}

type IfaceV struct {
	t types.Type // nil: nil interface
	v Value
}

type Poison struct{ why string }

type IterV struct {
	m    *MapV
	ents []*mapEnt
	i    int
	s    *StrV
}

func (p *Poison) String() string { return "poison(" + p.why + ")" }

// unsupported ends the path: the code left what the engine can encode.
func (r *Run) unsupported(format string, a ...interface{}) {
	panic(pathEnd{kind: endUnsupported, msg: fmt.Sprintf(format, a...) + r.where()})
}

func (r *Run) where() string {
	if r.cur == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for fr := r.cur.fr; fr != nil && n < 6; fr = fr.caller {
		fmt.Fprintf(&sb, " <- %s", fr.fn.String())
		if fr.pos.IsValid() {
			p := r.w.P.fset.Position(fr.pos)
			fmt.Fprintf(&sb, "(%s:%d)", shortFile(p.Filename), p.Line)
		}
		n++
	}
	return sb.String()
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		return f[i+1:]
	}
	return f
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// widthOf returns the bit width of an integer or bool type (bool: 0), ok=false otherwise.
func widthOf(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func (r *Run) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, ok := widthOf(u); ok {
			if w == 0 {
				return r.c.False
			}
			return r.c.Const(0, w)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = r.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(ArrayV, u.Len())
		if len(a) > 0 {
			z := r.zero(u.Elem())
			switch z.(type) {
			case StructV, ArrayV:
				for i := range a {
					a[i] = r.zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(TupleV, u.Len())
		for i := range s {
			s[i] = r.zero(u.At(i).Type())
		}
		return s
	}
	return &Poison{"zero of " + t.String()}
}

var emptyStr = &StrV{}

// copyVal copies aggregate values (deeply), other values are immutable or references.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case StructV:
		n := make(StructV, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case ArrayV:
		n := make(ArrayV, len(v))
		for i, x := range v {
			switch x.(type) {
			case StructV, ArrayV:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

// storeSlot assigns v to the slot, keeping the identity of nested slots.
func storeSlot(p *Value, v Value) {
	switch v := v.(type) {
	case StructV:
		if old, ok := (*p).(StructV); ok && len(old) == len(v) {
			for i := range v {
				storeSlot(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case ArrayV:
		if old, ok := (*p).(ArrayV); ok && len(old) == len(v) {
			for i := range v {
				switch v[i].(type) {
				case StructV, ArrayV:
					storeSlot(&old[i], v[i])
				default:
					old[i] = v[i]
				}
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func (r *Run) mkStr(s string) *StrV {
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = r.c.Const(uint64(s[i]), 8)
	}
	return &StrV{b: b}
}

func (r *Run) strBytes(s *StrV) []*Term {
	if s.lazy != nil {
		f := s.lazy
		b := f(r)
		s.b = b
		s.lazy = nil
	}
	return s.b
}

// concreteStr returns the string if all bytes are constant.
func (r *Run) concreteStr(s *StrV) (string, bool) {
	b := r.strBytes(s)
	out := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return "", false
		}
		out[i] = byte(t.val)
	}
	return string(out), true
}

func (r *Run) mustStr(v Value) string {
	s, ok := v.(*StrV)
	if !ok {
		r.unsupported("string expected, got %T", v)
	}
	x, ok := r.concreteStr(s)
	if !ok {
		r.unsupported("symbolic string where a concrete one is needed")
	}
	return x
}

func (r *Run) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		r.unsupported("integer/bool expected, got %v", descr(v))
	}
	return t
}

func descr(v Value) string {
	switch v := v.(type) {
	case *Poison:
		return v.String()
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

// bytesSlice makes a fresh byte slice from terms.
func (r *Run) bytesSlice(b []*Term) SliceV {
	back := make([]Value, len(b))
	for i := range b {
		back[i] = b[i]
	}
	n := r.c.Int(int64(len(b)))
	return SliceV{back: back, off: r.c.Int(0), ln: n, cp: n}
}

func (r *Run) lenOf(s SliceV) *Term {
	if s.ln == nil {
		return r.c.Int(0)
	}
	return s.ln
}
func (r *Run) capOf(s SliceV) *Term {
	if s.cp == nil {
		return r.c.Int(0)
	}
	return s.cp
}
func (r *Run) offOf(s SliceV) *Term {
	if s.off == nil {
		return r.c.Int(0)
	}
	return s.off
}

// maxLen is a concrete upper bound of the slice's length.
func (r *Run) maxLen(s SliceV) int {
	if s.back == nil {
		return 0
	}
	m := len(s.back)
	if s.off.IsConst() {
		m -= int(s.off.val)
	}
	if u := r.c.umax(s.ln); u < uint64(m) {
		m = int(u)
	}
	return m
}

// at reads element i (constant) of the slice; the caller knows i is within range.
func (r *Run) at(s SliceV, i int) Value {
	return r.readIdx(s.back, r.c.Bin(OAdd, s.off, r.c.Int(int64(i))))
}

// readIdx reads back[idx]; idx is known to be in range on this path.
func (r *Run) readIdx(back []Value, idx *Term) Value {
	if idx.IsConst() {
		if idx.val >= uint64(len(back)) {
			return r.c.Const(0, 8) // only reached under a false guard
		}
		return back[idx.val]
	}
	n := len(back)
	if u := r.c.umax(idx); u+1 < uint64(n) && u+1 > 0 {
		n = int(u) + 1
	}
	scalar := n > 0
	for i := 0; i < n && scalar; i++ {
		_, scalar = back[i].(*Term)
	}
	if !scalar {
		k := r.concretize(idx, "index")
		return back[k]
	}
	res := back[n-1].(*Term)
	for i := n - 2; i >= 0; i-- {
		res = r.c.Ite(r.c.Eq(idx, r.c.Int(int64(i))), back[i].(*Term), res)
	}
	return res
}

func (r *Run) writeIdx(back []Value, idx *Term, v Value) {
	if idx.IsConst() {
		storeSlot(&back[idx.val], v)
		return
	}
	t, ok := v.(*Term)
	n := len(back)
	if u := r.c.umax(idx); u+1 < uint64(n) && u+1 > 0 {
		n = int(u) + 1
	}
	if ok {
		for i := 0; i < n && ok; i++ {
			_, ok = back[i].(*Term)
		}
	}
	if !ok {
		k := r.concretize(idx, "index")
		storeSlot(&back[k], v)
		return
	}
	for i := 0; i < n; i++ {
		back[i] = r.c.Ite(r.c.Eq(idx, r.c.Int(int64(i))), t, back[i].(*Term))
	}
}

// eqVals is the Go == on values of type t.
func (r *Run) eqVals(t types.Type, a, b Value) *Term {
	if p, ok := a.(*Poison); ok {
		r.unsupported("comparing %v", p)
	}
	if p, ok := b.(*Poison); ok {
		r.unsupported("comparing %v", p)
	}
	switch a := a.(type) {
	case *Term:
		if r.rawEq {
			return r.c.RawEq(a, r.term(b))
		}
		return r.c.Eq(a, r.term(b))
	case FloatV:
		return r.c.Bool(a == b.(FloatV))
	case *StrV:
		bs := b.(*StrV)
		if a == bs {
			return r.c.True
		}
		x, y := r.strBytes(a), r.strBytes(bs)
		if len(x) != len(y) {
			return r.c.False
		}
		res := r.c.True
		for i := range x {
			res = r.c.And(res, r.c.Eq(x[i], y[i]))
			if res.IsFalse() {
				return res
			}
		}
		return res
	case StructV:
		st := t.Underlying().(*types.Struct)
		bv := b.(StructV)
		res := r.c.True
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			res = r.c.And(res, r.eqVals(st.Field(i).Type(), a[i], bv[i]))
		}
		return res
	case ArrayV:
		et := t.Underlying().(*types.Array).Elem()
		bv := b.(ArrayV)
		res := r.c.True
		for i := range a {
			res = r.c.And(res, r.eqVals(et, a[i], bv[i]))
		}
		return res
	case *Value:
		if sp, ok := b.(*SymPtr); ok {
			_ = sp
			r.unsupported("comparing symbolic pointers")
		}
		return r.c.Bool(a == b.(*Value))
	case *ChanV:
		return r.c.Bool(a == b.(*ChanV))
	case *MapV:
		return r.c.Bool(a == b.(*MapV))
	case *FuncV:
		bf, _ := b.(*FuncV)
		if a == nil || bf == nil {
			return r.c.Bool(a == nil && bf == nil)
		}
	case SliceV: // only against nil
		bs := b.(SliceV)
		return r.c.Bool(a.back == nil && bs.back == nil)
	case IfaceV:
		bi, ok := b.(IfaceV)
		if !ok {
			r.unsupported("interface compared with %T", b)
		}
		if a.t == nil || bi.t == nil {
			return r.c.Bool(a.t == nil && bi.t == nil)
		}
		if !types.Identical(a.t, bi.t) {
			return r.c.False
		}
		return r.eqVals(a.t, a.v, bi.v)
	case nil:
		if b == nil {
			return r.c.True
		}
	}
	r.unsupported("comparison of %T and %T", a, b)
	return nil
}
