package main

// Models of library functions the engine does not interpret: formatting, reflection-based
// encoding/binary, sync, time, and the fake UDP network. Everything else of the standard
// library is interpreted from its source.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]Intrinsic

type tagAddr struct { // string made from an IP and a port
	ip   SliceV
	port *Term
}

func logrusStub(r *Run, caller *frame, fn *ssa.Function, args []Value) Value {
	n := fn.Name()
	if strings.HasPrefix(n, "Panic") {
		panic(&goPanic{v: IfaceV{types.Typ[types.String], r.mkStr("logrus panic")}, where: r.where()})
	}
	if strings.HasPrefix(n, "Fatal") {
		panic(&goPanic{v: IfaceV{types.Typ[types.String], r.mkStr("logrus fatal: process exit")}, where: r.where()})
	}
	res := fn.Signature.Results()
	mk := func(t types.Type) Value {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if _, isS := p.Elem().Underlying().(*types.Struct); isS {
				v := new(Value)
				*v = r.zero(p.Elem())
				return v
			}
		}
		return r.zero(t)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type())
	}
	t := make(TupleV, res.Len())
	for i := range t {
		t[i] = mk(res.At(i).Type())
	}
	return t
}

func (r *Run) newErr(msg *StrV) Value {
	t := r.P.namedType("errors", "errorString")
	s := new(Value)
	*s = StructV{msg}
	return IfaceV{types.NewPointer(t), s}
}

// ptrTo returns a canonical pointer type (types.Identical is used for comparisons).
func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func (r *Run) varargs(v Value) []IfaceV {
	s := v.(SliceV)
	n := int(r.concretize(r.lenOf(s), "varargs"))
	out := make([]IfaceV, n)
	for i := range out {
		iv, ok := r.at(s, i).(IfaceV)
		if !ok {
			iv = IfaceV{types.Typ[types.Invalid], &Poison{"vararg"}}
		}
		out[i] = iv
	}
	return out
}

// ---- formatting ----

// fmtUint renders an unsigned integer in decimal; forks on the number of digits.
func (r *Run) fmtUint(x *Term) []*Term {
	c := r.c
	if x.IsConst() {
		return r.strBytes(r.mkStr(strconv.FormatUint(x.val, 10)))
	}
	w := uint8(64)
	um := c.umax(x)
	switch {
	case um < 1<<8:
		w = 8
	case um < 1<<16:
		w = 16
	case um < 1<<32:
		w = 32
	}
	y := c.Resize(x, w, false)
	nd := 1
	p := uint64(10)
	for p <= um && p <= mask(w) {
		if r.branch(c.Ult(y, c.Const(p, w))) {
			break
		}
		nd++
		if p > (1<<63)/5 {
			break
		}
		p *= 10
	}
	out := make([]*Term, nd)
	d := uint64(1)
	for i := nd - 1; i >= 0; i-- {
		q := c.Bin(OURem, c.Bin(OUDiv, y, c.Const(d, w)), c.Const(10, w))
		out[i] = c.Bin(OAdd, c.Resize(q, 8, false), c.Const('0', 8))
		d *= 10
	}
	return out
}

func (r *Run) fmtInt(x *Term, signed bool) []*Term {
	c := r.c
	if signed && !c.nonneg(x) && r.branch(c.Slt(x, c.Const(0, x.w))) {
		return append([]*Term{c.Const('-', 8)}, r.fmtUint(c.Neg(x))...)
	}
	return r.fmtUint(x)
}

func (r *Run) fmtHex(x *Term, upper bool) []*Term {
	if x.IsConst() {
		s := strconv.FormatUint(x.val, 16)
		if upper {
			s = strings.ToUpper(s)
		}
		return r.strBytes(r.mkStr(s))
	}
	c := r.c
	n := 1
	for n < int(x.w)/4 && !r.branch(c.Ult(x, c.Const(uint64(1)<<(4*n), x.w))) {
		n++
	}
	var out []*Term
	for i := n - 1; i >= 0; i-- {
		d := c.Zext(c.Extract(x, uint8(4*i+3), uint8(4*i)), 8)
		a := uint64('a' - 10)
		if upper {
			a = 'A' - 10
		}
		out = append(out, c.Bin(OAdd, d, c.Ite(c.Ult(d, c.Const(10, 8)), c.Const('0', 8), c.Const(a, 8))))
	}
	return out
}

func (r *Run) errIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func (r *Run) callStringer(iv IfaceV) (*StrV, bool) {
	if iv.t == nil {
		return nil, false
	}
	if r.P.implements(iv.t, r.errIface()) {
		v := r.invoke(iv, "Error")
		return v.(*StrV), true
	}
	if f := r.P.lookupMethodName(iv.t, "String"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
		if s, ok := r.invoke(iv, "String").(*StrV); ok {
			return s, true
		}
	}
	return nil, false
}

func (r *Run) fmtOne(verb byte, flags string, iv IfaceV) []*Term {
	str := func(s string) []*Term { return r.strBytes(r.mkStr(s)) }
	if iv.t == nil {
		if verb == 'T' || verb == 'v' {
			return str("<nil>")
		}
		return str("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return str(iv.t.String())
	}
	sharp := strings.Contains(flags, "#")
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if !sharp {
			if s, ok := r.callStringer(iv); ok {
				b := r.strBytes(s)
				if verb == 'q' {
					return r.quote(b)
				}
				return b
			}
		}
	}
	switch v := iv.v.(type) {
	case *Term:
		if v.w == 0 {
			if r.branch(v) {
				return str("true")
			}
			return str("false")
		}
		sg := isSigned(iv.t)
		switch verb {
		case 'd', 'v':
			if sharp && verb == 'v' && !sg {
				return append(str("0x"), r.fmtHex(v, false)...)
			}
			b := r.fmtInt(v, sg)
			if strings.Contains(flags, "+") && verb == 'd' {
				b = append(str("+"), b...)
			}
			return b
		case 'x', 'X':
			var pre []*Term
			if sharp {
				pre = str("0" + string(verb))
			}
			return append(pre, r.fmtHex(v, verb == 'X')...)
		case 'c':
			return r.runeBytes(r.c.Resize(v, 64, sg))
		case 'b', 'o', 'U', 'q':
			k := r.concretize(v, "format")
			return str(fmt.Sprintf("%"+flags+string(verb), k))
		}
		return str("%!" + string(verb) + "(?)")
	case *StrV:
		switch verb {
		case 's', 'v':
			if sharp {
				return r.quote(r.strBytes(v))
			}
			return r.strBytes(v)
		case 'q':
			return r.quote(r.strBytes(v))
		case 'x':
			var out []*Term
			for _, t := range r.strBytes(v) {
				out = append(out, r.hexByte(t)...)
			}
			return out
		}
	case SliceV:
		st, ok := iv.t.Underlying().(*types.Slice)
		if ok {
			n := int(r.concretize(r.lenOf(v), "format slice"))
			if verb == 's' || verb == 'x' {
				var out []*Term
				for i := 0; i < n; i++ {
					t := r.term(r.at(v, i))
					if verb == 's' {
						out = append(out, t)
					} else {
						out = append(out, r.hexByte(t)...)
					}
				}
				return out
			}
			out := str("[")
			for i := 0; i < n; i++ {
				if i > 0 {
					out = append(out, str(" ")...)
				}
				e := r.at(v, i)
				ie, isI := e.(IfaceV)
				if !isI {
					ie = IfaceV{st.Elem(), e}
				}
				out = append(out, r.fmtOne(verb, flags, ie)...)
			}
			return append(out, str("]")...)
		}
	case ArrayV:
		at := iv.t.Underlying().(*types.Array)
		out := str("[")
		for i, e := range v {
			if i > 0 {
				out = append(out, str(" ")...)
			}
			ie, isI := e.(IfaceV)
			if !isI {
				ie = IfaceV{at.Elem(), e}
			}
			out = append(out, r.fmtOne(verb, flags, ie)...)
		}
		return append(out, str("]")...)
	case StructV:
		st := iv.t.Underlying().(*types.Struct)
		out := str("{")
		for i, e := range v {
			if i > 0 {
				out = append(out, str(" ")...)
			}
			ie, isI := e.(IfaceV)
			if !isI {
				ie = IfaceV{st.Field(i).Type(), e}
			}
			out = append(out, r.fmtOne(verb, flags, ie)...)
		}
		return append(out, str("}")...)
	case FloatV:
		return str(fmt.Sprintf("%"+flags+string(verb), float64(v)))
	case *Value:
		if v == nil {
			return str("<nil>")
		}
		return str("0xc000000000")
	}
	r.unsupported("formatting %%%c of %s", verb, iv.t)
	return nil
}

func (r *Run) hexByte(t *Term) []*Term {
	c := r.c
	nib := func(x *Term) *Term {
		x = c.Zext(x, 8)
		return c.Bin(OAdd, x, c.Ite(c.Ult(x, c.Const(10, 8)), c.Const('0', 8), c.Const('a'-10, 8)))
	}
	return []*Term{nib(c.Extract(t, 7, 4)), nib(c.Extract(t, 3, 0))}
}

func (r *Run) quote(b []*Term) []*Term {
	s := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			s[i] = byte(r.concretize(t, "quote"))
		} else {
			s[i] = byte(t.val)
		}
	}
	return r.strBytes(r.mkStr(strconv.Quote(string(s))))
}

func (r *Run) sprintf(f *StrV, args []IfaceV) []*Term {
	fs, ok := r.concreteStr(f)
	if !ok {
		r.unsupported("symbolic format string")
	}
	var out []*Term
	lit := func(s string) { out = append(out, r.strBytes(r.mkStr(s))...) }
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			out = append(out, r.c.Const(uint64(fs[i]), 8))
			continue
		}
		i++
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		flags := fs[st:i]
		if i >= len(fs) {
			lit("%!(NOVERB)")
			break
		}
		if fs[i] == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(fs[i]) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		width := strings.TrimLeft(flags, "+-# 0")
		b := r.fmtOne(fs[i], strings.TrimRight(flags, "0123456789."), a)
		if width != "" {
			if n, err := strconv.Atoi(width); err == nil && len(b) < n {
				pad := byte(' ')
				if strings.HasPrefix(strings.TrimLeft(flags, "+-# "), "0") {
					pad = '0'
				}
				if strings.Contains(flags, "-") {
					for len(b) < n {
						b = append(b, r.c.Const(' ', 8))
					}
				} else {
					p := make([]*Term, n-len(b))
					for k := range p {
						p[k] = r.c.Const(uint64(pad), 8)
					}
					b = append(p, b...)
				}
			}
		}
		out = append(out, b...)
	}
	return out
}

func (r *Run) sprint(args []IfaceV, ln bool) []*Term {
	var out []*Term
	prevStr := true
	for i, a := range args {
		_, isStr := a.v.(*StrV)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, r.c.Const(' ', 8))
		}
		out = append(out, r.fmtOne('v', "", a)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, r.c.Const('\n', 8))
	}
	return out
}

func (r *Run) errorf(f *StrV, args []IfaceV) Value {
	msg := &StrV{lazy: func(r *Run) []*Term { return r.sprintf(f, args) }}
	fs, ok := r.concreteStr(f)
	if !ok {
		r.unsupported("symbolic format string")
	}
	var wrapped []IfaceV
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) || fs[i] == '%' {
			continue
		}
		if fs[i] == 'w' && ai < len(args) && args[ai].t != nil && r.P.implements(args[ai].t, r.errIface()) {
			wrapped = append(wrapped, args[ai])
		}
		ai++
	}
	s := new(Value)
	switch len(wrapped) {
	case 0:
		return r.newErr(msg)
	case 1:
		*s = StructV{msg, wrapped[0]}
		return IfaceV{ptrTo(r.P.namedType("fmt", "wrapError")), s}
	}
	vs := make([]Value, len(wrapped))
	for i := range wrapped {
		vs[i] = wrapped[i]
	}
	n := r.c.Int(int64(len(vs)))
	*s = StructV{msg, SliceV{back: vs, off: r.c.Int(0), ln: n, cp: n}}
	return IfaceV{ptrTo(r.P.namedType("fmt", "wrapErrors")), s}
}

// ---- errors ----

func (r *Run) errorsIs(err, target IfaceV) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Identical(err.t, target.t) && r.branch(r.eqVals(err.t, err.v, target.v)) {
		return true
	}
	if f := r.P.lookupMethodName(err.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
		if r.branch(r.term(r.invoke(err, "Is", target))) {
			return true
		}
	}
	if f := r.P.lookupMethodName(err.t, "Unwrap"); f != nil {
		switch v := r.invoke(err, "Unwrap").(type) {
		case IfaceV:
			return v.t != nil && r.errorsIs(v, target)
		case SliceV:
			n := int(r.concretize(r.lenOf(v), "unwrap"))
			for i := 0; i < n; i++ {
				if r.errorsIs(r.at(v, i).(IfaceV), target) {
					return true
				}
			}
		}
	}
	return false
}

func (r *Run) errorsAs(err IfaceV, target IfaceV) bool {
	if err.t == nil {
		return false
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		r.throwPlain("errors: target must be a non-nil pointer")
	}
	tt := pt.Elem()
	slot := target.v.(*Value)
	for {
		if it, isI := tt.Underlying().(*types.Interface); isI {
			if r.P.implements(err.t, it) {
				storeSlot(slot, err)
				return true
			}
		} else if types.Identical(err.t, tt) {
			storeSlot(slot, copyVal(err.v))
			return true
		}
		f := r.P.lookupMethodName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		switch v := r.invoke(err, "Unwrap").(type) {
		case IfaceV:
			if v.t == nil {
				return false
			}
			err = v
		case SliceV:
			n := int(r.concretize(r.lenOf(v), "unwrap"))
			for i := 0; i < n; i++ {
				if r.errorsAs(r.at(v, i).(IfaceV), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ---- encoding/binary ----

// fixedSize is binary's dataSize for a type; -1 if not fixed-size.
func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	case *types.Array:
		if e := fixedSize(u.Elem()); e >= 0 {
			return e * int(u.Len())
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			s := fixedSize(u.Field(i).Type())
			if s < 0 {
				return -1
			}
			n += s
		}
		return n
	}
	return -1
}

func (r *Run) isLittle(order Value) bool {
	iv, ok := order.(IfaceV)
	if !ok || iv.t == nil {
		r.unsupported("byte order %s", descr(order))
	}
	s := iv.t.String()
	switch {
	case strings.HasSuffix(s, "littleEndian"), strings.HasSuffix(s, "nativeEndian"):
		return true
	case strings.HasSuffix(s, "bigEndian"):
		return false
	}
	r.unsupported("byte order %s", s)
	return false
}

func (r *Run) binEncode(t types.Type, v Value, little bool, out []*Term) []*Term {
	c := r.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x := r.term(v)
		if u.Kind() == types.Bool {
			return append(out, c.Ite(x, c.Const(1, 8), c.Const(0, 8)))
		}
		n := int(x.w) / 8
		for i := 0; i < n; i++ {
			k := n - 1 - i
			if little {
				k = i
			}
			out = append(out, c.Extract(x, uint8(8*k+7), uint8(8*k)))
		}
		return out
	case *types.Array:
		for _, e := range v.(ArrayV) {
			out = r.binEncode(u.Elem(), e, little, out)
		}
		return out
	case *types.Struct:
		s := v.(StructV)
		for i := range s {
			f := u.Field(i)
			if f.Name() == "_" {
				for k := fixedSize(f.Type()); k > 0; k-- {
					out = append(out, c.Const(0, 8))
				}
				continue
			}
			out = r.binEncode(f.Type(), s[i], little, out)
		}
		return out
	}
	r.unsupported("binary encoding of %s", t)
	return nil
}

// binDecode stores into slot the value decoded from b and returns the rest.
func (r *Run) binDecode(t types.Type, slot *Value, little bool, b []*Term) []*Term {
	c := r.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			*slot = c.Not(c.Eq(b[0], c.Const(0, 8)))
			return b[1:]
		}
		w, ok := widthOf(u)
		if !ok {
			r.unsupported("binary decoding of %s", t)
		}
		n := int(w) / 8
		var x *Term
		for i := 0; i < n; i++ {
			k := i
			if little {
				k = n - 1 - i
			}
			if x == nil {
				x = b[k]
			} else {
				x = c.Concat(x, b[k])
			}
		}
		*slot = x
		return b[n:]
	case *types.Array:
		a := (*slot).(ArrayV)
		for i := range a {
			b = r.binDecode(u.Elem(), &a[i], little, b)
		}
		return b
	case *types.Struct:
		s := (*slot).(StructV)
		for i := range s {
			f := u.Field(i)
			if f.Name() == "_" {
				b = b[fixedSize(f.Type()):]
				continue
			}
			if !f.Exported() {
				r.throwPlain("reflect: reflect.Value.SetUint using value obtained using unexported field")
			}
			b = r.binDecode(f.Type(), &s[i], little, b)
		}
		return b
	}
	r.unsupported("binary decoding of %s", t)
	return nil
}

func (r *Run) binBytes(data IfaceV, little bool) ([]*Term, bool) {
	if data.t == nil {
		return nil, false
	}
	t, v := data.t, data.v
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		s, ok := v.(*Value)
		if !ok {
			r.unsupported("binary.Write of %s", descr(v))
		}
		if s == nil {
			r.nilDeref()
		}
		v = *s
	}
	if st, ok := t.Underlying().(*types.Slice); ok {
		if fixedSize(st.Elem()) < 0 {
			return nil, false
		}
		s := v.(SliceV)
		n := int(r.concretize(r.lenOf(s), "binary.Write"))
		var out []*Term
		for i := 0; i < n; i++ {
			out = r.binEncode(st.Elem(), r.at(s, i), little, out)
		}
		return out, true
	}
	if fixedSize(t) < 0 {
		return nil, false
	}
	return r.binEncode(t, v, little, nil), true
}

func iBinaryWrite(r *Run, caller *frame, fn *ssa.Function, args []Value) Value {
	w, data := args[0].(IfaceV), args[2].(IfaceV)
	b, ok := r.binBytes(data, r.isLittle(args[1]))
	if !ok {
		return r.newErr(r.mkStr("binary.Write: some values are not fixed-sized in type"))
	}
	res := r.invoke(w, "Write", r.bytesSlice(b)).(TupleV)
	return res[1]
}

func iBinaryRead(r *Run, caller *frame, fn *ssa.Function, args []Value) Value {
	rd, data := args[0].(IfaceV), args[2].(IfaceV)
	little := r.isLittle(args[1])
	size, tgt := r.binTarget(data)
	if size < 0 {
		return r.newErr(r.mkStr("binary.Read: invalid type"))
	}
	z := make([]*Term, size)
	for i := range z {
		z[i] = r.c.Const(0, 8)
	}
	buf := r.bytesSlice(z)
	rf := r.P.pkg("io").Func("ReadFull")
	res := r.callFn(nil, rf, []Value{rd, buf}, 0).(TupleV)
	if e := res[1].(IfaceV); e.t != nil {
		return e
	}
	b := make([]*Term, size)
	for i := range b {
		b[i] = r.term(buf.back[i])
	}
	tgt(b, little)
	return IfaceV{}
}

func (r *Run) binTarget(data IfaceV) (int, func(b []*Term, little bool)) {
	if data.t == nil {
		return -1, nil
	}
	switch u := data.t.Underlying().(type) {
	case *types.Pointer:
		s, ok := data.v.(*Value)
		if !ok {
			r.unsupported("binary.Read into %s", descr(data.v))
		}
		if s == nil {
			r.nilDeref()
		}
		n := fixedSize(u.Elem())
		return n, func(b []*Term, little bool) { r.binDecode(u.Elem(), s, little, b) }
	case *types.Slice:
		e := fixedSize(u.Elem())
		if e < 0 {
			return -1, nil
		}
		sl := data.v.(SliceV)
		n := int(r.concretize(r.lenOf(sl), "binary.Read"))
		return e * n, func(b []*Term, little bool) {
			off := int(r.concretize(r.offOf(sl), "off"))
			for i := 0; i < n; i++ {
				b = r.binDecode(u.Elem(), &sl.back[off+i], little, b)
			}
		}
	}
	return -1, nil
}

// ---- byte helpers ----

// bytesEq is the equality of two byte slices of possibly symbolic length.
func (r *Run) bytesEq(a, b SliceV) *Term { return r.bytesCmp(a, b, r.c.Eq) }

func (r *Run) bytesCmp(a, b SliceV, eq func(a, b *Term) *Term) *Term {
	c := r.c
	la, lb := r.lenOf(a), r.lenOf(b)
	res := c.Eq(la, lb)
	if res.IsFalse() {
		return res
	}
	n := min(r.maxLen(a), r.maxLen(b))
	for i := 0; i < n; i++ {
		in := c.Ult(c.Int(int64(i)), la)
		if in.IsFalse() {
			break
		}
		under := func(t *Term) *Term {
			for t.op == OIte && t.a == in {
				t = t.b
			}
			return t
		}
		if !in.IsTrue() {
			eq = c.Eq
		}
		res = c.And(res, c.Or(c.Not(in), eq(under(r.term(r.at(a, i))), under(r.term(r.at(b, i))))))
	}
	return res
}

func init() {
	intrinsics = map[string]Intrinsic{}
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }
	nop := func(r *Run, caller *frame, fn *ssa.Function, args []Value) Value { return r.zeroResult(fn) }

	// fmt
	reg("fmt.Sprintf", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		f, as := a[0].(*StrV), r.varargs(a[1])
		return &StrV{lazy: func(r *Run) []*Term { return r.sprintf(f, as) }}
	})
	reg("fmt.Sprint", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		as := r.varargs(a[0])
		return &StrV{lazy: func(r *Run) []*Term { return r.sprint(as, false) }}
	})
	reg("fmt.Sprintln", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		as := r.varargs(a[0])
		return &StrV{lazy: func(r *Run) []*Term { return r.sprint(as, true) }}
	})
	reg("fmt.Errorf", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.errorf(a[0].(*StrV), r.varargs(a[1]))
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, nop)
	}
	reg("fmt.Fprintf", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.invoke(a[0].(IfaceV), "Write", r.bytesSlice(r.sprintf(a[1].(*StrV), r.varargs(a[2]))))
	})
	reg("fmt.Fprint", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.invoke(a[0].(IfaceV), "Write", r.bytesSlice(r.sprint(r.varargs(a[1]), false)))
	})
	reg("(runtime.errorString).Error", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { return a[0] })

	// strconv
	reg("strconv.Itoa", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		x := r.term(a[0])
		return &StrV{lazy: func(r *Run) []*Term { return r.fmtInt(x, true) }}
	})
	fi := func(signed bool) Intrinsic {
		return func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			x := r.term(a[0])
			base := r.concretize(r.term(a[1]), "base")
			switch base {
			case 10:
				return &StrV{lazy: func(r *Run) []*Term { return r.fmtInt(x, signed) }}
			case 16:
				return &StrV{lazy: func(r *Run) []*Term { return r.fmtHex(x, false) }}
			}
			k := r.concretize(x, "FormatInt")
			return r.mkStr(strconv.FormatInt(k, int(base)))
		}
	}
	reg("strconv.FormatInt", fi(true))
	reg("strconv.FormatUint", fi(false))
	reg("strconv.AppendInt", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.appendBytes(a[0].(SliceV), r.fmtInt(r.term(a[1]), true))
	})
	reg("strconv.AppendUint", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.appendBytes(a[0].(SliceV), r.fmtInt(r.term(a[1]), false))
	})

	// errors
	reg("errors.Is", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.c.Bool(r.errorsIs(a[0].(IfaceV), a[1].(IfaceV)))
	})
	reg("errors.As", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.c.Bool(r.errorsAs(a[0].(IfaceV), a[1].(IfaceV)))
	})

	// encoding/binary
	reg("encoding/binary.Write", iBinaryWrite)
	reg("encoding/binary.Read", iBinaryRead)
	reg("encoding/binary.Size", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		d := a[0].(IfaceV)
		if d.t == nil {
			return r.c.Int(-1)
		}
		t := d.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if st, ok := t.Underlying().(*types.Slice); ok {
			e := fixedSize(st.Elem())
			if e < 0 {
				return r.c.Int(-1)
			}
			return r.c.Bin(OMul, r.lenOf(d.v.(SliceV)), r.c.Int(int64(e)))
		}
		return r.c.Int(int64(fixedSize(t)))
	})
	reg("encoding/binary.Append", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		b, ok := r.binBytes(a[2].(IfaceV), r.isLittle(a[1]))
		if !ok {
			return TupleV{SliceV{}, r.newErr(r.mkStr("binary.Append: some values are not fixed-sized"))}
		}
		return TupleV{r.appendBytes(a[0].(SliceV), b), IfaceV{}}
	})
	reg("encoding/binary.Encode", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		b, ok := r.binBytes(a[2].(IfaceV), r.isLittle(a[1]))
		if !ok {
			return TupleV{r.c.Int(0), r.newErr(r.mkStr("binary.Encode: some values are not fixed-sized"))}
		}
		d := a[0].(SliceV)
		if r.branch(r.c.Ult(r.lenOf(d), r.c.Int(int64(len(b))))) {
			return TupleV{r.c.Int(0), r.newErr(r.mkStr("buffer too small"))}
		}
		r.copyOp(caller, d, r.bytesSlice(b))
		return TupleV{r.c.Int(int64(len(b))), IfaceV{}}
	})
	reg("encoding/binary.Decode", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		size, tgt := r.binTarget(a[2].(IfaceV))
		if size < 0 {
			return TupleV{r.c.Int(0), r.newErr(r.mkStr("binary.Decode: invalid type"))}
		}
		s := a[0].(SliceV)
		if r.branch(r.c.Ult(r.lenOf(s), r.c.Int(int64(size)))) {
			return TupleV{r.c.Int(0), r.newErr(r.mkStr("buffer too small"))}
		}
		b := make([]*Term, size)
		for i := range b {
			b[i] = r.term(r.at(s, i))
		}
		tgt(b, r.isLittle(a[1]))
		return TupleV{r.c.Int(int64(size)), IfaceV{}}
	})

	// bytes / strings
	beq := func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.bytesEq(a[0].(SliceV), a[1].(SliceV))
	}
	reg("bytes.Equal", beq)
	fold := func(r *Run, x, y []*Term) Value {
		if len(x) != len(y) {
			return r.c.False
		}
		ok := r.c.True
		for i := range x {
			a, b := x[i], y[i]
			if !b.IsConst() {
				a, b = b, a
			}
			e := r.c.Eq(a, b)
			if k := b.val; b.IsConst() && k|32 >= 'a' && k|32 <= 'z' {
				e = r.c.Or(e, r.c.Eq(a, r.c.Const(k^32, 8)))
			}
			ok = r.c.And(ok, e)
		}
		return ok
	}
	// plain: ASCII without letters that non-ASCII characters fold to
	plain := func(r *Run, b []*Term) bool {
		for _, t := range b {
			if k := t.val; !t.IsConst() || k >= 128 || k|32 == 'k' || k|32 == 's' {
				return false
			}
		}
		return true
	}
	reg("strings.EqualFold", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		x, y := r.strBytes(a[0].(*StrV)), r.strBytes(a[1].(*StrV))
		if !plain(r, x) && !plain(r, y) {
			return r.callRaw(caller, fn, a)
		}
		return fold(r, x, y)
	})
	reg("bytes.EqualFold", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		var b [2][]*Term
		for i := range b {
			s := a[i].(SliceV)
			n := r.lenOf(s)
			if !n.IsConst() {
				return r.callRaw(caller, fn, a)
			}
			for j := 0; j < int(n.val); j++ {
				b[i] = append(b[i], r.term(r.at(s, j)))
			}
		}
		if !plain(r, b[0]) && !plain(r, b[1]) {
			return r.callRaw(caller, fn, a)
		}
		return fold(r, b[0], b[1])
	})
	reg("internal/bytealg.Equal", beq)
	reg("bytes.HasPrefix", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		s, p := a[0].(SliceV), a[1].(SliceV)
		ok := r.c.Ule(r.lenOf(p), r.lenOf(s))
		if ok.IsFalse() {
			return ok
		}
		if p.back == nil {
			return r.c.True
		}
		if s.back == nil {
			return r.c.Eq(r.lenOf(p), r.c.Int(0))
		}
		n := min(r.maxLen(p), r.maxLen(s))
		for i := 0; i < n; i++ {
			ok = r.c.And(ok, r.c.Or(r.c.Ule(r.lenOf(p), r.c.Int(int64(i))), r.c.Eq(r.term(r.at(s, i)), r.term(r.at(p, i)))))
		}
		return ok
	})
	reg("internal/bytealg.IndexByte", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(SliceV)
		n := r.maxLen(s)
		for i := 0; i < n; i++ {
			if !r.branch(r.c.Ult(r.c.Int(int64(i)), r.lenOf(s))) {
				break
			}
			if r.branch(r.c.Eq(r.term(r.at(s, i)), r.term(a[1]))) {
				return r.c.Int(int64(i))
			}
		}
		return r.c.Int(-1)
	})
	reg("internal/bytealg.IndexByteString", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		for i, t := range r.strBytes(a[0].(*StrV)) {
			if r.branch(r.c.Eq(t, r.term(a[1]))) {
				return r.c.Int(int64(i))
			}
		}
		return r.c.Int(-1)
	})
	reg("internal/bytealg.CountString", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		n := r.c.Int(0)
		for _, t := range r.strBytes(a[0].(*StrV)) {
			n = r.c.Bin(OAdd, n, r.c.Ite(r.c.Eq(t, r.term(a[1])), r.c.Int(1), r.c.Int(0)))
		}
		return n
	})
	reg("internal/bytealg.MakeNoZero", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.makeSlice(types.NewSlice(types.Typ[types.Uint8]), r.term(a[0]), r.term(a[0]))
	})
	reg("strings.Clone", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	// strings.Builder: field 1 holds the bytes
	sbAppend := func(r *Run, p Value, s *StrV) {
		sl := p.(*Value)
		if sl == nil {
			r.nilDeref()
		}
		st := (*sl).(StructV)
		cur, _ := r.extra[fmt.Sprintf("sb%p", sl)].(*StrV)
		_ = st
		if cur == nil {
			cur = emptyStr
		}
		r.extra[fmt.Sprintf("sb%p", sl)] = r.concat(cur, s)
	}
	sbGet := func(r *Run, p Value) *StrV {
		sl := p.(*Value)
		if sl == nil {
			r.nilDeref()
		}
		cur, _ := r.extra[fmt.Sprintf("sb%p", sl)].(*StrV)
		if cur == nil {
			return emptyStr
		}
		return cur
	}
	reg("(*strings.Builder).WriteString", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		s := a[1].(*StrV)
		sbAppend(r, a[0], s)
		return TupleV{r.c.Int(int64(len(r.strBytes(s)))), IfaceV{}}
	})
	reg("(*strings.Builder).Write", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		s := r.sliceToStr(a[1].(SliceV)).(*StrV)
		sbAppend(r, a[0], s)
		return TupleV{r.c.Int(int64(len(s.b))), IfaceV{}}
	})
	reg("(*strings.Builder).WriteByte", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sbAppend(r, a[0], &StrV{b: []*Term{r.term(a[1])}})
		return IfaceV{}
	})
	reg("(*strings.Builder).WriteRune", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		b := r.runeBytes(r.c.Resize(r.term(a[1]), 64, true))
		sbAppend(r, a[0], &StrV{b: b})
		return TupleV{r.c.Int(int64(len(b))), IfaceV{}}
	})
	reg("(*strings.Builder).String", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { return sbGet(r, a[0]) })
	reg("(*strings.Builder).Len", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.c.Int(int64(len(r.strBytes(sbGet(r, a[0])))))
	})
	reg("(*strings.Builder).Grow", nop)
	reg("(*strings.Builder).Reset", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		delete(r.extra, fmt.Sprintf("sb%p", a[0].(*Value)))
		return nil
	})

	// sync
	for _, m := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+m+").Lock", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { r.lock(a[0], false); return nil })
		reg("(*sync."+m+").Unlock", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { r.unlock(a[0], false); return nil })
		reg("(*sync."+m+").TryLock", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			return r.c.Bool(r.tryLock(a[0], false))
		})
	}
	reg("(*sync.RWMutex).RLock", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { r.lock(a[0], true); return nil })
	reg("(*sync.RWMutex).RUnlock", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { r.unlock(a[0], true); return nil })
	reg("(*sync.RWMutex).TryRLock", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.c.Bool(r.tryLock(a[0], true))
	})
	reg("(*sync.Once).Do", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		r.onceDo(a[0], func() { r.callValue(caller, a[1], nil, 0) })
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		r.wgAdd(a[0], int(r.concretize(r.term(a[1]), "wg")))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { r.wgAdd(a[0], -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { r.wgWait(a[0]); return nil })
	reg("(*sync.WaitGroup).Go", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		r.wgAdd(a[0], 1)
		wg, f := a[0], a[1]
		r.spawn(&FuncV{nat: func(r *Run, _ []Value) Value {
			r.callValue(nil, f, nil, 0)
			r.wgAdd(wg, -1)
			return nil
		}}, nil, 0, fmt.Sprintf("g%d:wg.Go", len(r.gs)), caller != nil && caller.fn.Pkg != nil && r.P.isHarness(caller.fn.Pkg.Pkg.Path()))
		return nil
	})
	reg("(*sync.Pool).Get", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		s := *(a[0].(*Value))
		st := s.(StructV)
		if f, ok := st[len(st)-1].(*FuncV); ok && f != nil {
			// explore both: a recycled value if one was put back
			if v := r.poolTake(a[0].(*Value)); v != nil {
				return *v
			}
			return r.callValue(caller, f, nil, 0)
		}
		if v := r.poolTake(a[0].(*Value)); v != nil {
			return *v
		}
		return IfaceV{}
	})
	reg("(*sync.Pool).Put", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		k := fmt.Sprintf("pool%p", a[0].(*Value))
		l, _ := r.extra[k].([]Value)
		r.extra[k] = append(l, a[1])
		return nil
	})

	// sync/atomic functions
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+ty, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			r.atomic(a[0])
			return copyVal(*(a[0].(*Value)))
		})
		reg("sync/atomic.Store"+ty, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			r.atomic(a[0])
			*(a[0].(*Value)) = a[1]
			return nil
		})
		reg("sync/atomic.Swap"+ty, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			r.atomic(a[0])
			o := *(a[0].(*Value))
			*(a[0].(*Value)) = a[1]
			return o
		})
		reg("sync/atomic.Add"+ty, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			r.atomic(a[0])
			n := r.c.Bin(OAdd, r.term(*(a[0].(*Value))), r.term(a[1]))
			*(a[0].(*Value)) = n
			return n
		})
		reg("sync/atomic.And"+ty, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			r.atomic(a[0])
			o := r.term(*(a[0].(*Value)))
			*(a[0].(*Value)) = r.c.Bin(OBAnd, o, r.term(a[1]))
			return o
		})
		reg("sync/atomic.Or"+ty, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			r.atomic(a[0])
			o := r.term(*(a[0].(*Value)))
			*(a[0].(*Value)) = r.c.Bin(OBOr, o, r.term(a[1]))
			return o
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			r.atomic(a[0])
			p := a[0].(*Value)
			var eq *Term
			if t, ok := (*p).(*Term); ok {
				eq = r.c.Eq(t, r.term(a[1]))
			} else {
				eq = r.c.Bool(*p == a[1])
			}
			if r.branch(eq) {
				*p = a[2]
				return r.c.True
			}
			return r.c.False
		})
	}
	reg("(*sync/atomic.Value).Load", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		r.atomic(a[0])
		return (*(a[0].(*Value))).(StructV)[0]
	})
	reg("(*sync/atomic.Value).Store", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		r.atomic(a[0])
		(*(a[0].(*Value))).(StructV)[0] = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		r.atomic(a[0])
		o := (*(a[0].(*Value))).(StructV)[0]
		(*(a[0].(*Value))).(StructV)[0] = a[1]
		return o
	})

	// runtime
	for _, n := range []string{"runtime.Gosched"} {
		reg(n, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { r.yield(); return nil })
	}
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable"} {
		reg(n, nop)
	}
	reg("runtime.NumGoroutine", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, g := range r.gs {
			if !g.dead {
				n++
			}
		}
		return r.c.Int(int64(n))
	})

	registerTime(reg)
	registerNet(reg)
	registerVS()
}

func (r *Run) poolTake(p *Value) *Value {
	k := fmt.Sprintf("pool%p", p)
	l, _ := r.extra[k].([]Value)
	if len(l) == 0 {
		return nil
	}
	v := l[len(l)-1]
	r.extra[k] = l[:len(l)-1]
	return &v
}

// atomic is an access that synchronises.
func (r *Run) atomic(p Value) {
	s, ok := p.(*Value)
	if !ok {
		r.unsupported("atomic on %s", descr(p))
	}
	if s == nil {
		r.nilDeref()
	}
	r.visible("atomic")
	if r.raceOn {
		o := r.sync(s)
		r.joinVC(r.cur, o.vc)
		r.relVC(&o.vc)
		r.tick(r.cur)
	}
}

func (r *Run) appendBytes(d SliceV, b []*Term) SliceV {
	n := int(r.concretize(r.lenOf(d), "append"))
	out := make([]*Term, 0, n+len(b))
	for i := 0; i < n; i++ {
		out = append(out, r.term(r.at(d, i)))
	}
	return r.bytesSlice(append(out, b...))
}
