package main

// The SSA interpreter.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func runtimeStack(b []byte) int { return runtime.Stack(b, false) }

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.r.constVal(v)
	case *ssa.Global:
		return fr.r.global(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return v
	}
	x, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return x
}

func (r *Run) constVal(c *ssa.Const) Value {
	if v, ok := r.consts[c]; ok {
		return v
	}
	v := r.mkConst(c.Type(), c.Value)
	switch v.(type) {
	case *Term, *StrV, FloatV:
		r.consts[c] = v
	}
	return v
}

func (r *Run) mkConst(t types.Type, cv constant.Value) Value {
	if cv == nil {
		return r.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, ok := widthOf(u); ok {
			if w == 0 {
				return r.c.Bool(constant.BoolVal(cv))
			}
			x := constant.ToInt(cv)
			if i, ok := constant.Int64Val(x); ok {
				return r.c.Const(uint64(i), w)
			}
			i, _ := constant.Uint64Val(x)
			return r.c.Const(i, w)
		}
		switch {
		case u.Info()&types.IsString != 0:
			if cv.Kind() == constant.String {
				return r.mkStr(constant.StringVal(cv))
			}
			i, _ := constant.Int64Val(cv)
			return r.mkStr(string(rune(i)))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(cv)
			return FloatV(f)
		}
	}
	return &Poison{"constant of type " + t.String()}
}

// callFn interprets fn.
func (r *Run) callFn(caller *frame, fn *ssa.Function, args []Value, pos token.Pos) Value {
	return r.callFnEnv(caller, fn, args, nil, pos)
}

func (r *Run) callFnEnv(caller *frame, fn *ssa.Function, args []Value, env []Value, pos token.Pos) Value {
	if in := r.P.intrinsic(fn); in != nil {
		return in(r, caller, fn, args)
	}
	return r.interpret(fn, args, env)
}

func (r *Run) interpret(fn *ssa.Function, args []Value, env []Value) Value {
	if fn.Blocks == nil {
		r.unsupported("function without a body: %s", fn)
	}
	if r.P.blocked(fn) {
		r.unsupported("call of %s", fn)
	}
	r.w.funcs[fn]++
	fr := &frame{r: r, g: r.cur, caller: r.cur.fr, fn: fn, env: make(map[ssa.Value]Value, 16)}
	if fr.caller != nil {
		fr.depth = fr.caller.depth + 1
		if fr.depth > 400 {
			panic(pathEnd{kind: endLimit, msg: "call depth bound in " + fn.String() + r.where()})
		}
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		v := new(Value)
		*v = r.zero(l.Type().Underlying().(*types.Pointer).Elem())
		fr.env[l] = v
	}
	fr.block = fn.Blocks[0]
	g := r.cur
	saved := g.fr
	g.fr = fr
	for fr.block != nil {
		r.runFrame(fr)
	}
	g.fr = saved
	return fr.result
}

func (r *Run) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		x := recover()
		p, ok := x.(*goPanic)
		if !ok {
			if x == nil {
				return
			}
			if _, isEnd := x.(pathEnd); !isEnd {
				// an error of the engine itself: keep the native stack
				if _, wrapped := x.(engErr); !wrapped {
					buf := make([]byte, 6000)
					n := runtime.Stack(buf, false)
					x = engErr{fmt.Sprintf("%v%s\n%s", x, r.where(), buf[:n])}
				}
			}
			panic(x)
		}
		fr.g.fr = fr
		fr.panicking = true
		fr.panic = p
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered without named results
			fr.result = r.zeroResult(fr.fn)
		}
	}()
	for {
		blk := fr.block
		np := 0
		for np < len(blk.Instrs) {
			if _, ok := blk.Instrs[np].(*ssa.Phi); !ok {
				break
			}
			np++
		}
		if np > 0 { // phis are evaluated in parallel
			e := 0
			for i, p := range blk.Preds {
				if p == fr.prev {
					e = i
					break
				}
			}
			vals := make([]Value, np)
			for i := range vals {
				vals[i] = fr.get(blk.Instrs[i].(*ssa.Phi).Edges[e])
			}
			for i := range vals {
				fr.env[blk.Instrs[i].(*ssa.Phi)] = vals[i]
			}
		}
	instrs:
		for _, in := range blk.Instrs[np:] {
			r.steps++
			if r.steps&0xffff == 0 {
				r.checkTime()
			}
			if r.steps > r.maxSteps {
				panic(pathEnd{kind: endLimit, msg: "step bound" + r.where()})
			}
			switch r.visit(fr, in) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				break instrs
			}
		}
		if fr.block == nil {
			return
		}
	}
}

type engErr struct{ s string }

func (e engErr) String() string { return e.s }

func (r *Run) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return r.zero(res.At(0).Type())
	}
	return r.zero(res)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			x := recover()
			p, isP := x.(*goPanic)
			if !isP {
				panic(x)
			}
			fr.g.fr = fr
			fr.panicking = true
			fr.panic = p
		}
	}()
	fr.r.callValue(fr, d.fn, d.args, d.pos)
	ok = true
}

type kont int

const (
	kNext kont = iota
	kReturn
	kJump
)

func (r *Run) nilDeref() {
	r.throw("invalid memory address or nil pointer dereference")
}

// load reads through a pointer.
func (r *Run) load(p Value, fr *frame) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			r.nilDeref()
		}
		if r.raceOn {
			r.accessDeep(p, false, fr)
		}
		return copyVal(*p)
	case *SymPtr:
		if r.raceOn {
			r.access(&p.back[0], false, fr)
		}
		return copyVal(r.readIdx(p.back, p.idx))
	}
	r.unsupported("load through %s", descr(p))
	return nil
}

func (r *Run) store(p Value, v Value, fr *frame) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			r.nilDeref()
		}
		if r.raceOn {
			r.accessDeep(p, true, fr)
		}
		storeSlot(p, v)
		return
	case *SymPtr:
		if r.raceOn {
			r.access(&p.back[0], true, fr)
		}
		r.writeIdx(p.back, p.idx, v)
		return
	}
	r.unsupported("store through %s", descr(p))
}

func (r *Run) accessDeep(p *Value, write bool, fr *frame) {
	switch v := (*p).(type) {
	case StructV:
		for i := range v {
			r.accessDeep(&v[i], write, fr)
		}
	case ArrayV:
		if len(v) > 0 {
			r.access(&v[0], write, fr)
			if len(v) > 1 {
				r.access(&v[len(v)-1], write, fr)
			}
		}
	default:
		r.access(p, write, fr)
	}
}

func (r *Run) visit(fr *frame, instr ssa.Instruction) kont {
	if p := instr.Pos(); p.IsValid() {
		fr.pos = p
	}
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.env[in] = r.unop(fr, in)
	case *ssa.BinOp:
		fr.env[in] = r.binop(fr, in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y))
	case *ssa.Call:
		if fr.bestEff {
			fr.env[in] = r.callBestEffort(fr, in)
			break
		}
		fn, args := r.prepCall(fr, &in.Call)
		fr.env[in] = r.callValue(fr, fn, args, in.Pos())
	case *ssa.ChangeInterface:
		fr.env[in] = fr.get(in.X)
	case *ssa.ChangeType:
		fr.env[in] = fr.get(in.X)
	case *ssa.Convert:
		fr.env[in] = r.convert(in.X.Type(), in.Type(), fr.get(in.X))
	case *ssa.MultiConvert:
		fr.env[in] = r.convert(in.X.Type(), in.Type(), fr.get(in.X))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(SliceV)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		r.require(r.c.Sle(r.c.Int(n), r.lenOf(s)), "cannot convert slice to array pointer: too short")
		if s.back == nil {
			fr.env[in] = (*Value)(nil)
			break
		}
		off := r.concretize(s.off, "offset")
		v := new(Value)
		*v = ArrayV(s.back[off : off+n])
		fr.env[in] = v
	case *ssa.MakeInterface:
		fr.env[in] = IfaceV{in.X.Type(), fr.get(in.X)}
	case *ssa.Extract:
		t := fr.get(in.Tuple)
		if p, ok := t.(*Poison); ok {
			fr.env[in] = p
			break
		}
		fr.env[in] = t.(TupleV)[in.Index]
	case *ssa.Slice:
		fr.env[in] = r.sliceOp(fr, in)
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			t := make(TupleV, len(in.Results))
			for i, x := range in.Results {
				t[i] = fr.get(x)
			}
			fr.result = t
		}
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(in.X)
		panic(&goPanic{v: v, where: r.where()})
	case *ssa.Send:
		r.chanSend(fr.get(in.Chan), fr.get(in.X))
	case *ssa.Store:
		v := fr.get(in.Val)
		a := fr.get(in.Addr)
		if p, ok := a.(*Poison); ok && fr.bestEff {
			_ = p
			break
		}
		r.store(a, v, fr)
	case *ssa.If:
		c := fr.get(in.Cond)
		if p, ok := c.(*Poison); ok {
			if fr.bestEff {
				fr.prev, fr.block = fr.block, fr.block.Succs[1]
				return kJump
			}
			r.unsupported("branch on %v", p)
		}
		s := 1
		if r.branch(r.term(c)) {
			s = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[s]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := r.prepCall(fr, &in.Call)
		fr.defers = append(fr.defers, &deferred{fn, args, in.Pos()})
	case *ssa.Go:
		fn, args := r.prepCall(fr, &in.Call)
		name := fmt.Sprintf("g%d", len(r.gs))
		if f, ok := fn.(*FuncV); ok && f != nil && f.fn != nil {
			name += ":" + f.fn.String()
		}
		r.spawn(fn, args, in.Pos(), name, fr.fn.Pkg != nil && r.P.isHarness(fr.fn.Pkg.Pkg.Path()))
	case *ssa.MakeChan:
		n := r.concretize(r.term(fr.get(in.Size)), "chan size")
		if n < 0 {
			r.throwPlain("makechan: size out of range")
		}
		fr.env[in] = &ChanV{cap: int(n), zero: r.zero(in.Type().Underlying().(*types.Chan).Elem())}
	case *ssa.Alloc:
		v := new(Value)
		*v = r.zero(in.Type().Underlying().(*types.Pointer).Elem())
		if in.Heap {
			fr.env[in] = v
		} else {
			// reset the local
			p := fr.env[in].(*Value)
			*p = *v
		}
	case *ssa.MakeSlice:
		fr.env[in] = r.makeSlice(in.Type(), r.toInt(fr.get(in.Len), in.Len.Type()), r.toInt(fr.get(in.Cap), in.Cap.Type()))
	case *ssa.MakeMap:
		fr.env[in] = &MapV{kt: in.Type().Underlying().(*types.Map).Key()}
	case *ssa.Range:
		x := fr.get(in.X)
		switch x := x.(type) {
		case *MapV:
			it := &IterV{m: x}
			if x != nil {
				if r.raceOn {
					r.access(x, false, fr)
				}
				for _, e := range x.ents {
					if !e.dead {
						it.ents = append(it.ents, e)
					}
				}
			}
			fr.env[in] = it
		case *StrV:
			fr.env[in] = &IterV{s: x}
		default:
			r.unsupported("range over %s", descr(x))
		}
	case *ssa.Next:
		fr.env[in] = r.nextIter(in, fr.get(in.Iter).(*IterV))
	case *ssa.FieldAddr:
		p := fr.get(in.X)
		switch p := p.(type) {
		case *Value:
			if p == nil {
				r.nilDeref()
			}
			s, ok := (*p).(StructV)
			if !ok {
				r.unsupported("field of %s", descr(*p))
			}
			fr.env[in] = &s[in.Field]
		case *SymPtr:
			k := r.concretize(p.idx, "index")
			s := p.back[k].(StructV)
			fr.env[in] = &s[in.Field]
		default:
			r.unsupported("field address of %s", descr(p))
		}
	case *ssa.Field:
		s, ok := fr.get(in.X).(StructV)
		if !ok {
			r.unsupported("field of %s", descr(fr.get(in.X)))
		}
		fr.env[in] = s[in.Field]
	case *ssa.IndexAddr:
		fr.env[in] = r.indexAddr(fr, in)
	case *ssa.Index:
		x := fr.get(in.X)
		i := r.toInt(fr.get(in.Index), in.Index.Type())
		switch x := x.(type) {
		case ArrayV:
			r.checkIndex(i, r.c.Int(int64(len(x))))
			fr.env[in] = copyVal(r.readIdx(x, i))
		case *StrV:
			fr.env[in] = r.strIndex(x, i)
		default:
			r.unsupported("index of %s", descr(x))
		}
	case *ssa.Lookup:
		x := fr.get(in.X)
		switch x := x.(type) {
		case *MapV:
			if r.raceOn && x != nil {
				r.access(x, false, fr)
			}
			e := r.mapFind(x, fr.get(in.Index))
			vt := in.X.Type().Underlying().(*types.Map).Elem()
			var v Value
			if e != nil {
				v = copyVal(*e.slot)
			} else {
				v = r.zero(vt)
			}
			if in.CommaOk {
				fr.env[in] = TupleV{v, r.c.Bool(e != nil)}
			} else {
				fr.env[in] = v
			}
		case *StrV:
			fr.env[in] = r.strIndex(x, r.toInt(fr.get(in.Index), in.Index.Type()))
		default:
			r.unsupported("lookup in %s", descr(x))
		}
	case *ssa.MapUpdate:
		m, ok := fr.get(in.Map).(*MapV)
		if !ok {
			if fr.bestEff {
				break
			}
			r.unsupported("map update of %s", descr(fr.get(in.Map)))
		}
		if m == nil {
			r.throwPlain("assignment to entry in nil map")
		}
		if r.raceOn {
			r.access(m, true, fr)
		}
		r.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.env[in] = r.typeAssert(in, fr.get(in.X))
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.env[in] = &FuncV{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.Phi: // handled at block entry
	case *ssa.Select:
		fr.env[in] = r.doSelect(fr, in)
	default:
		r.unsupported("instruction %T", instr)
	}
	return kNext
}

func (r *Run) callBestEffort(fr *frame, in *ssa.Call) (res Value) {
	// package initialisation: other packages are initialised on demand
	if f, ok := in.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != fr.fn.Pkg {
		return nil
	}
	saved := fr.g.fr
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case pathEnd:
				if e.kind != endUnsupported {
					panic(x)
				}
				fr.g.fr = saved
				res = &Poison{e.msg}
			case *goPanic:
				fr.g.fr = saved
				res = &Poison{"panic in initialisation: " + r.panicText(e)}
			case engErr:
				fr.g.fr = saved
				res = &Poison{"engine: " + e.s}
			default:
				panic(x)
			}
		}
	}()
	fn, args := r.prepCall(fr, &in.Call)
	for _, a := range args {
		if p, ok := a.(*Poison); ok {
			return p
		}
	}
	return r.callValue(fr, fn, args, in.Pos())
}

func (r *Run) prepCall(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	v := fr.get(c.Value)
	args := make([]Value, 0, len(c.Args)+1)
	var fn Value
	if c.Method == nil {
		fn = v
	} else {
		iv, ok := v.(IfaceV)
		if !ok {
			r.unsupported("method call on %s", descr(v))
		}
		if iv.t == nil {
			r.nilDeref()
		}
		f := r.P.lookupMethod(iv.t, c.Method)
		if f == nil {
			r.unsupported("method %s of %s not found", c.Method.Name(), iv.t)
		}
		fn = &FuncV{fn: f}
		args = append(args, iv.v)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

func (r *Run) callValue(fr *frame, fn Value, args []Value, pos token.Pos) Value {
	switch f := fn.(type) {
	case *FuncV:
		if f == nil {
			r.nilDeref()
		}
		if f.nat != nil {
			return f.nat(r, args)
		}
		return r.callFnEnv(fr, f.fn, args, f.env, pos)
	case *ssa.Builtin:
		return r.builtin(fr, f, args)
	}
	r.unsupported("call of %s", descr(fn))
	return nil
}

// invoke calls a method through an interface value.
func (r *Run) invoke(iv IfaceV, name string, args ...Value) Value {
	if iv.t == nil {
		r.nilDeref()
	}
	f := r.P.lookupMethodName(iv.t, name)
	if f == nil {
		r.unsupported("no method %s on %s", name, iv.t)
	}
	return r.callFn(nil, f, append([]Value{iv.v}, args...), token.NoPos)
}

// toInt converts an integer value to a 64-bit term (index or length).
func (r *Run) toInt(v Value, t types.Type) *Term {
	x := r.term(v)
	return r.c.Resize(x, 64, isSigned(t))
}

func (r *Run) checkIndex(i, n *Term) {
	// unsigned comparison also rejects negative indices
	r.require(r.c.Ult(i, n), "index out of range")
}

func (r *Run) strIndex(s *StrV, i *Term) Value {
	b := r.strBytes(s)
	r.checkIndex(i, r.c.Int(int64(len(b))))
	if i.IsConst() {
		return b[i.val]
	}
	vs := make([]Value, len(b))
	for k := range b {
		vs[k] = b[k]
	}
	return r.readIdx(vs, i)
}

func (r *Run) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := fr.get(in.X)
	i := r.toInt(fr.get(in.Index), in.Index.Type())
	switch x := x.(type) {
	case SliceV:
		r.checkIndex(i, r.lenOf(x))
		a := r.c.Bin(OAdd, x.off, i)
		if a.IsConst() {
			return &x.back[a.val]
		}
		return r.symPtr(x.back, a)
	case *Value:
		if x == nil {
			r.nilDeref()
		}
		arr, ok := (*x).(ArrayV)
		if !ok {
			r.unsupported("index of %s", descr(*x))
		}
		r.checkIndex(i, r.c.Int(int64(len(arr))))
		if i.IsConst() {
			return &arr[i.val]
		}
		return r.symPtr(arr, i)
	}
	r.unsupported("index address of %s", descr(x))
	return nil
}

func (r *Run) symPtr(back []Value, idx *Term) Value {
	if len(back) > 0 {
		if _, ok := back[0].(*Term); ok {
			return &SymPtr{back, idx}
		}
	}
	k := r.concretize(idx, "index")
	return &back[k]
}

func (r *Run) makeSlice(t types.Type, n, c *Term) Value {
	lim := r.c.Int(1 << 40)
	r.require(r.c.Ule(n, lim), "makeslice: len out of range")
	r.require(r.c.And(r.c.Ule(c, lim), r.c.Ule(n, c)), "makeslice: cap out of range")
	et := t.Underlying().(*types.Slice).Elem()
	m := r.c.umax(c)
	if m > uint64(r.w.X.MaxAlloc) {
		m = uint64(r.concretize(c, "make size"))
		c = r.c.Const(m, 64)
		if m > uint64(r.w.X.MaxAlloc) {
			panic(pathEnd{kind: endLimit, msg: fmt.Sprintf("allocation of %d elements", m)})
		}
	}
	back := make([]Value, m)
	z := r.zero(et)
	for i := range back {
		switch z.(type) {
		case StructV, ArrayV:
			back[i] = copyVal(z)
		default:
			back[i] = z
		}
	}
	return SliceV{back: back, off: r.c.Int(0), ln: n, cp: c}
}

func (r *Run) sliceOp(fr *frame, in *ssa.Slice) Value {
	x := fr.get(in.X)
	var lo, hi, max *Term
	if in.Low != nil {
		lo = r.toInt(fr.get(in.Low), in.Low.Type())
	} else {
		lo = r.c.Int(0)
	}
	if in.High != nil {
		hi = r.toInt(fr.get(in.High), in.High.Type())
	}
	if in.Max != nil {
		max = r.toInt(fr.get(in.Max), in.Max.Type())
	}
	c := r.c
	switch x := x.(type) {
	case *StrV:
		b := r.strBytes(x)
		n := c.Int(int64(len(b)))
		if hi == nil {
			hi = n
		}
		r.require(c.Ule(hi, n), "slice bounds out of range")
		r.require(c.Ule(lo, hi), "slice bounds out of range")
		l, h := r.concretize(lo, "lo"), r.concretize(hi, "hi")
		return &StrV{b: b[l:h:h]}
	case SliceV:
		return r.reslice(x, lo, hi, max)
	case *Value:
		if x == nil {
			r.nilDeref()
		}
		a, ok := (*x).(ArrayV)
		if !ok {
			r.unsupported("slice of %s", descr(*x))
		}
		n := c.Int(int64(len(a)))
		return r.reslice(SliceV{back: a, off: c.Int(0), ln: n, cp: n}, lo, hi, max)
	}
	r.unsupported("slice of %s", descr(x))
	return nil
}

func (r *Run) reslice(x SliceV, lo, hi, max *Term) Value {
	c := r.c
	if hi == nil {
		hi = r.lenOf(x)
	}
	cp := r.capOf(x)
	if max == nil {
		max = cp
	} else {
		r.require(c.Ule(max, cp), "slice bounds out of range")
	}
	r.require(c.Ule(hi, max), "slice bounds out of range")
	r.require(c.Ule(lo, hi), "slice bounds out of range")
	if x.back == nil {
		return x
	}
	return SliceV{back: x.back, off: c.Bin(OAdd, x.off, lo), ln: c.Bin(OSub, hi, lo), cp: c.Bin(OSub, max, lo)}
}

func (r *Run) unop(fr *frame, in *ssa.UnOp) Value {
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		if p, ok := x.(*Poison); ok && fr.bestEff {
			return p
		}
		return r.load(x, fr)
	case token.ARROW:
		v, ok := r.chanRecv(x)
		if in.CommaOk {
			return TupleV{v, r.c.Bool(ok)}
		}
		return v
	case token.NOT:
		return r.c.Not(r.term(x))
	case token.SUB:
		if f, ok := x.(FloatV); ok {
			return -f
		}
		return r.c.Neg(r.term(x))
	case token.XOR:
		return r.c.BNot(r.term(x))
	}
	r.unsupported("unary %s", in.Op)
	return nil
}

func (r *Run) binop(fr *frame, op token.Token, tx, ty types.Type, x, y Value) Value {
	c := r.c
	if p, ok := x.(*Poison); ok {
		if fr.bestEff {
			return p
		}
		r.unsupported("operand %v", p)
	}
	if p, ok := y.(*Poison); ok {
		if fr.bestEff {
			return p
		}
		r.unsupported("operand %v", p)
	}
	switch op {
	case token.EQL:
		return r.eqGeneric(tx, ty, x, y)
	case token.NEQ:
		return c.Not(r.eqGeneric(tx, ty, x, y))
	}
	switch a := x.(type) {
	case *StrV:
		b := y.(*StrV)
		switch op {
		case token.ADD:
			return r.concat(a, b)
		case token.LSS:
			return r.strLess(a, b, false)
		case token.LEQ:
			return r.strLess(a, b, true)
		case token.GTR:
			return r.strLess(b, a, false)
		case token.GEQ:
			return r.strLess(b, a, true)
		}
	case FloatV:
		b := y.(FloatV)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	case *Term:
		signed := isSigned(tx)
		if op == token.SHL || op == token.SHR {
			n := r.term(y)
			if isSigned(ty) {
				r.require(c.Sle(c.Const(0, n.w), n), "negative shift amount")
			}
			return r.shift(op, a, n, signed)
		}
		b := r.term(y)
		switch op {
		case token.ADD:
			return c.Bin(OAdd, a, b)
		case token.SUB:
			return c.Bin(OSub, a, b)
		case token.MUL:
			return c.Bin(OMul, a, b)
		case token.QUO, token.REM:
			r.require(c.Not(c.Eq(b, c.Const(0, b.w))), "integer divide by zero")
			o := OUDiv
			if op == token.REM {
				o = OURem
			}
			if signed {
				o = OSDiv
				if op == token.REM {
					o = OSRem
				}
			}
			return c.Bin(o, a, b)
		case token.AND:
			if a.w == 0 {
				return c.And(a, b)
			}
			return c.Bin(OBAnd, a, b)
		case token.OR:
			if a.w == 0 {
				return c.Or(a, b)
			}
			return c.Bin(OBOr, a, b)
		case token.XOR:
			return c.Bin(OBXor, a, b)
		case token.AND_NOT:
			return c.Bin(OBAnd, a, c.BNot(b))
		case token.LSS:
			if signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	}
	r.unsupported("binary %s on %s", op, descr(x))
	return nil
}

func (r *Run) shift(op token.Token, a, n *Term, signed bool) *Term {
	c := r.c
	w := a.w
	var big *Term // n >= w
	if uint64(w) > mask(n.w) {
		big = c.False
	} else {
		big = c.Ule(c.Const(uint64(w), n.w), n)
	}
	cnt := c.Resize(n, w, false)
	if n.w > w && !n.IsConst() {
		cnt = c.Extract(n, w-1, 0)
	}
	switch {
	case op == token.SHL:
		return c.Ite(big, c.Const(0, w), c.Bin(OShl, a, cnt))
	case signed:
		return c.Ite(big, c.Bin(OAshr, a, c.Const(uint64(w-1), w)), c.Bin(OAshr, a, cnt))
	default:
		return c.Ite(big, c.Const(0, w), c.Bin(OLshr, a, cnt))
	}
}

func (r *Run) concat(a, b *StrV) *StrV {
	if a.lazy != nil || b.lazy != nil {
		return &StrV{lazy: func(r *Run) []*Term {
			x, y := r.strBytes(a), r.strBytes(b)
			return append(append(make([]*Term, 0, len(x)+len(y)), x...), y...)
		}}
	}
	return &StrV{b: append(append(make([]*Term, 0, len(a.b)+len(b.b)), a.b...), b.b...)}
}

func (r *Run) strLess(a, b *StrV, orEq bool) *Term {
	x, y := r.strBytes(a), r.strBytes(b)
	c := r.c
	n := min(len(x), len(y))
	var res *Term
	if len(x) < len(y) {
		res = c.True
	} else if len(x) == len(y) {
		res = c.Bool(orEq)
	} else {
		res = c.False
	}
	for i := n - 1; i >= 0; i-- {
		res = c.Ite(c.Ult(x[i], y[i]), c.True, c.Ite(c.Ult(y[i], x[i]), c.False, res))
	}
	return res
}

func (r *Run) eqGeneric(tx, ty types.Type, x, y Value) *Term {
	_, xi := tx.Underlying().(*types.Interface)
	_, yi := ty.Underlying().(*types.Interface)
	if xi && !yi {
		y = IfaceV{ty, y}
		if b, ok := ty.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			y = IfaceV{}
		}
	} else if yi && !xi {
		x = IfaceV{tx, x}
		if b, ok := tx.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			x = IfaceV{}
		}
		tx = ty
	}
	if xi || yi {
		// comparing uncomparable dynamic types panics
		a, b := x.(IfaceV), y.(IfaceV)
		if a.t != nil && b.t != nil && types.Identical(a.t, b.t) && !types.Comparable(a.t) {
			r.throw("comparing uncomparable type %s", a.t)
		}
	}
	return r.eqVals(tx, x, y)
}

func (r *Run) convert(from, to types.Type, v Value) Value {
	if p, ok := v.(*Poison); ok {
		return p
	}
	uf, ut := from.Underlying(), to.Underlying()
	switch t := ut.(type) {
	case *types.Basic:
		if w, ok := widthOf(t); ok && w > 0 {
			switch x := v.(type) {
			case *Term:
				return r.c.Resize(x, w, isSigned(from))
			case FloatV:
				if t.Info()&types.IsUnsigned != 0 {
					return r.c.Const(uint64(x), w)
				}
				return r.c.Const(uint64(int64(x)), w)
			case *Value:
				return &Poison{"uintptr of a pointer"}
			}
		}
		switch {
		case t.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case FloatV:
				if t.Kind() == types.Float32 {
					return FloatV(float32(x))
				}
				return x
			case *Term:
				k := r.concretize(x, "float conversion")
				if !isSigned(from) {
					return FloatV(float64(uint64(k) & mask(x.w)))
				}
				return FloatV(float64(k))
			}
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case *StrV:
				return x
			case SliceV:
				es, ok := uf.(*types.Slice)
				if ok {
					if b, ok := es.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
						return r.sliceToStr(x)
					}
					// []rune
					n := r.concretize(r.lenOf(x), "len")
					out := []*Term{}
					for i := 0; i < int(n); i++ {
						out = append(out, r.runeBytes(r.term(r.at(x, i)))...)
					}
					return &StrV{b: out}
				}
			case *Term:
				return &StrV{b: r.runeBytes(r.c.Resize(x, 64, isSigned(from)))}
			}
		case t.Kind() == types.UnsafePointer:
			return v
		}
	case *types.Slice:
		if s, ok := v.(*StrV); ok {
			b := r.strBytes(s)
			if e, ok := t.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				sl := r.bytesSlice(b)
				if sl.back == nil {
					sl.back = []Value{}
				}
				return sl
			}
			// []rune
			it := &IterV{s: s}
			var rs []Value
			for {
				_, ru, ok := r.nextRune(it)
				if !ok {
					break
				}
				rs = append(rs, ru)
			}
			n := r.c.Int(int64(len(rs)))
			if rs == nil {
				rs = []Value{}
			}
			return SliceV{back: rs, off: r.c.Int(0), ln: n, cp: n}
		}
		return v
	case *types.Pointer:
		return v
	case *types.Array:
		if s, ok := v.(SliceV); ok {
			n := int(t.Len())
			r.require(r.c.Sle(r.c.Int(int64(n)), r.lenOf(s)), "cannot convert slice to array: too short")
			a := make(ArrayV, n)
			for i := range a {
				a[i] = copyVal(r.at(s, i))
			}
			return a
		}
	default:
		return v
	}
	r.unsupported("conversion %s -> %s of %s", from, to, descr(v))
	return nil
}

func (r *Run) sliceToStr(x SliceV) Value {
	n := int(r.concretize(r.lenOf(x), "string length"))
	b := make([]*Term, n)
	for i := range b {
		b[i] = r.term(r.at(x, i))
	}
	return &StrV{b: b}
}

// runeBytes is the UTF-8 encoding of an integer converted to string.
func (r *Run) runeBytes(x *Term) []*Term {
	c := r.c
	if x.w != 64 {
		x = c.Resize(x, 64, true)
	}
	b := func(hi, lo uint8, or uint64) *Term {
		e := c.Zext(c.Extract(x, hi, lo), 8)
		return c.Bin(OBOr, e, c.Const(or, 8))
	}
	if r.branch(c.Ult(x, c.Int(0x80))) {
		return []*Term{c.Extract(x, 7, 0)}
	}
	if r.branch(c.Ult(x, c.Int(0x800))) {
		return []*Term{b(10, 6, 0xc0), b(5, 0, 0x80)}
	}
	bad := []*Term{c.Const(0xef, 8), c.Const(0xbf, 8), c.Const(0xbd, 8)}
	if r.branch(c.Or(c.Ult(c.Int(0x10ffff), x), c.And(c.Ule(c.Int(0xd800), x), c.Ult(x, c.Int(0xe000))))) {
		return bad
	}
	if r.branch(c.Ult(x, c.Int(0x10000))) {
		return []*Term{b(15, 12, 0xe0), b(11, 6, 0x80), b(5, 0, 0x80)}
	}
	return []*Term{b(20, 18, 0xf0), b(17, 12, 0x80), b(11, 6, 0x80), b(5, 0, 0x80)}
}

// nextRune decodes the next rune of a string iterator.
func (r *Run) nextRune(it *IterV) (int, Value, bool) {
	b := r.strBytes(it.s)
	if it.i >= len(b) {
		return 0, nil, false
	}
	i := it.i
	c := r.c
	b0 := b[i]
	if r.branch(c.Ult(b0, c.Const(0x80, 8))) {
		it.i++
		return i, c.Zext(b0, 32), true
	}
	// multi-byte: concretise the lead and continuation bytes
	n := len(b) - i
	if n > 4 {
		n = 4
	}
	buf := make([]byte, n)
	for k := 0; k < n; k++ {
		buf[k] = byte(r.concretize(b[i+k], "utf8"))
	}
	for k, ru := range string(buf) {
		_ = k
		sz := len(string(ru))
		if ru == 0xfffd {
			sz = 1
			if n >= 3 && buf[0] == 0xef && buf[1] == 0xbf && buf[2] == 0xbd {
				sz = 3
			}
		}
		it.i += sz
		return i, c.Const(uint64(ru), 32), true
	}
	return 0, nil, false
}

func (r *Run) nextIter(in *ssa.Next, it *IterV) Value {
	c := r.c
	if in.IsString {
		i, ru, ok := r.nextRune(it)
		if !ok {
			return TupleV{c.False, c.Int(0), c.Const(0, 32)}
		}
		return TupleV{c.True, c.Int(int64(i)), ru}
	}
	// drop deleted entries
	var rem []*mapEnt
	for _, e := range it.ents {
		if !e.dead {
			rem = append(rem, e)
		}
	}
	it.ents = rem
	if len(rem) == 0 {
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		return TupleV{c.False, r.zero(mt.Key()), r.zero(mt.Elem())}
	}
	k := 0
	if len(rem) > 1 {
		if n, _ := r.extra["maporder"].(int); n > 0 && len(rem) <= 4 {
			r.extra["maporder"] = n - 1
			k = r.choose(len(rem), "map order")
			r.schedDep = true
		}
	}
	e := rem[k]
	it.ents = append(append([]*mapEnt{}, rem[:k]...), rem[k+1:]...)
	return TupleV{c.True, copyVal(e.k), copyVal(*e.slot)}
}

// ---- maps ----

func (r *Run) mapFind(m *MapV, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	r.checkHashable(m.kt, k)
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if r.branch(r.eqVals(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (r *Run) checkHashable(t types.Type, k Value) {
	if iv, ok := k.(IfaceV); ok && iv.t != nil && !types.Comparable(iv.t) {
		r.throw("hash of unhashable type %s", iv.t)
	}
}

func (r *Run) mapSet(m *MapV, k, v Value) {
	if e := r.mapFind(m, k); e != nil {
		storeSlotFresh(e, v)
		return
	}
	s := new(Value)
	*s = copyVal(v)
	m.ents = append(m.ents, &mapEnt{k: copyVal(k), slot: s})
	m.live++
}

func storeSlotFresh(e *mapEnt, v Value) {
	s := new(Value)
	*s = copyVal(v)
	e.slot = s
}

func (r *Run) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	if e := r.mapFind(m, k); e != nil {
		e.dead = true
		m.live--
		var n []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				n = append(n, x)
			}
		}
		m.ents = n
	}
}

func (r *Run) typeAssert(in *ssa.TypeAssert, x Value) Value {
	iv, ok := x.(IfaceV)
	if !ok {
		r.unsupported("type assertion on %s", descr(x))
	}
	var res Value
	good := false
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if iv.t != nil && r.P.implements(iv.t, it) {
			good = true
			res = iv
		}
	} else if iv.t != nil && types.Identical(iv.t, in.AssertedType) {
		good = true
		res = copyVal(iv.v)
	}
	if in.CommaOk {
		if !good {
			res = r.zero(in.AssertedType)
		}
		return TupleV{res, r.c.Bool(good)}
	}
	if !good {
		r.throwPlain(fmt.Sprintf("interface conversion: interface is %v, not %v", iv.t, in.AssertedType))
	}
	return res
}

func (r *Run) doSelect(fr *frame, in *ssa.Select) Value {
	cases := make([]selCase, len(in.States))
	for i, st := range in.States {
		cv := fr.get(st.Chan)
		ch, ok := cv.(*ChanV)
		if !ok {
			r.unsupported("select on %s", descr(cv))
		}
		cases[i] = selCase{send: st.Dir == types.SendOnly, c: ch}
		if cases[i].send {
			cases[i].v = fr.get(st.Send)
		}
	}
	k, v, ok := r.selectOp(cases, in.Blocking)
	res := TupleV{r.c.Int(int64(k)), r.c.Bool(ok)}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			if i == k {
				res = append(res, v)
			} else {
				res = append(res, r.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}

// ---- builtins ----

func (r *Run) builtin(fr *frame, b *ssa.Builtin, args []Value) Value {
	c := r.c
	for _, a := range args {
		if p, ok := a.(*Poison); ok {
			if fr.bestEff {
				return p
			}
			r.unsupported("builtin %s on %v", b.Name(), p)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *StrV:
			return c.Int(int64(len(r.strBytes(x))))
		case SliceV:
			return r.lenOf(x)
		case ArrayV:
			return c.Int(int64(len(x)))
		case *MapV:
			if x == nil {
				return c.Int(0)
			}
			if r.raceOn {
				r.access(x, false, fr)
			}
			return c.Int(int64(x.live))
		case *ChanV:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(len(x.buf)))
		case *Value:
			return c.Int(int64(len((*x).(ArrayV))))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return r.capOf(x)
		case ArrayV:
			return c.Int(int64(len(x)))
		case *ChanV:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(x.cap))
		case *Value:
			return c.Int(int64(len((*x).(ArrayV))))
		}
	case "append":
		return r.appendOp(fr, b, args)
	case "copy":
		return r.copyOp(fr, args[0], args[1])
	case "delete":
		m := args[0].(*MapV)
		if r.raceOn && m != nil {
			r.access(m, true, fr)
		}
		r.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.live = nil, 0
			}
			return nil
		case SliceV:
			n := int(r.concretize(r.lenOf(x), "clear"))
			if n > 0 {
				et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := 0; i < n; i++ {
					r.writeIdx(x.back, c.Bin(OAdd, x.off, c.Int(int64(i))), r.zero(et))
				}
			}
			return nil
		}
	case "close":
		r.chanClose(args[0])
		return nil
	case "panic":
		panic(&goPanic{v: args[0], where: r.where()})
	case "recover":
		return r.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		res := args[0]
		for _, a := range args[1:] {
			switch x := a.(type) {
			case *Term:
				sg := isSigned(b.Type().(*types.Signature).Params().At(0).Type())
				y := res.(*Term)
				var lt *Term
				if sg {
					lt = c.Slt(x, y)
				} else {
					lt = c.Ult(x, y)
				}
				if b.Name() == "max" {
					if sg {
						lt = c.Slt(y, x)
					} else {
						lt = c.Ult(y, x)
					}
				}
				res = c.Ite(lt, x, y)
			case FloatV:
				if b.Name() == "min" {
					res = FloatV(math.Min(float64(x), float64(res.(FloatV))))
				} else {
					res = FloatV(math.Max(float64(x), float64(res.(FloatV))))
				}
			default:
				r.unsupported("min/max of %s", descr(a))
			}
		}
		return res
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			r.throwPlain("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String(ptr, len)
		p, n := args[0], r.concretize(r.term(args[1]), "unsafe.String")
		if n == 0 {
			return emptyStr
		}
		if sp, ok := p.(*bytePtr); ok {
			return r.sliceToStr(SliceV{back: sp.s.back, off: sp.s.off, ln: c.Int(n), cp: sp.s.cp})
		}
	case "StringData", "SliceData":
		if s, ok := args[0].(SliceV); ok {
			return &bytePtr{s}
		}
		if s, ok := args[0].(*StrV); ok {
			return &bytePtr{r.bytesSlice(r.strBytes(s))}
		}
	case "Slice":
		if sp, ok := args[0].(*bytePtr); ok {
			n := r.toInt(args[1], types.Typ[types.Int])
			return SliceV{back: sp.s.back, off: sp.s.off, ln: n, cp: n}
		}
	}
	r.unsupported("builtin %s on %s", b.Name(), descr(args[0]))
	return nil
}

// bytePtr is the result of unsafe.SliceData / StringData.
type bytePtr struct{ s SliceV }

func (r *Run) doRecover(fr *frame) Value {
	// recover is effective only when called directly by a deferred function
	if fr != nil && fr.caller != nil && fr.caller.panicking && !fr.panicking {
		p := fr.caller.panic.(*goPanic)
		fr.caller.panicking = false
		fr.caller.panic = nil
		return p.v
	}
	return IfaceV{}
}

func (r *Run) copyOp(fr *frame, dv, sv Value) Value {
	c := r.c
	d := dv.(SliceV)
	var s SliceV
	switch x := sv.(type) {
	case SliceV:
		s = x
	case *StrV:
		s = r.bytesSlice(r.strBytes(x))
	default:
		r.unsupported("copy from %s", descr(sv))
	}
	ld, ls := r.lenOf(d), r.lenOf(s)
	n := c.Ite(c.Ult(ls, ld), ls, ld)
	max := min(r.maxLen(d), r.maxLen(s))
	if max == 0 {
		return n
	}
	if r.raceOn {
		r.access(&s.back[0], false, fr)
		r.access(&d.back[0], true, fr)
		if d.off.IsConst() && int(d.off.val) < len(d.back) {
			r.access(&d.back[d.off.val], true, fr)
		}
		if s.off.IsConst() && int(s.off.val) < len(s.back) {
			r.access(&s.back[s.off.val], false, fr)
		}
	}
	if n.IsConst() && d.off.IsConst() && s.off.IsConst() {
		k := int(n.val)
		tmp := make([]Value, k)
		for i := range tmp {
			tmp[i] = copyVal(s.back[int(s.off.val)+i])
		}
		for i := range tmp {
			storeSlot(&d.back[int(d.off.val)+i], tmp[i])
		}
		return n
	}
	// symbolic extent: element-wise conditional copy
	scalar := true
	for i := 0; i < max && scalar; i++ {
		if s.off.IsConst() {
			_, scalar = s.back[int(s.off.val)+i].(*Term)
		}
	}
	if len(s.back) > 0 {
		_, ok := s.back[0].(*Term)
		scalar = scalar && ok
	}
	if !scalar {
		k := int(r.concretize(n, "copy length"))
		tmp := make([]Value, k)
		for i := range tmp {
			tmp[i] = copyVal(r.at(s, i))
		}
		for i := range tmp {
			r.writeIdx(d.back, c.Bin(OAdd, d.off, c.Int(int64(i))), tmp[i])
		}
		return n
	}
	if !d.off.IsConst() {
		o := r.concretize(d.off, "copy offset")
		d.off = c.Int(o)
	}
	do := int(d.off.val)
	if do+max > len(d.back) {
		max = len(d.back) - do
	}
	tmp := make([]Value, max)
	for i := range tmp {
		cond := c.Ult(c.Int(int64(i)), n)
		if cond.IsFalse() {
			tmp[i] = d.back[do+i]
			continue
		}
		tmp[i] = c.Ite(cond, r.term(r.at(s, i)), r.term(d.back[do+i]))
	}
	copy(d.back[do:], tmp)
	return n
}

func (r *Run) appendOp(fr *frame, b *ssa.Builtin, args []Value) Value {
	c := r.c
	d := args[0].(SliceV)
	if len(args) < 2 {
		return d
	}
	var s SliceV
	switch x := args[1].(type) {
	case SliceV:
		s = x
	case *StrV:
		s = r.bytesSlice(r.strBytes(x))
	default:
		r.unsupported("append of %s", descr(args[1]))
	}
	if s.back == nil || (s.ln.IsConst() && s.ln.val == 0) {
		return d
	}
	ld, ls := r.lenOf(d), s.ln
	nl := c.Bin(OAdd, ld, ls)
	if d.back != nil && r.branch(c.Ule(nl, d.cp)) {
		// fits: write into the shared backing array
		ext := SliceV{back: d.back, off: c.Bin(OAdd, d.off, ld), ln: ls, cp: ls}
		r.copyOp(fr, ext, s)
		return SliceV{back: d.back, off: d.off, ln: nl, cp: d.cp}
	}
	// grow: the new capacity is unspecified by the language; like the runtime, roughly double
	if !ld.IsConst() {
		k := r.concretize(ld, "append length")
		ld = c.Int(k)
		nl = c.Bin(OAdd, ld, ls)
	}
	max := int(ld.val) + r.maxLen(s)
	ncap := max
	if d.back != nil && d.cp.IsConst() && int(d.cp.val)*2 > ncap {
		ncap = int(d.cp.val) * 2
	}
	if ncap < 8 && isByteSlice(b) {
		ncap = 8
	}
	if ncap > r.w.X.MaxAlloc {
		panic(pathEnd{kind: endLimit, msg: "append beyond allocation bound"})
	}
	et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
	back := make([]Value, ncap)
	for i := 0; i < int(ld.val); i++ {
		back[i] = copyVal(r.at(d, i))
	}
	z := r.zero(et)
	for i := int(ld.val); i < ncap; i++ {
		back[i] = copyVal(z)
	}
	res := SliceV{back: back, off: c.Int(0), ln: nl, cp: c.Int(int64(ncap))}
	ext := SliceV{back: back, off: ld, ln: ls, cp: c.Int(int64(ncap - int(ld.val)))}
	r.copyOp(fr, ext, s)
	return res
}

func isByteSlice(b *ssa.Builtin) bool {
	t := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice)
	bt, ok := t.Elem().Underlying().(*types.Basic)
	return ok && bt.Kind() == types.Uint8
}

var _ = strings.Contains
