package main

// The symbolic meaning of package vs.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var vsIntr map[string]Intrinsic

var Thorough bool

func (r *Run) concInt(v Value, what string) int {
	t := r.term(v)
	if !t.IsConst() {
		r.unsupported("%s must be concrete in a harness", what)
	}
	return int(sext64(t.val, t.w))
}

func (r *Run) fillVal(name string, t types.Type, slot *Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, ok := widthOf(u); ok {
			if w == 0 {
				*slot = r.c.Eq(r.freshInput(name, 8, 1), r.c.Const(1, 8))
			} else {
				*slot = r.freshInput(name, w, mask(w))
			}
		}
	case *types.Struct:
		sv := (*slot).(StructV)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			n := name + "." + f.Name()
			if f.Anonymous() {
				n = name
			}
			r.fillVal(n, f.Type(), &sv[i])
		}
	case *types.Array:
		av := (*slot).(ArrayV)
		for i := range av {
			r.fillVal(fmt.Sprintf("%s[%d]", name, i), u.Elem(), &av[i])
		}
	}
}

func (r *Run) boolInput(name string) *Term {
	return r.c.Eq(r.freshInput(name, 8, 1), r.c.Const(1, 8))
}

func (r *Run) symBytes(name string, n int) []*Term {
	b := make([]*Term, n)
	for i := range b {
		b[i] = r.freshInput(fmt.Sprintf("%s[%d]", name, i), 8, 255)
	}
	return b
}

func (r *Run) seqTerms(s SliceV) ([]*Term, *Term) {
	n := r.maxLen(s)
	out := make([]*Term, n)
	for i := range out {
		out[i] = r.term(r.at(s, i))
	}
	return out, r.lenOf(s)
}

func registerVS() {
	vsIntr = map[string]Intrinsic{}
	reg := func(n string, f func(r *Run, a []Value) Value) {
		vsIntr[n] = func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { return f(r, a) }
	}
	reg("Bool", func(r *Run, a []Value) Value { return r.boolInput(r.mustStr(a[0])) })
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64} {
		w := w
		reg(n, func(r *Run, a []Value) Value { return r.freshInput(r.mustStr(a[0]), w, mask(w)) })
	}
	reg("Int", func(r *Run, a []Value) Value {
		lo, hi := r.concInt(a[1], "bound"), r.concInt(a[2], "bound")
		v := r.freshInput(r.mustStr(a[0]), 64, uint64(hi)-uint64(lo))
		return r.c.Bin(OAdd, r.c.Int(int64(lo)), v)
	})
	reg("Choose", func(r *Run, a []Value) Value {
		n := r.concInt(a[1], "bound")
		v := r.freshInput(r.mustStr(a[0]), 64, uint64(n-1))
		return r.c.Int(r.concretize(v, "choice"))
	})
	reg("Conc", func(r *Run, a []Value) Value { return r.c.Int(r.concretize(r.term(a[0]), "Conc")) })
	reg("Bytes", func(r *Run, a []Value) Value {
		name := r.mustStr(a[0])
		lo, hi := r.concInt(a[1], "bound"), r.concInt(a[2], "bound")
		var n *Term
		if hi > lo {
			n = r.c.Bin(OAdd, r.c.Int(int64(lo)), r.freshInput(name+".len", 64, uint64(hi-lo)))
		} else {
			n = r.c.Int(int64(lo))
		}
		s := r.bytesSlice(r.symBytes(name, hi))
		s.ln, s.cp = n, n
		return s
	})
	reg("BytesN", func(r *Run, a []Value) Value {
		return r.bytesSlice(r.symBytes(r.mustStr(a[0]), r.concInt(a[1], "length")))
	})
	reg("Fill", func(r *Run, a []Value) Value {
		iv := a[1].(IfaceV)
		p := iv.v.(*Value)
		r.fillVal(r.mustStr(a[0]), iv.t.Underlying().(*types.Pointer).Elem(), p)
		return nil
	})
	reg("Assume", func(r *Run, a []Value) Value { r.assume(r.term(a[0])); return nil })
	reg("Assert", func(r *Run, a []Value) Value { r.assertion(r.term(a[0]), r.mustStr(a[1])); return nil })
	reg("Reach", func(r *Run, a []Value) Value { r.reached[r.mustStr(a[0])] = true; return nil })
	reg("Bound", func(r *Run, a []Value) Value {
		s := r.mustStr(a[0])
		r.w.E.mu.Lock()
		r.w.E.st[r.w.hi].Bounds[s]++
		r.w.E.mu.Unlock()
		return nil
	})
	reg("Observe", func(r *Run, a []Value) Value {
		name := r.mustStr(a[0])
		iv := a[1].(IfaceV)
		switch v := iv.v.(type) {
		case *Term:
			r.observ = append(r.observ, obs{name: name, v: []*Term{v}, signed: isSigned(iv.t)})
		case *StrV:
			b := r.strBytes(v)
			r.observ = append(r.observ, obs{name: name, v: b, ln: r.c.Int(int64(len(b))), seq: true})
		case SliceV:
			b, n := r.seqTerms(v)
			r.observ = append(r.observ, obs{name: name, v: b, ln: n, seq: true})
		case ArrayV:
			var b []*Term
			for _, x := range v {
				b = append(b, r.term(x))
			}
			r.observ = append(r.observ, obs{name: name, v: b, ln: r.c.Int(int64(len(b))), seq: true})
		default:
			r.unsupported("Observe of %s", descr(iv.v))
		}
		return nil
	})
	reg("Thorough", func(r *Run, a []Value) Value { return r.c.Bool(Thorough) })
	reg("Tier", func(r *Run, a []Value) Value {
		if Thorough {
			return a[1]
		}
		return a[0]
	})
	fold := func(and bool) func(r *Run, a []Value) Value {
		return func(r *Run, a []Value) Value {
			s := a[0].(SliceV)
			n := r.concInt(r.lenOf(s), "argument count")
			res := r.c.Bool(and)
			for i := 0; i < n; i++ {
				x := r.term(r.at(s, i))
				if and {
					res = r.c.And(res, x)
				} else {
					res = r.c.Or(res, x)
				}
			}
			return res
		}
	}
	reg("And", fold(true))
	reg("Or", fold(false))
	reg("Imp", func(r *Run, a []Value) Value { return r.c.Implies(r.term(a[0]), r.term(a[1])) })
	reg("Iff", func(r *Run, a []Value) Value { return r.c.Eq(r.term(a[0]), r.term(a[1])) })
	reg("Peek", func(r *Run, a []Value) Value {
		s := a[0].(SliceV)
		i := r.concInt(a[1], "index")
		if i >= r.maxLen(s) {
			return r.c.Const(0, 8)
		}
		in := r.c.Slt(r.c.Int(int64(i)), r.lenOf(s))
		return r.c.Ite(in, r.term(r.at(s, i)), r.c.Const(0, 8))
	})
	reg("EqBytes", func(r *Run, a []Value) Value { return r.bytesCmp(a[0].(SliceV), a[1].(SliceV), r.c.RawEq) })

	reg("Same", func(r *Run, a []Value) Value {
		x, y := a[0].(IfaceV), a[1].(IfaceV)
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return r.c.Bool(x.t == nil && y.t == nil)
		}
		r.rawEq = true
		t := r.eqVals(x.t, x.v, y.v)
		r.rawEq = false
		return t
	})
	reg("Inject", func(r *Run, a []Value) Value {
		data, n := r.seqTerms(a[0].(SliceV))
		var ip []*Term
		for _, x := range a[1].(ArrayV) {
			ip = append(ip, r.term(x))
		}
		r.deliver(&dgram{data: data, ln: n, ip: ip, port: r.term(a[2])})
		return nil
	})
	reg("InjectErr", func(r *Run, a []Value) Value {
		r.deliver(&dgram{err: r.netErr("read", "recvfrom", r.term(a[0]))})
		return nil
	})
	reg("FailWrites", func(r *Run, a []Value) Value {
		r.extra["failwrites"] = r.concInt(a[0], "count")
		r.extra["failerrno"] = r.term(a[1])
		return nil
	})
	reg("FailListen", func(r *Run, a []Value) Value { r.failListen = r.branch(r.term(a[0])); return nil })
	reg("Sent", func(r *Run, a []Value) Value {
		back := make([]Value, len(r.sent))
		for i, p := range r.sent {
			back[i] = StructV{r.bytesSlice(p.ip), p.port, r.bytesSlice(p.data), p.at, r.c.Int(int64(p.sock))}
		}
		n := r.c.Int(int64(len(back)))
		return SliceV{back: back, off: r.c.Int(0), ln: n, cp: n}
	})
	reg("ClearSent", func(r *Run, a []Value) Value { r.sent = nil; return nil })
	reg("Listens", func(r *Run, a []Value) Value {
		back := make([]Value, len(r.listens))
		for i, p := range r.listens {
			back[i] = StructV{r.bytesSlice(p.ip), p.port}
		}
		n := r.c.Int(int64(len(back)))
		return SliceV{back: back, off: r.c.Int(0), ln: n, cp: n}
	})
	reg("Settle", func(r *Run, a []Value) Value {
		g := r.cur
		r.settlers = append(r.settlers, g)
		g.asleep = true
		r.park("settle")
		g.asleep = false
		return nil
	})
	reg("Advance", func(r *Run, a []Value) Value { r.sleep(r.term(a[0])); return nil })
	reg("Clock", func(r *Run, a []Value) Value { return r.clock })
	reg("Goroutines", func(r *Run, a []Value) Value {
		n := 0
		for _, g := range r.gs {
			if g != r.mainG && !g.dead && !g.harness {
				n++
			}
		}
		return r.c.Int(int64(n))
	})
	reg("OpenSockets", func(r *Run, a []Value) Value {
		n := 0
		for _, s := range r.sockList {
			if !s.closed {
				n++
			}
		}
		return r.c.Int(int64(n))
	})
	reg("Schedule", func(r *Run, a []Value) Value {
		r.delays = r.concInt(a[0], "delays")
		r.schedMode = true
		r.delaysUsed = 0
		r.extra["selforks"] = r.concInt(a[1], "selects")
		return nil
	})
	reg("Starve", func(r *Run, a []Value) Value {
		var live []*G
		for _, g := range r.gs {
			if !g.dead && !g.harness && g != r.mainG {
				live = append(live, g)
			}
		}
		if k := r.choose(len(live)+1, "starve"); k > 0 {
			r.starved = live[k-1]
			r.schedDep = true
		}
		return nil
	})
	reg("Coincide", func(r *Run, a []Value) Value { r.extra["coincide"] = r.concInt(a[0], "count"); return nil })
	reg("MapOrder", func(r *Run, a []Value) Value { r.extra["maporder"] = r.concInt(a[0], "count"); return nil })
	reg("Lock", func(r *Run, a []Value) Value { return nil })
	reg("Unlock", func(r *Run, a []Value) Value { return nil })
	reg("RaceDetect", func(r *Run, a []Value) Value {
		r.raceOn = true
		if r.races == nil {
			r.races = &raceState{cells: map[interface{}]*raceCell{}, found: map[string]bool{}}
		}
		return nil
	})
}
