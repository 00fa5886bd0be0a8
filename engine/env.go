package main

// Virtual time and the fake UDP network.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

const (
	hasMono  = uint64(1) << 63
	unixBase = 946684800 // 2000-01-01, the start of virtual time (as in testing/synctest)
)

// now is a time.Time with a monotonic reading of the virtual clock. The wall seconds are
// constant: they matter only against times without a monotonic reading.
func (r *Run) now() StructV { return r.timeAt(r.clock) }

func (r *Run) timeAt(clk *Term) StructV {
	loc := r.global(r.P.pkg("time").Var("localLoc"))
	wall := hasMono | uint64(wallBase)<<30
	return StructV{r.c.Const(wall, 64), r.c.Bin(OAdd, clk, r.c.Int(1)), loc}
}

// 1885-01-01 to 2000-01-01 in seconds
var wallBase = func() int64 {
	days := int64(0)
	for y := 1885; y < 2000; y++ {
		days += 365
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			days++
		}
	}
	return days * 86400
}()

func (r *Run) isMono(t StructV) bool {
	w, ok := t[0].(*Term)
	return ok && w.IsConst() && w.val&hasMono != 0
}

func (r *Run) newTickerObj(ptrT types.Type, d *Term, period bool) Value {
	st := ptrT.Underlying().(*types.Pointer).Elem()
	s := new(Value)
	*s = r.zero(st)
	sv := (*s).(StructV)
	ch := &ChanV{cap: 1, zero: r.zero(r.P.namedType("time", "Time"))}
	sv[0] = ch
	t := &timerObj{when: r.c.Bin(OAdd, r.clock, d), slot: s, ch: ch}
	if period {
		t.period = d
	}
	t.fire = func(r *Run) {
		if ch.canSend() {
			r.doSend(ch, r.now())
		}
	}
	r.extra[fmt.Sprintf("timer%p", s)] = t
	r.addTimer(t)
	return s
}

func (r *Run) timerOf(p Value) *timerObj {
	s, ok := p.(*Value)
	if !ok {
		r.unsupported("timer %s", descr(p))
	}
	if s == nil {
		r.nilDeref()
	}
	t, _ := r.extra[fmt.Sprintf("timer%p", s)].(*timerObj)
	return t
}

func registerTime(reg func(string, Intrinsic)) {
	tt := func(fn *ssa.Function) types.Type { return fn.Signature.Results().At(0).Type() }
	reg("time.Now", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { return r.now() })
	reg("time.now", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		r.unsupported("time.now")
		return nil
	})
	reg("time.Sleep", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { r.sleep(r.term(a[0])); return nil })
	reg("time.NewTicker", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		d := r.term(a[0])
		if !r.branch(r.c.Slt(r.c.Int(0), d)) {
			panic(&goPanic{v: IfaceV{types.Typ[types.String], r.mkStr("non-positive interval for NewTicker")}, where: r.where()})
		}
		return r.newTickerObj(tt(fn), d, true)
	})
	reg("time.Tick", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		d := r.term(a[0])
		if !r.branch(r.c.Slt(r.c.Int(0), d)) {
			return (*ChanV)(nil)
		}
		s := r.newTickerObj(ptrTo(r.P.namedType("time", "Ticker")), d, true).(*Value)
		return (*s).(StructV)[0]
	})
	reg("time.NewTimer", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.newTickerObj(tt(fn), r.clampDur(r.term(a[0])), false)
	})
	reg("time.After", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		s := r.newTickerObj(ptrTo(r.P.namedType("time", "Timer")), r.clampDur(r.term(a[0])), false).(*Value)
		return (*s).(StructV)[0]
	})
	reg("time.AfterFunc", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		st := tt(fn).Underlying().(*types.Pointer).Elem()
		s := new(Value)
		*s = r.zero(st)
		f := a[1]
		h := caller != nil && caller.fn.Pkg != nil && r.P.isHarness(caller.fn.Pkg.Pkg.Path())
		t := &timerObj{when: r.c.Bin(OAdd, r.clock, r.clampDur(r.term(a[0]))), slot: s}
		t.fire = func(r *Run) {
			g := r.newG(nil)
			g.name = fmt.Sprintf("g%d:AfterFunc", g.id)
			g.harness = h
			go r.gMain(g, func() { r.callValue(nil, f, nil, 0) })
			r.ready(g)
		}
		r.extra[fmt.Sprintf("timer%p", s)] = t
		r.addTimer(t)
		return s
	})
	stop := func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		t := r.timerOf(a[0])
		was := false
		if t != nil {
			was = r.delTimer(t)
			if t.ch != nil && len(t.ch.buf) > 0 && t.period == nil {
				// since Go 1.23 no stale value is received after Stop
				t.ch.buf = nil
				t.ch.bvc = nil
				was = true
			}
		} else if s := a[0].(*Value); s != nil && fn.Signature.Recv().Type().String() == "*time.Timer" {
			panic(&goPanic{v: IfaceV{types.Typ[types.String], r.mkStr("time: Stop called on uninitialized Timer")}, where: r.where()})
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return r.c.Bool(was)
	}
	reg("(*time.Ticker).Stop", stop)
	reg("(*time.Timer).Stop", stop)
	reset := func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		t := r.timerOf(a[0])
		if t == nil {
			panic(&goPanic{v: IfaceV{types.Typ[types.String], r.mkStr("time: Reset called on uninitialized Timer or Ticker")}, where: r.where()})
		}
		d := r.term(a[1])
		if t.period != nil {
			if !r.branch(r.c.Slt(r.c.Int(0), d)) {
				panic(&goPanic{v: IfaceV{types.Typ[types.String], r.mkStr("non-positive interval for Ticker.Reset")}, where: r.where()})
			}
		}
		was := r.delTimer(t)
		if t.ch != nil {
			t.ch.buf, t.ch.bvc = nil, nil
		}
		d = r.clampDur(d)
		t.when = r.c.Bin(OAdd, r.clock, d)
		if t.period != nil {
			t.period = d
		}
		r.addTimer(t)
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return r.c.Bool(was)
	}
	reg("(*time.Ticker).Reset", reset)
	reg("(*time.Timer).Reset", reset)
	reg("time.Since", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sub := r.P.lookupMethodName(r.P.namedType("time", "Time"), "Sub")
		return r.callFn(caller, sub, []Value{r.now(), a[0]}, 0)
	})
	reg("time.Until", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sub := r.P.lookupMethodName(r.P.namedType("time", "Time"), "Sub")
		return r.callFn(caller, sub, []Value{a[0], r.now()}, 0)
	})
	// arithmetic on times with a monotonic reading
	intrinsicOr := func(name string, f func(r *Run, a []Value) (Value, bool)) {
		reg(name, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			if v, ok := f(r, a); ok {
				return v
			}
			return r.callRaw(caller, fn, a)
		})
	}
	intrinsicOr("(time.Time).Add", func(r *Run, a []Value) (Value, bool) {
		t, ok := a[0].(StructV)
		if !ok || !r.isMono(t) {
			return nil, false
		}
		d := r.term(a[1])
		e := r.term(t[1])
		n := r.c.Bin(OAdd, e, d)
		c := r.c
		z := c.Int(0)
		// overflow of the monotonic reading is outside the model
		ov := c.Or(c.And(c.Slt(d, z), c.Slt(e, n)), c.And(c.Slt(z, d), c.Slt(n, e)))
		if r.branch(ov) {
			r.unsupported("overflow of a monotonic time")
		}
		return StructV{t[0], n, t[2]}, true
	})
	intrinsicOr("(time.Time).Sub", func(r *Run, a []Value) (Value, bool) {
		t, u := a[0].(StructV), a[1].(StructV)
		if !r.isMono(t) || !r.isMono(u) {
			return nil, false
		}
		return r.c.Bin(OSub, r.term(t[1]), r.term(u[1])), true
	})
	unix := func(div int64) func(r *Run, a []Value) (Value, bool) {
		return func(r *Run, a []Value) (Value, bool) {
			t := a[0].(StructV)
			if !r.isMono(t) {
				return nil, false
			}
			ns := r.c.Bin(OAdd, r.c.Bin(OSub, r.term(t[1]), r.c.Int(1)), r.c.Int(unixBase*1000000000))
			if div == 1 {
				return ns, true
			}
			return r.c.Bin(OSDiv, ns, r.c.Int(div)), true
		}
	}
	intrinsicOr("(time.Time).UnixNano", unix(1))
	intrinsicOr("(time.Time).UnixMicro", unix(1000))
	intrinsicOr("(time.Time).UnixMilli", unix(1000000))
	intrinsicOr("(time.Time).Unix", unix(1000000000))
}

// clampDur turns negative durations into zero.
func (r *Run) clampDur(d *Term) *Term {
	c := r.c
	return c.Ite(c.Slt(d, c.Int(0)), c.Int(0), d)
}

// callRaw interprets fn's body, bypassing its intrinsic.
func (r *Run) callRaw(caller *frame, fn *ssa.Function, args []Value) Value {
	return r.interpret(fn, args, nil)
}

// ---- network ----

type dgram struct {
	data []*Term
	ln   *Term
	ip   []*Term
	port *Term
	err  Value // the read fails with this
	vc   []uint32
}

type sock struct {
	slot     *Value
	id       int
	q        []*dgram
	closed   bool
	readers  []*G
	deadline *timerObj
	expired  bool
	rec      listenRec
}

type sentPkt struct {
	ip   []*Term
	port *Term
	data []*Term
	sock int
	at   *Term
}

type listenRec struct {
	network string
	ip      []*Term
	port    *Term
}

func (r *Run) ipTerms(ip SliceV) []*Term {
	n := int(r.concretize(r.lenOf(ip), "ip length"))
	out := make([]*Term, n)
	for i := range out {
		out[i] = r.term(r.at(ip, i))
	}
	// 16-byte form of an IPv4 address
	if n == 16 {
		v4 := r.c.Bool(true)
		for i := 0; i < 12; i++ {
			want := uint64(0)
			if i >= 10 {
				want = 0xff
			}
			v4 = r.c.And(v4, r.c.Eq(out[i], r.c.Const(want, 8)))
		}
		if r.branch(v4) {
			return out[12:]
		}
	}
	return out
}

func (r *Run) udpAddrParts(p Value) (SliceV, *Term) {
	s, ok := p.(*Value)
	if !ok || s == nil {
		return SliceV{}, r.c.Int(0)
	}
	sv := (*s).(StructV)
	return sv[0].(SliceV), r.term(sv[1])
}

func (r *Run) mkUDPAddr(ip []*Term, port *Term) Value {
	s := new(Value)
	*s = StructV{r.bytesSlice(ip), port, emptyStr}
	return s
}

// uniqueMake is unique.Make for values without symbolic parts.
func (r *Run) uniqueMake(t types.Type, v Value) Value {
	var key func(v Value) string
	key = func(v Value) string {
		switch v := v.(type) {
		case StructV:
			s := "{"
			for _, x := range v {
				s += key(x) + ","
			}
			return s + "}"
		case *Term:
			return fmt.Sprint(r.concretize(v, "unique"))
		case *StrV:
			return fmt.Sprintf("%q", r.mustStr(v))
		}
		r.unsupported("unique handle of %s", descr(v))
		return ""
	}
	k := "unique " + types.TypeString(t, nil) + key(v)
	p, ok := r.extra[k].(*Value)
	if !ok {
		p = new(Value)
		*p = copyVal(v)
		r.extra[k] = p
	}
	return StructV{p}
}

func (r *Run) netipZ(v6 bool) Value {
	t := r.P.namedType("net/netip", "addrDetail")
	v := r.zero(t).(StructV)
	v[0] = r.c.Bool(v6)
	return r.uniqueMake(t, v)
}

func (r *Run) mkAddrPort(ip []*Term, port *Term) Value {
	c := r.c
	hi, lo := c.Const(0, 64), c.Const(0, 64)
	cat := func(b []*Term) *Term {
		x := b[0]
		for _, y := range b[1:] {
			x = c.Concat(x, y)
		}
		return x
	}
	v6 := len(ip) == 16
	if v6 {
		hi, lo = cat(ip[:8]), cat(ip[8:])
	} else {
		lo = c.Concat(c.Const(0xffff, 32), cat(ip))
	}
	return StructV{StructV{StructV{hi, lo}, r.netipZ(v6)}, c.Extract(port, 15, 0)}
}

func (r *Run) addrPortParts(v Value) ([]*Term, *Term) {
	c := r.c
	ap := v.(StructV)
	ad := ap[0].(StructV)
	u := ad[0].(StructV)
	z := ad[1].(StructV)[0]
	hi, lo := r.term(u[0]), r.term(u[1])
	var ip []*Term
	switch {
	case z == nil || z == Value((*Value)(nil)):
		return nil, nil
	case z == r.netipZ(false).(StructV)[0]:
		for i := 3; i >= 0; i-- {
			ip = append(ip, c.Extract(lo, uint8(8*i+7), uint8(8*i)))
		}
	default:
		for _, w := range []*Term{hi, lo} {
			for i := 7; i >= 0; i-- {
				ip = append(ip, c.Extract(w, uint8(8*i+7), uint8(8*i)))
			}
		}
	}
	return ip, c.Zext(r.term(ap[1]), 64)
}

func (r *Run) opError(op string, errName string) Value {
	// *net.OpError{Op, Net, Source, Addr, Err}
	t := r.P.namedType("net", "OpError")
	s := new(Value)
	*s = r.zero(t)
	sv := (*s).(StructV)
	sv[0] = r.mkStr(op)
	sv[1] = r.mkStr("udp4")
	var inner Value
	switch errName {
	case "closed":
		inner = *r.global(r.P.pkg("net").Var("ErrClosed"))
	case "deadline":
		inner = r.deadlineErr()
	default:
		inner = r.newErr(r.mkStr(errName))
	}
	sv[4] = inner
	return IfaceV{ptrTo(t), s}
}

// deadlineErr is os.ErrDeadlineExceeded.
func (r *Run) deadlineErr() Value {
	if v, ok := r.extra["deadline"].(IfaceV); ok {
		return v
	}
	t := r.P.namedType("internal/poll", "DeadlineExceededError")
	s := new(Value)
	*s = r.zero(t)
	v := IfaceV{ptrTo(t), s}
	r.extra["deadline"] = v
	return v
}

// netErr is a failed read or write: a system call that returned errno, or a timeout.
func (r *Run) netErr(op, call string, errno *Term) Value {
	e := r.opError(op, "deadline").(IfaceV)
	if errno.IsConst() && errno.val == 0 {
		return e
	}
	st := r.P.namedType("os", "SyscallError")
	s := new(Value)
	*s = StructV{r.mkStr(call), IfaceV{r.P.namedType("syscall", "Errno"), errno}}
	(*e.v.(*Value)).(StructV)[4] = IfaceV{ptrTo(st), s}
	return e
}

func (r *Run) listen(network string, ip []*Term, port *Term) (*Value, Value) {
	r.visible("listen")
	if r.failListen {
		return nil, r.opError("listen", "address already in use")
	}
	t := r.P.namedType("net", "UDPConn")
	s := new(Value)
	*s = r.zero(t)
	rec := listenRec{network, ip, port}
	sk := &sock{slot: s, id: len(r.sockList), rec: rec}
	r.socks[s] = sk
	r.sockList = append(r.sockList, sk)
	r.listens = append(r.listens, rec)
	return s, IfaceV{}
}

func (r *Run) sockOf(p Value) *sock {
	s, ok := p.(*Value)
	if !ok {
		r.unsupported("socket %s", descr(p))
	}
	if s == nil {
		return nil
	}
	// methods promoted from the embedded conn get a pointer to the first field
	if sk := r.socks[s]; sk != nil {
		return sk
	}
	for _, sk := range r.sockList {
		if st, ok := (*sk.slot).(StructV); ok && len(st) > 0 && &st[0] == s {
			return sk
		}
	}
	r.unsupported("unknown socket")
	return nil
}

// readDgram blocks for the next datagram.
func (r *Run) readDgram(sk *sock, buf SliceV) (*Term, []*Term, *Term, Value) {
	r.visible("read")
	for {
		if sk.closed {
			return r.c.Int(0), nil, nil, r.opError("read", "closed")
		}
		if len(sk.q) > 0 {
			break
		}
		if sk.expired {
			return r.c.Int(0), nil, nil, r.opError("read", "deadline")
		}
		sk.readers = append(sk.readers, r.cur)
		r.park("socket read" + r.whereShort())
	}
	d := sk.q[0]
	sk.q = sk.q[1:]
	if d.err != nil {
		return r.c.Int(0), nil, nil, d.err
	}
	src := r.bytesSlice(d.data)
	src.ln = d.ln
	n := r.copyOp(nil, buf, src).(*Term)
	return n, d.ip, d.port, IfaceV{}
}

func (r *Run) deliver(d *dgram) {
	for _, sk := range r.sockList {
		if sk.closed {
			continue
		}
		sk.q = append(sk.q, d)
		if len(sk.readers) > 0 {
			g := sk.readers[0]
			sk.readers = sk.readers[1:]
			r.ready(g)
		}
	}
}

func (r *Run) writeDgram(sk *sock, ip []*Term, port *Term, data SliceV) (Value, Value) {
	r.visible("write")
	if sk.closed {
		return r.c.Int(0), r.opError("write", "closed")
	}
	switch len(ip) {
	case 0:
		ip = []*Term{r.c.Const(0, 8), r.c.Const(0, 8), r.c.Const(0, 8), r.c.Const(0, 8)}
	case 4:
	default:
		return r.c.Int(0), r.opError("write", "non-IPv4 address")
	}
	if n, _ := r.extra["failwrites"].(int); n > 0 {
		r.extra["failwrites"] = n - 1
		return r.c.Int(0), r.netErr("write", "sendto", r.extra["failerrno"].(*Term))
	}
	n := int(r.concretize(r.lenOf(data), "datagram length"))
	b := make([]*Term, n)
	for i := range b {
		b[i] = r.term(r.at(data, i))
	}
	if r.raceOn && n > 0 {
		r.access(&data.back[data.off.val], false, r.cur.fr)
	}
	r.sent = append(r.sent, sentPkt{ip: ip, port: port, data: b, sock: sk.id, at: r.clock})
	return r.c.Int(int64(n)), IfaceV{}
}

func (r *Run) closeSock(sk *sock) Value {
	r.visible("closesock")
	if sk.closed {
		return r.opError("close", "closed")
	}
	sk.closed = true
	for _, g := range sk.readers {
		r.ready(g)
	}
	sk.readers = nil
	return IfaceV{}
}

func (r *Run) parseHostPort(s *StrV) ([]*Term, *Term, bool) {
	if t, ok := s.tag.(*tagAddr); ok {
		return r.ipTerms(t.ip), t.port, true
	}
	x, ok := r.concreteStr(s)
	if !ok {
		r.unsupported("symbolic address string")
	}
	i := strings.LastIndexByte(x, ':')
	if i < 0 {
		return nil, nil, false
	}
	port, err := strconv.Atoi(x[i+1:])
	if err != nil || port < 0 || port > 65535 {
		return nil, nil, false
	}
	var ip []*Term
	if h := x[:i]; h != "" {
		for _, p := range strings.Split(h, ".") {
			n, err := strconv.Atoi(p)
			if err != nil || n < 0 || n > 255 {
				return nil, nil, false
			}
			ip = append(ip, r.c.Const(uint64(n), 8))
		}
		if len(ip) != 4 {
			return nil, nil, false
		}
	}
	return ip, r.c.Int(int64(port)), true
}

func (r *Run) fmtIP(ip SliceV) []*Term {
	b := r.ipTerms(ip)
	if len(b) == 0 {
		return r.strBytes(r.mkStr("<nil>"))
	}
	if len(b) != 4 {
		r.unsupported("textual form of a non-IPv4 address")
	}
	var out []*Term
	for i, t := range b {
		if i > 0 {
			out = append(out, r.c.Const('.', 8))
		}
		out = append(out, r.fmtUint(t)...)
	}
	return out
}

func registerNet(reg func(string, Intrinsic)) {
	reg("(net.IP).String", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		ip := snapSlice(r, a[0].(SliceV))
		return &StrV{lazy: func(r *Run) []*Term { return r.fmtIP(ip) }}
	})
	addrStr := func(r *Run, p Value) Value {
		s := p.(*Value)
		if s == nil {
			return r.mkStr("<nil>")
		}
		ip, port := r.udpAddrParts(s)
		ip = snapSlice(r, ip)
		return &StrV{tag: &tagAddr{ip, port}, lazy: func(r *Run) []*Term {
			var out []*Term
			if n := r.lenOf(ip); !(n.IsConst() && n.val == 0) {
				out = r.fmtIP(ip)
			}
			out = append(out, r.c.Const(':', 8))
			return append(out, r.fmtInt(port, true)...)
		}}
	}
	reg("(*net.UDPAddr).String", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { return addrStr(r, a[0]) })
	asIface := func(r *Run, s *Value, err Value) Value {
		if s == nil {
			return TupleV{IfaceV{}, err}
		}
		return TupleV{IfaceV{ptrTo(r.P.namedType("net", "UDPConn")), s}, err}
	}
	netOK := func(r *Run, n string) bool { return n == "udp" || n == "udp4" }
	listenPacket := func(r *Run, network, addr Value) Value {
		n := r.mustStr(network)
		if !netOK(r, n) {
			r.unsupported("network %q", n)
		}
		ip, port, ok := r.parseHostPort(addr.(*StrV))
		if !ok {
			return TupleV{IfaceV{}, r.opError("listen", "bad address")}
		}
		s, err := r.listen(n, ip, port)
		return asIface(r, s, err)
	}
	reg("net.ListenPacket", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { return listenPacket(r, a[0], a[1]) })
	reg("(*net.ListenConfig).ListenPacket", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return listenPacket(r, a[2], a[3])
	})
	reg("net.ListenUDP", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		n := r.mustStr(a[0])
		if !netOK(r, n) {
			r.unsupported("network %q", n)
		}
		ip, port := r.udpAddrParts(a[1])
		s, err := r.listen(n, r.ipTerms(ip), port)
		return TupleV{s, err}
	})
	reg("net.ResolveUDPAddr", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		ip, port, ok := r.parseHostPort(a[1].(*StrV))
		if !ok {
			return TupleV{(*Value)(nil), r.newErr(r.mkStr("bad address"))}
		}
		return TupleV{r.mkUDPAddr(ip, port), IfaceV{}}
	})
	for _, n := range []string{"net.Dial", "net.DialUDP", "net.DialTimeout", "net.Listen", "net.ListenMulticastUDP", "net.InterfaceAddrs", "net.Interfaces", "net.LookupHost"} {
		name := n
		reg(n, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
			r.unsupported("call of %s", name)
			return nil
		})
	}
	einval := func(r *Run) Value { return r.newErr(r.mkStr("invalid argument")) }
	// (c *UDPConn) ReadFromUDP(b []byte) (n int, addr *UDPAddr, err error)
	reg("(*net.UDPConn).ReadFromUDP", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return TupleV{r.c.Int(0), (*Value)(nil), einval(r)}
		}
		n, ip, port, err := r.readDgram(sk, a[1].(SliceV))
		if ip == nil {
			return TupleV{n, (*Value)(nil), err}
		}
		return TupleV{n, r.mkUDPAddr(ip, port), err}
	})
	reg("(*net.UDPConn).ReadFrom", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return TupleV{r.c.Int(0), IfaceV{}, einval(r)}
		}
		n, ip, port, err := r.readDgram(sk, a[1].(SliceV))
		if ip == nil {
			return TupleV{n, IfaceV{}, err}
		}
		return TupleV{n, IfaceV{ptrTo(r.P.namedType("net", "UDPAddr")), r.mkUDPAddr(ip, port)}, err}
	})
	reg("(*net.UDPConn).ReadMsgUDP", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return TupleV{r.c.Int(0), r.c.Int(0), r.c.Int(0), (*Value)(nil), einval(r)}
		}
		n, ip, port, err := r.readDgram(sk, a[1].(SliceV))
		if ip == nil {
			return TupleV{n, r.c.Int(0), r.c.Int(0), (*Value)(nil), err}
		}
		return TupleV{n, r.c.Int(0), r.c.Int(0), r.mkUDPAddr(ip, port), err}
	})
	reg("(*net.UDPConn).ReadFromUDPAddrPort", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		none := r.zero(r.P.namedType("net/netip", "AddrPort"))
		sk := r.sockOf(a[0])
		if sk == nil {
			return TupleV{r.c.Int(0), none, einval(r)}
		}
		n, ip, port, err := r.readDgram(sk, a[1].(SliceV))
		if ip == nil {
			return TupleV{n, none, err}
		}
		return TupleV{n, r.mkAddrPort(ip, port), err}
	})
	reg("(*net.UDPConn).ReadMsgUDPAddrPort", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		none := r.zero(r.P.namedType("net/netip", "AddrPort"))
		sk := r.sockOf(a[0])
		if sk == nil {
			return TupleV{r.c.Int(0), r.c.Int(0), r.c.Int(0), none, einval(r)}
		}
		n, ip, port, err := r.readDgram(sk, a[1].(SliceV))
		if ip == nil {
			return TupleV{n, r.c.Int(0), r.c.Int(0), none, err}
		}
		return TupleV{n, r.c.Int(0), r.c.Int(0), r.mkAddrPort(ip, port), err}
	})
	toAP := func(r *Run, conn, b, ap Value) (Value, Value) {
		sk := r.sockOf(conn)
		if sk == nil {
			return r.c.Int(0), einval(r)
		}
		ip, port := r.addrPortParts(ap)
		if ip == nil {
			return r.c.Int(0), r.opError("write", "missing address")
		}
		return r.writeDgram(sk, ip, port, b.(SliceV))
	}
	reg("(*net.UDPConn).WriteToUDPAddrPort", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		n, err := toAP(r, a[0], a[1], a[2])
		return TupleV{n, err}
	})
	reg("(*net.UDPConn).WriteMsgUDPAddrPort", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		n, err := toAP(r, a[0], a[1], a[3])
		return TupleV{n, r.c.Int(0), err}
	})
	// sort.Slice and friends
	reg("internal/reflectlite.ValueOf", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].(IfaceV)
		s, ok := i.v.(SliceV)
		if !ok {
			r.unsupported("reflectlite.ValueOf of something other than a slice")
		}
		return StructV{(*Value)(nil), s, r.c.Const(0, 64)}
	})
	reg("(internal/reflectlite.Value).Len", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return a[0].(StructV)[1].(SliceV).ln
	})
	reg("internal/reflectlite.Swapper", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(IfaceV).v.(SliceV)
		return &FuncV{nat: func(r *Run, x []Value) Value {
			off := r.concretize(s.off, "swap")
			i, j := off+r.concretize(r.term(x[0]), "swap"), off+r.concretize(r.term(x[1]), "swap")
			v := copyVal(s.back[i])
			r.store(&s.back[i], copyVal(s.back[j]), caller)
			r.store(&s.back[j], v, caller)
			return nil
		}}
	})
	reg("(syscall.Errno).Error", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		e := a[0].(*Term)
		for _, k := range []syscall.Errno{syscall.EMSGSIZE, syscall.ECONNREFUSED, syscall.ENETUNREACH, syscall.EHOSTUNREACH, syscall.EINTR, syscall.EAGAIN, syscall.ENOBUFS, syscall.EBADF, syscall.ECONNRESET, syscall.ENETDOWN, syscall.EPERM, syscall.ENOMEM} {
			if r.branch(r.c.Eq(e, r.c.Const(uint64(k), e.w))) {
				return r.mkStr(k.Error())
			}
		}
		if e.IsConst() {
			return r.mkStr(syscall.Errno(e.val).Error())
		}
		return r.mkStr("system error")
	})
	reg("unique.Make", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return r.uniqueMake(fn.Signature.Params().At(0).Type(), a[0])
	})
	reg("(unique.Handle[T]).Value", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		return copyVal(*(a[0].(StructV)[0].(*Value)))
	})
	reg("(*net.conn).Read", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return TupleV{r.c.Int(0), einval(r)}
		}
		n, _, _, err := r.readDgram(sk, a[1].(SliceV))
		return TupleV{n, err}
	})
	reg("(*net.UDPConn).WriteToUDP", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return TupleV{r.c.Int(0), einval(r)}
		}
		ap, ok := a[2].(*Value)
		if !ok || ap == nil {
			return TupleV{r.c.Int(0), r.opError("write", "missing address")}
		}
		ip, port := r.udpAddrParts(ap)
		n, err := r.writeDgram(sk, r.ipTerms(ip), port, a[1].(SliceV))
		return TupleV{n, err}
	})
	reg("(*net.UDPConn).WriteTo", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return TupleV{r.c.Int(0), einval(r)}
		}
		ad := a[2].(IfaceV)
		ap, ok := ad.v.(*Value)
		if ad.t == nil || !ok || ap == nil || !strings.HasSuffix(ad.t.String(), "net.UDPAddr") {
			return TupleV{r.c.Int(0), einval(r)}
		}
		ip, port := r.udpAddrParts(ap)
		n, err := r.writeDgram(sk, r.ipTerms(ip), port, a[1].(SliceV))
		return TupleV{n, err}
	})
	reg("(*net.UDPConn).WriteMsgUDP", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		ip, port := r.udpAddrParts(a[3])
		n, err := r.writeDgram(sk, r.ipTerms(ip), port, a[1].(SliceV))
		return TupleV{n, r.c.Int(0), err}
	})
	reg("(*net.conn).Close", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return einval(r)
		}
		return r.closeSock(sk)
	})
	reg("(*net.conn).LocalAddr", func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return IfaceV{}
		}
		ip := sk.rec.ip
		if ip == nil {
			ip = []*Term{r.c.Const(0, 8), r.c.Const(0, 8), r.c.Const(0, 8), r.c.Const(0, 8)}
		}
		return IfaceV{ptrTo(r.P.namedType("net", "UDPAddr")), r.mkUDPAddr(ip, sk.rec.port)}
	})
	dl := func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value {
		sk := r.sockOf(a[0])
		if sk == nil {
			return einval(r)
		}
		if sk.closed {
			return r.opError("set", "closed")
		}
		if sk.deadline != nil {
			r.delTimer(sk.deadline)
			sk.deadline = nil
		}
		sk.expired = false
		t := a[1].(StructV)
		if !r.isMono(t) {
			w, _ := t[0].(*Term)
			e, _ := t[1].(*Term)
			if w != nil && e != nil && w.IsConst() && e.IsConst() && w.val == 0 && e.val == 0 {
				return IfaceV{} // no deadline
			}
			// an absolute time in the past (time.Unix(…))
			sk.expired = true
			for _, g := range sk.readers {
				r.ready(g)
			}
			sk.readers = nil
			return IfaceV{}
		}
		when := r.c.Bin(OSub, r.term(t[1]), r.c.Int(1))
		wake := func(r *Run) {
			sk.expired = true
			for _, g := range sk.readers {
				r.ready(g)
			}
			sk.readers = nil
		}
		if r.branch(r.c.Sle(when, r.clock)) {
			wake(r)
			return IfaceV{}
		}
		sk.deadline = &timerObj{when: when, fire: wake}
		r.addTimer(sk.deadline)
		return IfaceV{}
	}
	reg("(*net.conn).SetReadDeadline", dl)
	reg("(*net.conn).SetDeadline", dl)
	for _, n := range []string{"SetWriteDeadline", "SetReadBuffer", "SetWriteBuffer"} {
		reg("(*net.conn)."+n, func(r *Run, caller *frame, fn *ssa.Function, a []Value) Value { return IfaceV{} })
	}
}

func snapSlice(r *Run, s SliceV) SliceV {
	if s.back == nil {
		return s
	}
	return SliceV{back: append([]Value{}, s.back...), off: s.off, ln: s.ln, cp: s.cp}
}
