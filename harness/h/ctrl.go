//go:build go1.21

package h

import (
	"net"
	"time"

	"github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

// ticks of a controller limited to fps frames per second
func frame(fps int) time.Duration { return time.Second / time.Duration(fps) }

func newCtrl(fps int, opts ...artnet.Option) *artnet.Controller {
	return artnet.NewController("ctrl", net.IP{2, 0, 0, 1}, log(), append([]artnet.Option{artnet.MaxFPS(fps)}, opts...)...)
}

func startCtrl(fps int, opts ...artnet.Option) *artnet.Controller {
	c := newCtrl(fps, opts...)
	vs.Assert(c.Start() == nil, "start")
	vs.Settle()
	vs.ClearSent()
	return c
}

// peer is a node on the network: what it announces.
type peer struct {
	ip    [4]byte
	style uint8
	net   uint8
	sub   uint8
	outs  []uint8 // universes 0..15
	ins   []uint8
	any   bool // every announcement has an arbitrary identity otherwise
	id    bool // the same, with one name
	name  string
}

func (p peer) out(i int) artnet.Address {
	return artnet.Address{Net: p.net, SubUni: p.sub<<4 | p.outs[i]&0x0f}
}
func (p peer) in(i int) artnet.Address {
	return artnet.Address{Net: p.net, SubUni: p.sub<<4 | p.ins[i]&0x0f}
}

func (p peer) packet() *packet.ArtPollReplyPacket {
	r := &packet.ArtPollReplyPacket{Port: 6454, IPAddress: p.ip, Style: code.StyleCode(p.style), NetSwitch: p.net, SubSwitch: p.sub}
	n := len(p.outs)
	if len(p.ins) > n {
		n = len(p.ins)
	}
	r.NumPorts = uint16(n)
	r.BindIP, r.BindIndex, r.Oem, r.Macaddress = [4]byte{10, 9, 8, 7}, 1, 0x2be9, [6]byte{0, 1, 2, 3, 4, 5}
	for i := range p.outs {
		r.PortTypes[i] |= 0x80
		r.SwOut[i] = p.outs[i]
	}
	for i := range p.ins {
		r.PortTypes[i] |= 0x40
		r.SwIn[i] = p.ins[i]
	}
	if p.name == "" {
		p.name = "peer"
	}
	copy(r.ShortName[:17], p.name)
	if p.any || p.id {
		vs.Fill("mac", &r.Macaddress)
		vs.Fill("bindip", &r.BindIP)
		r.BindIndex, r.Oem, r.VersionInfo = vs.U8("bindindex"), vs.U16("oem"), vs.U16("version")
		r.Status1, r.Status2 = code.Status1(vs.U8("status1")), code.Status2(vs.U8("status2"))
		for i := range p.outs {
			r.GoodOutput[i] = code.GoodOutput(vs.U8("good"))
		}
		if p.any && vs.Choose("named", 2) == 1 {
			r.ShortName = [18]byte{}
			copy(r.ShortName[:], "another one")
			copy(r.LongName[:], "long")
			r.NodeReport[0], r.NodeReport[1] = 1, code.NodeReportCode(vs.U8("report"))
		}
	}
	return r
}

// wild is the peer at an arbitrary sub-net, a node or a controller, with an arbitrary identity.
func (p peer) wild() peer {
	p.net, p.sub, p.style, p.id = vs.U8("net"), vs.U8("sub"), uint8(vs.Choose("style", 2)), true
	vs.Assume(vs.And(p.net < 128, p.sub < 16))
	return p
}

// crowd is m peers of 1..4 (all: 4) outputs.
func crowd(m int, all bool) []peer {
	var ps []peer
	for i := 0; i < m; i++ {
		p := peer{ip: [4]byte{2, 0, 1, byte(i)}, net: uint8(i / 16), sub: uint8(i % 16), outs: []uint8{0, 5, 9, 15}}
		if !all {
			p.outs = p.outs[:1+(i+i/4)%4]
		}
		ps = append(ps, p)
	}
	return ps
}

// announce delivers the peer's poll reply and lets the controller digest it.
func (p peer) announce() {
	vs.Inject(wireOf(p.packet()), p.ip, 6454)
	vs.Settle()
}

// dmx is an ArtDMX packet seen on the network.
type dmx struct {
	ip   [4]byte
	seq  uint8
	addr artnet.Address
	data []byte
	at   int64
}

// dmxSent is the ArtDMX traffic so far; everything else must be polls and replies.
func dmxSent() []dmx {
	var out []dmx
	for _, p := range vs.Sent() {
		if isDMX(p) {
			out = append(out, asDMX(p))
		}
	}
	return out
}

func isDMX(p vs.Packet) bool { return len(p.Data) >= 18 && p.Data[8] == 0 && p.Data[9] == 0x50 }

func asDMX(p vs.Packet) dmx {
	vs.Assert(len(p.Data) == 530 && p.Data[10] == 0 && p.Data[11] == 14 && p.Data[16] == 2 && p.Data[17] == 0 && vs.EqBytes(p.Data[:8], artnetID[:]), "a DMX packet is not well formed")
	vs.Assert(p.Port == 6454 && len(p.IP) == 4, "a DMX packet is not sent to port 6454")
	d := dmx{seq: p.Data[12], addr: artnet.Address{Net: p.Data[15], SubUni: p.Data[14]}, data: p.Data[18:], at: p.At}
	copy(d.ip[:], p.IP)
	return d
}

// frameOf is an arbitrary frame.
func frameOf(name string) [512]byte {
	var f [512]byte
	vs.Fill(name, &f)
	return f
}

// ---- C21 ----

// H_C21_route: arbitrary announcements of two nodes, a frame to an arbitrary address.
func H_C21_route() {
	vs.Bound("two nodes with arbitrary distinct IPs (one replying from another address, with arbitrary bind address, MAC and status) and arbitrary distinct output addresses (2 and 1 outputs, an arbitrary input), a frame of 512 arbitrary channels to an arbitrary address, then to a known one; 3 updates")
	const fps = 7
	c := startCtrl(fps)
	var a, b peer
	vs.Fill("a.ip", &a.ip)
	vs.Fill("b.ip", &b.ip)
	vs.Assume(!vs.Same(a.ip, b.ip))
	vs.Assume(vs.And(!vs.Same(a.ip, ownIP), !vs.Same(b.ip, ownIP)))
	a.net, a.sub, b.net, b.sub = vs.U8("a.net"), vs.U8("a.sub"), vs.U8("b.net"), vs.U8("b.sub")
	vs.Assume(vs.And(a.sub < 16, b.sub < 16))
	a.outs = []uint8{vs.U8("a.out"), vs.U8("a.out")}
	b.outs, b.ins = []uint8{vs.U8("b.out")}, []uint8{vs.U8("b.in")}
	vs.Assume(vs.And(!vs.Same(a.out(0), a.out(1)), !vs.Same(a.out(0), b.out(0)), !vs.Same(a.out(1), b.out(0))))
	a.announce()
	rb := b.packet()
	vs.Fill("b.bind", &rb.BindIP)
	vs.Fill("b.mac", &rb.Macaddress)
	rb.BindIndex, rb.Oem, rb.Status1, rb.Status2 = vs.U8("b.bindindex"), vs.U16("b.oem"), code.Status1(vs.U8("b.status1")), code.Status2(vs.U8("b.status2"))
	vs.Inject(wireOf(rb), otherIP, int(vs.U16("b.port")))
	vs.Settle()
	f := frameOf("f")
	x := artnet.Address{Net: vs.U8("x.net"), SubUni: vs.U8("x.sub")}
	c.SendDMXToAddress(f, x)
	vs.Advance(frame(fps))
	vs.Settle()
	var zero [512]byte
	check := func(d dmx, addr artnet.Address, want [512]byte) {
		vs.Assert(vs.Same(d.addr, addr), "a packet carries another address")
		vs.Assert(vs.EqBytes(d.data, want[:]), "a packet carries other channels than the latest submitted")
	}
	known := -1
	switch x {
	case a.out(0):
		known = 0
	case a.out(1):
		known = 1
	case b.out(0):
		known = 2
	}
	addrs := []artnet.Address{a.out(0), a.out(1), b.out(0)}
	ips := [][4]byte{a.ip, a.ip, b.ip}
	data := [][512]byte{zero, zero, zero}
	if known >= 0 {
		data[known] = f
		vs.Reach("known")
	} else {
		vs.Reach("unknown")
	}
	match := func(d dmx) int {
		for i := range addrs {
			if d.addr == addrs[i] {
				return i
			}
		}
		return -1
	}
	var n [3]int
	for _, d := range dmxSent() {
		i := match(d)
		vs.Assert(i >= 0, "a packet is sent for an address nobody announced")
		vs.Assert(vs.Same(d.ip, ips[i]), "a packet is sent to another node")
		check(d, addrs[i], data[i])
		n[i]++
	}
	if known >= 0 {
		vs.Assert(n[known] == 1, "a submitted frame is not sent exactly once at the next update")
	}
	// a second frame for a known address, then two updates
	vs.ClearSent()
	k := vs.Choose("k", 3)
	g := frameOf("g")
	c.SendDMXToAddress(g, addrs[k])
	data[k] = g
	for u := 0; u < 2; u++ {
		vs.ClearSent()
		vs.Advance(frame(fps))
		vs.Settle()
		n = [3]int{}
		for _, d := range dmxSent() {
			i := match(d)
			vs.Assert(i >= 0, "a packet is sent for an address nobody announced")
			vs.Assert(vs.Same(d.ip, ips[i]), "a packet is sent to another node")
			check(d, addrs[i], data[i])
			n[i]++
		}
		if u == 0 {
			vs.Assert(n[k] == 1, "a submitted frame is not sent exactly once at the next update")
		}
	}
	c.Stop()
}

// H_C21_latest: several submissions between updates.
func H_C21_latest() {
	vs.Bound("one node with 4 outputs in any map order, 1..4 arbitrary frames to arbitrary outputs between two updates")
	const fps = 7
	c := startCtrl(fps)
	p := peer{ip: otherIP, net: 3, sub: 5, outs: []uint8{1, 4, 9, 15}}
	p.announce()
	if vs.Choose("first", 2) == 1 {
		vs.Advance(frame(fps))
		vs.Settle()
	}
	vs.ClearSent()
	var data [4][512]byte
	var hit [4]bool
	k := 1 + vs.Choose("frames", vs.Tier(3, 4))
	for i := 0; i < k; i++ {
		o := vs.Choose("out", 4)
		f := [512]byte{0: vs.U8("ch"), 1: vs.U8("ch"), 300: vs.U8("ch"), 511: vs.U8("ch")}
		c.SendDMXToAddress(f, p.out(o))
		data[o], hit[o] = f, true
	}
	vs.MapOrder(3)
	vs.Advance(frame(fps))
	vs.Settle()
	vs.Reach("updated")
	var n [4]int
	for _, d := range dmxSent() {
		o := -1
		for i := range p.outs {
			if d.addr == p.out(i) {
				o = i
			}
		}
		vs.Assert(o >= 0 && d.ip == otherIP, "a packet is misrouted")
		vs.Assert(vs.EqBytes(d.data, data[o][:]), "a packet does not carry the most recently submitted channels")
		n[o]++
	}
	for o := range n {
		if hit[o] {
			vs.Assert(n[o] == 1, "a submitted frame is not sent exactly once at the next update")
		}
	}
	c.Stop()
}

// H_C21_changed: a known node announces other outputs.
func H_C21_changed() {
	vs.Bound("a node whose announcement changes from universe X to X,Y, then to Y only (arbitrary universes and otherwise arbitrary identity), with a frame submitted to each after each announcement, before and after an update")
	const fps = 7
	c := startCtrl(fps)
	x, y := vs.U8("x"), vs.U8("y")
	vs.Assume(vs.And(x < 16, y < 16, x != y))
	early := vs.Choose("early", 2) == 1
	up := func() {
		vs.Advance(frame(fps))
		vs.Settle()
	}
	p := peer{ip: otherIP, outs: []uint8{x}, any: true}
	p.announce()
	if !early {
		up()
	}
	p.outs = []uint8{x, y}
	p.announce()
	ax, ay := p.out(0), p.out(1)
	f, g := [512]byte{7: vs.U8("f")}, [512]byte{9: vs.U8("g")}
	c.SendDMXToAddress(f, ax)
	c.SendDMXToAddress(g, ay)
	vs.ClearSent()
	up()
	nx, ny := 0, 0
	for _, d := range dmxSent() {
		vs.Assert(d.ip == otherIP, "a packet is misrouted")
		if d.addr == ax {
			nx++
			vs.Assert(vs.EqBytes(d.data, f[:]), "the first output's channels")
		} else {
			vs.Assert(d.addr == ay, "a packet for another address")
			ny++
			vs.Assert(vs.EqBytes(d.data, g[:]), "the new output's channels")
		}
	}
	vs.Reach("added")
	vs.Assert(nx == 1, "a frame is not sent exactly once at the next update")
	vs.Assert(ny == 1, "a frame for a newly announced output is not sent exactly once at the next update")
	p.outs = []uint8{y}
	p.announce()
	vs.ClearSent()
	vs.Advance(3 * frame(fps))
	vs.Settle()
	n := 0
	for _, d := range dmxSent() {
		n++
		vs.Assert(d.addr == ay && vs.EqBytes(d.data, g[:]), "the data of a universe changes although no frame was submitted")
	}
	vs.Assert(n > 0, "an announced output is no longer refreshed")
	c.SendDMXToAddress([512]byte{1: 1}, ax)
	h := [512]byte{11: vs.U8("h")}
	c.SendDMXToAddress(h, ay)
	vs.ClearSent()
	up()
	out := dmxSent()
	vs.Reach("removed")
	vs.Assert(len(out) == 1, "a frame for an output no longer announced is sent, or one that is announced is not")
	vs.Assert(out[0].addr == ay && vs.EqBytes(out[0].data, h[:]), "the remaining output's channels")
	c.Stop()
}

// H_C21_wide: more universes than any queue holds.
func H_C21_wide() {
	vs.Bound("3, 9 or 20 nodes of 4 outputs, or 70 (thorough: 250) of one, a frame for each, all or every second one submitted at once, for two updates; any one goroutine running only when nothing else can")
	const fps = 7
	c := startCtrl(fps)
	ps := crowd([]int{3, 9, 20, vs.Tier(70, 250)}[vs.Choose("nodes", 4)], true)
	if len(ps) > 20 {
		for i := range ps {
			ps[i].outs = ps[i].outs[:1]
		}
	}
	for _, p := range ps {
		p.announce()
	}
	step := 1 + vs.Choose("every", 2)
	vs.Advance(frame(fps))
	vs.Settle()
	vs.Starve()
	x := vs.U8("x")
	for r := 1; r < 3; r++ {
		for i, p := range ps {
			for o := range p.outs {
				if (i+o)%step == 0 {
					c.SendDMXToAddress([512]byte{0: byte(r), 1: byte(i), 2: byte(o), 511: x}, p.out(o))
				}
			}
		}
		vs.ClearSent()
		vs.Advance(frame(fps))
		vs.Settle()
		n := 0
		sent := dmxSent()
		for i, p := range ps {
			for o := range p.outs {
				k := 0
				for _, d := range sent {
					if d.addr == p.out(o) {
						vs.Assert(d.ip == p.ip, "a packet is misrouted")
						k++
						if (i+o)%step == 0 {
							vs.Assert(d.data[0] == byte(r) && d.data[1] == byte(i) && d.data[2] == byte(o) && d.data[511] == x, "a packet does not carry the latest frame of its universe")
						} else {
							vs.Assert(d.data[0] == 0 && d.data[511] == 0, "data of another universe is sent")
						}
					}
				}
				vs.Assert(k <= 1, "a universe is sent twice in an update")
				vs.Assert(k == 1 || (i+o)%step != 0, "a submitted frame is not sent at the next update")
				n += k
			}
		}
		vs.Assert(n == len(sent), "a packet for an address nobody announces")
	}
	vs.Reach("wide")
	c.Stop()
}

// H_C21_nobody: frames nobody asked for.
func H_C21_nobody() {
	vs.Bound("1, 2, 7 or 300 arbitrary frames to arbitrary addresses, or to one, that no node announces, with 0 or 1 other node known, before or after which a node announces such an address; then a frame to it")
	const fps = 7
	c := startCtrl(fps)
	a := artnet.Address{Net: vs.U8("net"), SubUni: vs.U8("subuni")}
	q := peer{ip: [4]byte{2, 0, 0, 9}, net: 200, outs: []uint8{1}}
	vs.Assume(a.Net < 128)
	if vs.Choose("other", 2) == 1 {
		q.announce()
		vs.Advance(frame(fps))
		vs.Settle()
	}
	f := frameOf("f")
	vs.ClearSent()
	n := []int{1, 2, 7, 300}[vs.Choose("frames", 4)]
	same := vs.Choose("same", 2) == 1
	for i := 0; i < n; i++ {
		to := a
		if !same {
			to.Net, to.SubUni = a.Net^byte(i>>8), a.SubUni^byte(i)
		}
		c.SendDMXToAddress(f, to)
	}
	vs.Advance(frame(fps))
	vs.Settle()
	for _, p := range vs.Sent() {
		vs.Assert(isDMX(p), "a frame for an address nobody announces is sent")
		d := asDMX(p)
		vs.Assert(d.ip == q.ip && d.addr == q.out(0) && d.data[0] == 0 && d.data[100] == 0, "a frame for an address nobody announces is sent")
	}
	// now there is somebody
	p := peer{ip: [4]byte{2, 0, 0, 10}, net: a.Net, sub: a.SubUni >> 4, outs: []uint8{a.SubUni & 15}}
	p.announce()
	vs.ClearSent()
	vs.Advance(frame(fps))
	vs.Settle()
	var zero [512]byte
	got := 0
	for _, d := range dmxSent() {
		if d.ip == p.ip {
			got++
			vs.Assert(d.addr == a && vs.EqBytes(d.data, zero[:]), "a node is sent a frame submitted before it was known")
		}
	}
	vs.Assert(got == 1, "a node is not sent its first packet")
	vs.Reach("nobody")
	c.SendDMXToAddress(f, a)
	vs.ClearSent()
	vs.Advance(2 * frame(fps))
	vs.Settle()
	got = 0
	for _, d := range dmxSent() {
		if d.ip == p.ip {
			got++
			vs.Assert(vs.EqBytes(d.data, f[:]), "a submitted frame is not sent")
		}
	}
	vs.Assert(got >= 1, "a submitted frame is not sent")
	c.Stop()
}

// ---- C22 ----

type known struct {
	p    peer
	seen time.Duration
}

// tables checks the controller's tables against the announcements in force.
func tables(c *artnet.Controller, ks []known) {
	vs.Assert(len(c.Nodes) == len(ks), "the number of known nodes")
	nOut, nIn := 0, 0
	for _, k := range ks {
		var cn *artnet.ControlledNode
		for _, n := range c.Nodes {
			if ip4(n.Node.IP) == k.p.ip {
				vs.Assert(cn == nil, "a node is known twice")
				cn = n
			}
		}
		vs.Assert(cn != nil, "a node is not known")
		vs.Assert(len(cn.Node.OutputPorts) == len(k.p.outs) && len(cn.Node.InputPorts) == len(k.p.ins), "a node's configuration is not its latest")
		for i := range k.p.outs {
			vs.Assert(cn.Node.OutputPorts[i].Address == k.p.out(i), "a node's configuration is not its latest")
			vs.Assert(c.OutputAddress[k.p.out(i)] == cn, "an announced output is not mapped to its announcer")
			if first(k.p.outs, i) {
				nOut++
			}
		}
		for i := range k.p.ins {
			vs.Assert(cn.Node.InputPorts[i].Address == k.p.in(i), "a node's configuration is not its latest")
			vs.Assert(c.InputAddress[k.p.in(i)] == cn, "an announced input is not mapped to its announcer")
			if first(k.p.ins, i) {
				nIn++
			}
		}
	}
	vs.Assert(len(c.OutputAddress) == nOut, "the output table has entries nobody announces")
	vs.Assert(len(c.InputAddress) == nIn, "the input table has entries nobody announces")
}

// first: the i-th universe is not announced by an earlier port too.
func first(us []uint8, i int) bool {
	for j := 0; j < i; j++ {
		if (us[i]^us[j])&15 == 0 {
			return false
		}
	}
	return true
}

// expire applies the sweeps in (from, to].
func expire(ks []known, from, to time.Duration) []known {
	for s := 3 * time.Second; s <= to; s += 3 * time.Second {
		if s <= from {
			continue
		}
		var keep []known
		for _, k := range ks {
			if s-k.seen <= 7*time.Second {
				keep = append(keep, k)
			}
		}
		ks = keep
	}
	return ks
}

func H_C22_history() {
	vs.Bound("histories of 3 (thorough: 4) steps out of: reply of one of two (thorough: three) nodes with arbitrary universes in 3 (thorough: 4) port layouts and 3 (thorough: 5) style variants, a pause of 4 or 8 seconds")
	c := startCtrl(1)
	vs.Advance(500 * time.Millisecond)
	now := 500 * time.Millisecond
	var ks []known
	for s := 0; s < vs.Tier(3, 4); s++ {
		switch vs.Choose("step", 3) {
		case 0:
			p := peer{ip: [4]byte{2, 0, 0, byte(10 + vs.Choose("who", vs.Tier(2, 3)))}, net: 1, sub: 2}
			// nodes use universes of their own: no collisions between nodes
			base := (p.ip[3] - 10) * 4
			u := vs.U8("u")
			vs.Assume(u < 2)
			switch vs.Choose("ports", vs.Tier(3, 4)) {
			case 0:
				p.outs = []uint8{base + u}
			case 1:
				p.outs = []uint8{base + u, base + 2}
				p.ins = []uint8{base + 1 + u}
			case 2:
				p.ins = []uint8{base + u}
			}
			p.style = []uint8{0, 1, 2, 5, 6}[vs.Choose("style", vs.Tier(3, 5))]
			p.announce()
			if p.style == 0 || p.style == 1 && len(p.outs) > 0 {
				ks = heard(ks, p, now)
			}
		case 1:
			vs.Advance(4 * time.Second)
			ks = expire(ks, now, now+4*time.Second)
			now += 4 * time.Second
		case 2:
			vs.Advance(8 * time.Second)
			ks = expire(ks, now, now+8*time.Second)
			now += 8 * time.Second
		}
		vs.Settle()
		tables(c, ks)
	}
	vs.Reach("history")
	c.Stop()
}

// H_C22_collide: nodes that announce the same addresses, for a while or for good.
func H_C22_collide() {
	vs.Bound("two (thorough: up to three) nodes that announce the same or different ones of two universes as outputs, inputs or both, later on possibly none; 3 (thorough: 4) replies in any order with pauses of 0.3, 4 or (once) 8 seconds after each; an address belongs to the node that announced it last among those that still do; a frame to each universe afterwards")
	c := startCtrl(7)
	now := time.Duration(0)
	pass := func(ks []known, d time.Duration) []known {
		vs.Advance(d)
		vs.Settle()
		ks = expire(ks, now, now+d)
		now += d
		return ks
	}
	pauses := []time.Duration{300 * time.Millisecond, 4 * time.Second, 8 * time.Second}
	ks := pass(nil, 500*time.Millisecond)
	for s := 0; s < vs.Tier(3, 4); s++ {
		who := byte(s)
		if s > 1 {
			who = byte(vs.Choose("who", vs.Tier(2, 3)))
		}
		p := peer{ip: [4]byte{2, 0, 0, 10 + who}, net: 1, sub: 2}
		u := uint8(0)
		if s > 0 {
			u = uint8(vs.Choose("u", 2))
		}
		switch vs.Choose("ports", 3) {
		case 0:
			p.outs = []uint8{u}
		case 1:
			p.outs = []uint8{u, 1 - u}
			p.ins = []uint8{1 - u}
		case 2:
			if s < 2 {
				p.ins = []uint8{u}
			}
		}
		p.announce()
		ks = heard(ks, p, now)
		owners(c, ks)
		ks = pass(ks, pauses[vs.Choose("pause", []int{2, 3, 2, 2}[s])])
		owners(c, ks)
	}
	vs.ClearSent()
	var f [2][512]byte
	for u := range f {
		f[u] = [512]byte{0: byte(u), 1: vs.U8("f"), 2: 1}
		c.SendDMXToAddress(f[u], artnet.Address{Net: 1, SubUni: 0x20 | uint8(u)})
	}
	vs.Advance(frame(7))
	vs.Settle()
	ks = expire(ks, now, now+frame(7))
	n := 0
	for _, k := range ks {
		for i := range k.p.outs {
			if ks[owner(ks, true, k.p.outs[i])].p.ip == k.p.ip {
				n++
			}
		}
	}
	out := dmxSent()
	vs.Assert(len(out) == n, "not every announced output gets its data once")
	for _, d := range out {
		u := d.addr.SubUni & 15
		vs.Assert(vs.EqBytes(d.data, f[u][:]), "an output gets other data")
		vs.Assert(ks[owner(ks, true, u)].p.ip == d.ip, "data goes to another node than the address's")
	}
	vs.Reach("done")
	c.Stop()
}

// owner is the node an address belongs to: the one that announced it last among those that still do.
func owner(ks []known, out bool, u uint8) int {
	o := -1
	for j, k := range ks {
		us := k.p.ins
		if out {
			us = k.p.outs
		}
		for i := range us {
			if us[i] == u && (o < 0 || ks[o].seen <= k.seen) {
				o = j
			}
		}
	}
	return o
}

// owners checks the controller's tables against announcements that may collide.
func owners(c *artnet.Controller, ks []known) {
	vs.Assert(len(c.Nodes) == len(ks), "the number of known nodes")
	nOut, nIn := 0, 0
	for u := uint8(0); u < 2; u++ {
		a := artnet.Address{Net: 1, SubUni: 0x20 | u}
		if o := owner(ks, true, u); o >= 0 {
			nOut++
			vs.Assert(c.OutputAddress[a] != nil && ip4(c.OutputAddress[a].Node.IP) == ks[o].p.ip, "an announced output is not mapped to its announcer")
		}
		if o := owner(ks, false, u); o >= 0 {
			nIn++
			vs.Assert(c.InputAddress[a] != nil && ip4(c.InputAddress[a].Node.IP) == ks[o].p.ip, "an announced input is not mapped to its announcer")
		}
	}
	vs.Assert(len(c.OutputAddress) == nOut, "the output table has entries nobody announces")
	vs.Assert(len(c.InputAddress) == nIn, "the input table has entries nobody announces")
}

// heard adds or replaces what is known of a peer.
func heard(ks []known, p peer, now time.Duration) []known {
	for i := range ks {
		if ks[i].p.ip == p.ip {
			ks[i] = known{p, now}
			return ks
		}
	}
	return append(ks, known{p, now})
}

// H_C22_addresses: arbitrary IPs and addresses.
func H_C22_addresses() {
	vs.Bound("two replies with arbitrary announced IPs (equal or not), nets, sub-nets and universes, up to 2 outputs and 2 inputs each, equal or not, and otherwise arbitrary identities; no collisions between different nodes")
	c := startCtrl(1)
	var ks []known
	for s := 0; s < 2; s++ {
		p := peer{net: vs.U8("net"), sub: vs.U8("sub"), any: true}
		vs.Assume(p.sub < 16)
		vs.Fill("ip", &p.ip)
		n := vs.Choose("n", 3)
		for i := 0; i < n; i++ {
			p.outs = append(p.outs, vs.U8("out"))
			p.ins = append(p.ins, vs.U8("in"))
		}
		if s == 1 && !vs.Same(ks[0].p.ip, p.ip) {
			for i := range p.outs {
				for j := range ks[0].p.outs {
					vs.Assume(!vs.Same(p.out(i), ks[0].p.out(j)))
					vs.Assume(!vs.Same(p.in(i), ks[0].p.in(j)))
				}
			}
			ks = append(ks, known{p: p})
		} else {
			ks = []known{{p: p}}
		}
		// datagrams from the controller's own address are ignored, so send from another
		vs.Inject(wireOf(p.packet()), otherIP, 6454)
		vs.Settle()
		tables(c, ks)
	}
	vs.Reach("two")
	c.Stop()
}

// H_C22_many: more nodes than a handful.
func H_C22_many() {
	vs.Bound("5, 9 or 24 nodes of 1..4 outputs and 1 input, one of them (any) changing its ports, every second one staying in touch while the others expire, then all replying again")
	c := startCtrl(1)
	m := []int{5, 9, 24}[vs.Choose("nodes", 3)]
	var ks []known
	at := 100 * time.Millisecond
	vs.Advance(at)
	for i := 0; i < m; i++ {
		p := peer{ip: [4]byte{2, 0, 1, byte(i)}, net: uint8(i / 3), sub: uint8(i % 16), outs: []uint8{0, 5, 9, 15}[:1+i%4], ins: []uint8{uint8(i % 16)}}
		p.announce()
		ks = append(ks, known{p, at})
		tables(c, ks)
	}
	who := vs.Choose("who", 5) * (m - 1) / 4
	ks[who].p.outs, ks[who].p.ins = []uint8{vs.U8("out")}, nil
	ks[who].p.announce()
	tables(c, ks)
	var keep []known
	for s := 0; s < 2; s++ {
		vs.Advance(4500 * time.Millisecond)
		vs.Settle()
		keep = nil
		for i := range ks {
			if i%2 == 1 {
				ks[i].p.announce()
				keep = append(keep, ks[i])
			}
		}
	}
	vs.Advance(200 * time.Millisecond)
	vs.Settle()
	tables(c, keep)
	for i := range ks {
		ks[i].p.announce()
	}
	tables(c, ks)
	vs.Reach("many")
	c.Stop()
}

// H_C22_burst: all nodes reply at once, as they do to a poll.
func H_C22_burst() {
	vs.Bound("4, 15 or 40 nodes replying at once, twice, before, between or at the updates; any one goroutine running only when nothing else can")
	c := startCtrl(7)
	m := []int{4, 15, 40}[vs.Choose("nodes", 3)]
	ps := crowd(m, false)
	at := vs.Choose("at", 2) == 1
	vs.Starve()
	var ks []known
	for r := 0; r < 2; r++ {
		if at {
			vs.Advance(frame(7)) // the send queue is busy
		}
		ks = nil
		for i, p := range ps {
			if r == 1 && i%3 == 0 {
				p.ins = []uint8{3}
			}
			vs.Inject(wireOf(p.packet()), p.ip, 6454)
			ks = append(ks, known{p: p})
		}
		vs.Settle()
		tables(c, ks)
	}
	vs.Reach("burst")
	c.Stop()
}

// H_C22_latest: everything in a later reply of the same node replaces what was known.
func H_C22_latest() {
	vs.Bound("two replies of one node at arbitrary instants up to 1 s apart: OEM, version, status bits, MAC, bind address and index, names out of a few concrete ones, all arbitrary and changing; ports changing; one of all 7 styles for the second; with a second node present or not")
	c := startCtrl(1)
	other := vs.Choose("other", 2) == 1
	q := peer{ip: [4]byte{2, 0, 0, 9}, sub: 7, outs: []uint8{1}, ins: []uint8{2}}
	if other {
		q.announce()
	}
	base := peer{ip: [4]byte{2, 0, 0, 10}, net: 1, sub: 2}
	var want artnet.NodeConfig
	var cur peer
	for i := 0; i < 2; i++ {
		p := base
		if vs.Choose("ports", 2) == 0 {
			p.outs = []uint8{vs.U8("out")}
		} else {
			p.outs, p.ins = []uint8{1, 2}, []uint8{vs.U8("in")}
		}
		if i == 1 {
			p.style = uint8(vs.Choose("style", 7))
		}
		r := p.packet()
		r.Oem, r.VersionInfo, r.UBEAVersion = vs.U16("oem"), vs.U16("ver"), vs.U8("ubea")
		r.Status1, r.Status2 = code.Status1(vs.U8("st1")), code.Status2(vs.U8("st2"))
		vs.Fill("mac", &r.Macaddress)
		vs.Fill("bind", &r.BindIP)
		if !other {
			r.BindIndex = vs.U8("bindindex")
		}
		copy(r.ShortName[:], []string{"peer", "other"}[vs.Choose("name", 2)])
		copy(r.LongName[:], []string{"", "long"}[i])
		vs.Inject(wireOf(r), p.ip, 6454)
		vs.Settle()
		if p.style < 2 {
			want = artnet.ConfigFromArtPollReply(*r)
			cur = p
			if other {
				tables(c, []known{{p: cur}, {p: q}})
			} else {
				tables(c, []known{{p: cur}})
			}
		}
		if i == 0 {
			vs.Advance(time.Duration(vs.Int("pause", 0, 1000)) * time.Millisecond)
		}
	}
	vs.Reach("replied")
	if other {
		tables(c, []known{{p: cur}, {p: q}})
	} else {
		tables(c, []known{{p: cur}})
	}
	for _, n := range c.Nodes {
		if ip4(n.Node.IP) == cur.ip {
			vs.Assert(vs.EqBytes(snapConfig(n.Node), snapConfig(want)), "a node's configuration is not its latest")
			vs.Assert(ip4(n.UDPAddress.IP) == cur.ip && n.UDPAddress.Port == 6454, "a node is not addressed at its announced IP")
		}
	}
	c.Stop()
}

// ---- C23 ----

func H_C23_expiry() {
	vs.Bound("a node (with an output, an input or no port) or a controller with an output, and an input or not, replying at 0.02, 1.32 or 2.92 s and again 0..1 times (thorough: ..2) after a pause of 0.4, 3, 6.9, 7.2 or 8.9 s, then silent for any time up to 12 s in steps of 1 ms, then replying again; every reply with an arbitrary identity otherwise")
	c := startCtrl(1)
	now := 20500*time.Microsecond + time.Duration(vs.Choose("first", 3))*1300*time.Millisecond
	if now > 2*time.Second {
		now += 300 * time.Millisecond
	}
	vs.Advance(now)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}, id: true}
	switch vs.Choose("ports", 5) {
	case 1:
		p.outs, p.ins = nil, []uint8{1}
	case 2:
		p.outs = nil
	case 3:
		p.style = 1
	case 4:
		p.style, p.ins = 1, []uint8{3}
	}
	p.announce()
	ks := []known{{p, now}}
	n := vs.Choose("again", vs.Tier(2, 3))
	for i := 0; i < n; i++ {
		d := []time.Duration{400, 3000, 6900, 7200, 8900}[vs.Choose("pause", 5)] * time.Millisecond
		vs.Advance(d)
		ks = expire(ks, now, now+d)
		now += d
		vs.Settle()
		tables(c, ks)
		p.announce()
		ks = []known{{p, now}}
		tables(c, ks)
	}
	d := time.Duration(vs.Int("silence", 0, 12000)) * time.Millisecond
	vs.Advance(d)
	ks = expire(ks, now, now+d)
	now += d
	vs.Settle()
	tables(c, ks)
	if len(ks) == 0 {
		vs.Reach("dropped")
	} else {
		vs.Reach("kept")
	}
	p.announce()
	ks = []known{{p, now}}
	tables(c, ks)
	if len(p.outs) == 0 {
		c.Stop()
		return
	}
	// data flows (again)
	vs.ClearSent()
	f := [512]byte{5: vs.U8("f")}
	c.SendDMXToAddress(f, p.out(0))
	vs.Advance(time.Second)
	vs.Settle()
	out := dmxSent()
	vs.Assert(len(out) == 1 && out[0].ip == p.ip && out[0].addr == p.out(0), "a node that replied gets no data")
	vs.Assert(vs.EqBytes(out[0].data, f[:]), "a node that replied gets other data")
	c.Stop()
}

// H_C23_boundary: the seven seconds exactly.
func H_C23_boundary() {
	vs.Bound("a node last heard of 7 s plus or minus an arbitrary 0..1000000 ns before a sweep, for the first time or after a reply an arbitrary 0..900 ms (steps of 1 ms), 1.7 or 4.5 s earlier, with a second one in touch")
	c := startCtrl(1)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}, ins: []uint8{2}}
	q := peer{ip: [4]byte{2, 0, 0, 11}, outs: []uint8{3}}
	first := vs.Choose("order", 2) == 0
	k := time.Duration(vs.Choose("sweep", vs.Tier(2, 4)))
	at := 2*time.Second + 3*k*time.Second - time.Millisecond
	e := time.Duration(0)
	switch vs.Choose("earlier", 3) {
	case 1:
		e = time.Duration(vs.Int("e", 0, 900)) * time.Millisecond
	case 2:
		e = []time.Duration{1700 * time.Millisecond, 4500 * time.Millisecond, 4500 * time.Millisecond, 4500 * time.Millisecond}[k]
	}
	vs.Advance(at - e)
	if e > 0 {
		p.announce()
	}
	vs.Advance(e)
	d := time.Duration(vs.Int("d", 0, 2000000))
	vs.Assume(d%1000 != 0 || d == 1000000)
	vs.Advance(d)
	if first {
		q.announce()
		p.announce()
	} else {
		p.announce()
		q.announce()
	}
	vs.Advance(9*time.Second + 3*k*time.Second - at - d - 50*time.Millisecond)
	vs.Settle()
	q.announce()
	tables(c, []known{{p: p}, {p: q}})
	vs.Advance(100 * time.Millisecond)
	vs.Settle()
	if d >= time.Millisecond {
		vs.Reach("kept")
		tables(c, []known{{p: p}, {p: q}})
	} else {
		vs.Reach("dropped")
		tables(c, []known{{p: q}})
	}
	c.Stop()
}

// H_C23_long: nodes that keep in touch for a long time.
func H_C23_long() {
	vs.Bound("a node replying every 1.1, 3, 5 or 6.6 s for 40 (thorough: 300) s, alone or with a second one replying at the other pace, then silent; a node or controller at an arbitrary sub-net, every reply with an arbitrary identity otherwise, under one name or changing names")
	c := startCtrl(1)
	every := []time.Duration{1100, 3000, 5000, 6600}[vs.Choose("every", 4)] * time.Millisecond
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}, ins: []uint8{2}}.wild()
	q := peer{ip: [4]byte{2, 0, 0, 11}, net: p.net, sub: p.sub, outs: []uint8{3}}
	two := vs.Choose("two", 2) == 1
	now := 300500 * time.Microsecond
	vs.Advance(now)
	var ks []known
	end := time.Duration(vs.Tier(40, 300)) * time.Second
	name := vs.Choose("name", 3)
	for i := 0; now < end; i++ {
		p.name = []string{"", "a much longer name", "x"}[i*name%3]
		p.announce()
		ks = upsert(ks, p, now)
		if two && i%2 == 0 && every <= 3*time.Second {
			q.announce()
			ks = upsert(ks, q, now)
		}
		vs.Settle()
		tables(c, ks)
		vs.Advance(every)
		ks = expire(ks, now, now+every)
		now += every
		vs.Settle()
		tables(c, ks)
	}
	vs.Reach("kept")
	for len(ks) > 0 {
		vs.Advance(1200 * time.Millisecond)
		ks = expire(ks, now, now+1200*time.Millisecond)
		now += 1200 * time.Millisecond
		vs.Settle()
		tables(c, ks)
	}
	vs.Reach("dropped")
	c.Stop()
}

func upsert(ks []known, p peer, now time.Duration) []known {
	for i := range ks {
		if ks[i].p.ip == p.ip {
			ks[i].seen = now
			return ks
		}
	}
	return append(ks, known{p, now})
}

// H_C23_crowd: some of many nodes fall silent.
func H_C23_crowd() {
	vs.Bound("5, 8 or 19 nodes of 1..4 outputs; every second, every third, all or the first or last 3 of them fall silent after 0.3 or 3.3 s, the others reply every 2.2 s; a frame to each first output or not; swept over 15 s")
	c := startCtrl([]int{3, 7}[vs.Choose("fps", 2)])
	ps := crowd([]int{5, 8, 19}[vs.Choose("nodes", 3)], false)
	who := vs.Choose("silent", 5)
	late := vs.Choose("late", 2) == 1
	frames := vs.Choose("frames", 2) == 1
	now := time.Duration(0)
	var ks []known
	for s := 0; s < 8; s++ {
		at := 300*time.Millisecond + time.Duration(s)*2200*time.Millisecond
		if s == 1 {
			at += 800 * time.Millisecond
		}
		vs.Advance(at - now)
		ks = expire(ks, now, at)
		now = at
		vs.Settle()
		tables(c, ks)
		for i, p := range ps {
			silent := []bool{i%2 == 0, i%3 == 1, true, i < 3, i >= len(ps)-3}[who]
			if !silent || s == 0 || s == 1 && late {
				p.announce()
				ks = heard(ks, p, now)
				if frames && s < 3 {
					c.SendDMXToAddress([512]byte{1: byte(s)}, p.out(0))
				}
			}
		}
		tables(c, ks)
	}
	vs.Reach("swept")
	c.Stop()
}

// H_C23_several: which of several nodes expire.
func H_C23_several() {
	vs.Bound("2..4 nodes replying at times 0.2, 2.4, 4.6 s or staying in touch, in any combination, with 2 or 4 outputs, each with an input at the address of the next one's output; swept over 12 s")
	c := startCtrl(1)
	m := 2 + vs.Choose("nodes", vs.Tier(2, 3))
	var ks []known
	var ps []peer
	var when []int
	for i := 0; i < m; i++ {
		outs := []uint8{uint8(2 * i), uint8(2*i + 1)}
		if i == m-1 {
			outs = append(outs, 14, 15)
		}
		ps = append(ps, peer{ip: [4]byte{2, 0, 0, byte(10 + i)}, outs: outs, ins: []uint8{uint8((2*i + 2) % (2 * m))}})
		when = append(when, vs.Choose("when", 4))
	}
	now := time.Duration(0)
	for s := 0; s < 6; s++ {
		at := 200*time.Millisecond + time.Duration(s)*2200*time.Millisecond
		vs.Advance(at - now)
		ks = expire(ks, now, at)
		now = at
		vs.Settle()
		tables(c, ks)
		for i, p := range ps {
			if when[i] == s || when[i] == 3 {
				p.announce()
				j := -1
				for q := range ks {
					if ks[q].p.ip == p.ip {
						j = q
					}
				}
				if j >= 0 {
					ks[j].seen = now
				} else {
					ks = append(ks, known{p, now})
				}
			}
		}
		vs.Settle()
		tables(c, ks)
	}
	vs.Reach("swept")
	c.Stop()
}

// ---- C24 ----

func follows(a, b uint8) bool {
	return vs.And(b != 0, vs.Or(b == a+1, vs.And(a == 255, b == 1)))
}

// H_C24_step: from any sequence number the next packets follow.
func H_C24_step() {
	vs.Bound("every current sequence number of two nodes with 2 and 1 outputs; 2 (thorough: 4) refresh updates each; at an arbitrary sub-net, the first a node or a controller")
	const fps = 3 // every update is a refresh
	c := startCtrl(fps)
	a := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2}}.wild()
	b := peer{ip: [4]byte{2, 0, 0, 11}, net: a.net, sub: a.sub, outs: []uint8{3}, id: true}
	a.announce()
	b.announce()
	vs.Advance(frame(fps))
	vs.Settle()
	first := dmxSent()
	vs.Assert(len(first) == 3, "not every output is sent at the first update")
	sa, sb := uint8(0), uint8(0)
	for _, d := range first {
		if d.ip == a.ip {
			vs.Assert(follows(sa, d.seq), "the first sequence numbers do not run 1, 2")
			sa = d.seq
		} else {
			vs.Assert(follows(sb, d.seq), "the first sequence number is not 1")
			sb = d.seq
		}
	}
	// any later time
	sa, sb = vs.U8("sa"), vs.U8("sb")
	vs.Assume(vs.And(sa != 0, sb != 0))
	for _, n := range c.Nodes {
		if ip4(n.Node.IP) == a.ip {
			n.Sequence = sa
		} else {
			n.Sequence = sb
		}
	}
	for u := 0; u < vs.Tier(2, 4); u++ {
		vs.ClearSent()
		vs.Advance(frame(fps))
		vs.Settle()
		out := dmxSent()
		vs.Assert(len(out) == 3, "not every output is refreshed")
		for _, d := range out {
			if d.ip == a.ip {
				vs.Assert(follows(sa, d.seq), "a sequence number does not follow its predecessor")
				sa = d.seq
			} else {
				vs.Assert(follows(sb, d.seq), "a sequence number does not follow its predecessor")
				sb = d.seq
			}
		}
	}
	vs.Reach("stepped")
	c.Stop()
}

// H_C24_wrap: a whole cycle as seen on the wire.
func H_C24_wrap() {
	vs.Bound("one node, 4 outputs, 70 refresh updates (280 packets: more than a whole cycle), the reply repeated now and then")
	const fps = 3
	c := startCtrl(fps)
	a := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2, 3, 4}}
	a.announce()
	var s uint8
	n := 0
	for u := 0; u < 70; u++ {
		if u%5 == 4 {
			a.announce()
		}
		vs.ClearSent()
		vs.Advance(frame(fps))
		vs.Settle()
		for _, d := range dmxSent() {
			vs.Assert(follows(s, d.seq), "a sequence number does not follow its predecessor")
			s = d.seq
			n++
		}
	}
	vs.Reach("wrapped")
	vs.Assert(n >= 256, "no full cycle of packets")
	c.Stop()
}

// H_C24_changed: sequence numbers run on across submissions and changed announcements.
func H_C24_changed() {
	vs.Bound("one node of 1..2 outputs, 4 (thorough: 6) steps of: frame to an output, update, changed announcement, 1.3 s passing")
	const fps = 7
	c := startCtrl(fps)
	a := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}}.wild()
	a.any = a.style == 0
	a.announce()
	layout := 0
	for i := 0; i < vs.Tier(4, 6); i++ {
		switch vs.Choose("step", 4) {
		case 0:
			if len(a.outs) > 0 {
				c.SendDMXToAddress([512]byte{0: vs.U8("f")}, a.out(0))
			}
		case 1:
			vs.Advance(frame(fps))
			vs.Settle()
		case 2:
			if layout++; layout == 4 {
				layout = 0
			}
			a.outs = [][]uint8{{1}, {1, 2}, {2}, {}}[layout]
			a.announce()
		case 3:
			vs.Advance(1300 * time.Millisecond)
			vs.Settle()
			a.announce()
		}
	}
	a.outs = []uint8{1}
	a.announce()
	vs.Advance(3 * frame(fps))
	vs.Settle()
	var s uint8
	for _, d := range dmxSent() {
		vs.Assert(follows(s, d.seq), "a sequence number does not follow its predecessor")
		s = d.seq
	}
	vs.Reach("done")
	vs.Assert(s != 0, "nothing was sent")
	c.Stop()
}

// H_C24_wide: many nodes, each with numbers of its own.
func H_C24_wide() {
	vs.Bound("2, 7 or 18 nodes of 1..4 outputs, updated 12 (thorough: 100) times with frames to some; any one goroutine running only when nothing else can")
	const fps = 7
	c := startCtrl(fps)
	ps := crowd([]int{2, 7, 18}[vs.Choose("nodes", 3)], false)
	for _, p := range ps {
		p.announce()
	}
	vs.Starve()
	for r := 0; r < vs.Tier(12, 100); r++ {
		for i, p := range ps {
			if (i+r)%3 == 0 {
				c.SendDMXToAddress([512]byte{1: byte(r)}, p.out(r%len(p.outs)))
			}
			if r%13 == 12 {
				p.announce()
			}
		}
		vs.Advance(frame(fps))
		vs.Settle()
	}
	sent := dmxSent()
	for _, p := range ps {
		var s uint8
		for _, d := range sent {
			if d.ip == p.ip {
				vs.Assert(follows(s, d.seq), "a sequence number does not follow its predecessor")
				s = d.seq
			}
		}
		vs.Assert(s != 0, "nothing was sent")
	}
	vs.Reach("done")
	c.Stop()
}

// ---- C25 ----

func H_C25_refresh() {
	vs.Bound("frame rates 1, 3, 7, 25, 44 (thorough: and 1000); a node of 1, 2 or 4 outputs announced at an arbitrary instant of the first 400 ms, an arbitrary frame at an arbitrary later instant (steps of 1 ms), watched for 1.2 s")
	fps := []int{3, 7, 25, 44, 1, 1000}[vs.Choose("fps", vs.Tier(5, 6))]
	tick := int64(frame(fps))
	c := startCtrl(fps)
	span := 1200 * time.Millisecond
	if fps == 1 {
		span = 4500 * time.Millisecond
	}
	if fps == 1000 {
		span = 300 * time.Millisecond
	}
	off := 133 * time.Microsecond // keep off the ticks
	early, later := 400, vs.Tier(600, 1500)
	if fps == 1000 {
		early, later = 3, 20
	}
	d0 := time.Duration(vs.Int("announced", 0, early))*time.Millisecond + off
	vs.Advance(d0)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2, 3, 4}[:[]int{1, 2, 4}[vs.Choose("outs", 3)]]}
	p.announce()
	t0 := vs.Clock()
	d1 := time.Duration(vs.Int("frame", 0, later)) * time.Millisecond
	vs.Advance(d1)
	f := [512]byte{0: vs.U8("f"), 511: 1}
	c.SendDMXToAddress(f, p.out(0))
	t1 := vs.Clock()
	vs.Advance(span)
	vs.Settle()
	end := vs.Clock()
	out := dmxSent()
	var zero [512]byte
	for o := range p.outs {
		var last int64
		changed := false
		for _, d := range out {
			if d.addr != p.out(o) {
				continue
			}
			vs.Assert(d.at%tick == 0, "a packet is sent between update ticks")
			if last == 0 {
				vs.Assert(d.at-t0 <= tick, "an output is not sent at the first update after discovery")
			} else {
				vs.Assert(d.at > last, "an output is sent twice at one update")
				due := (last+int64(250*time.Millisecond))/tick*tick + tick // the first tick more than 250 ms later
				vs.Assert(d.at <= due, "an output is not refreshed in time")
			}
			if o == 0 && d.at >= t1 {
				if !changed {
					vs.Assert(d.at-t1 <= tick, "changed data is not sent at the next update")
					changed = true
				}
				vs.Assert(vs.EqBytes(d.data, f[:]), "an output does not carry the submitted channels")
			} else {
				vs.Assert(vs.EqBytes(d.data, zero[:]), "an output without data is not sent as zero")
			}
			last = d.at
		}
		vs.Assert(last != 0, "an output is never sent")
		vs.Assert(o != 0 || changed, "changed data is not sent")
		due := (last+int64(250*time.Millisecond))/tick*tick + tick
		vs.Assert(due > end, "an output is no longer refreshed")
	}
	vs.Reach("watched")
	c.Stop()
}

// H_C25_long: a node is refreshed as long as it is known.
func H_C25_long() {
	vs.Bound("frame rates 3 and 7; nodes of 1..2 outputs at 1..3 addresses of an arbitrary net for 20 s, the first silent from the start (known until 9 s), silent after 5 s (until 15 s), or in touch; a frame at 0.6 s or never; a dropped one discovered again at the end")
	fps := []int{3, 7}[vs.Choose("fps", 2)]
	tick := int64(frame(fps))
	c := startCtrl(fps)
	var ps []peer
	at := vs.U8("net")
	vs.Assume(at < 128)
	m := 1 + vs.Choose("nodes", 3)
	for i := 0; i < m; i++ {
		ps = append(ps, peer{ip: [4]byte{2, 0, 0, 10 + uint8(i)}, net: at, sub: uint8(i), id: true, outs: []uint8{1, 2}[:1+(i+1)%2]})
		ps[i].announce()
	}
	until := 20 * time.Second
	first := vs.Choose("first", 3)
	if first == 0 {
		until = 9 * time.Second
	} else if first == 1 {
		until = 15 * time.Second
	}
	vs.Advance(600 * time.Millisecond)
	if vs.Choose("frame", 2) == 1 {
		c.SendDMXToAddress([512]byte{1}, ps[0].out(0))
	}
	for t := 600 * time.Millisecond; t < 20*time.Second; {
		vs.Advance(2200 * time.Millisecond)
		t += 2200 * time.Millisecond
		vs.Settle()
		for i := range ps {
			if i > 0 || first == 2 || first == 1 && t < 6*time.Second {
				ps[i].announce()
			}
		}
	}
	out := dmxSent()
	for i, p := range ps {
		end := int64(20 * time.Second)
		if i == 0 {
			end = int64(until)
		}
		for o := range p.outs {
			last := int64(0)
			for _, d := range out {
				if d.addr != p.out(o) || d.at >= end {
					continue
				}
				vs.Assert(d.ip == p.ip, "an output is sent to another node")
				vs.Assert(d.at > last && d.at%tick == 0, "an output is sent twice at one update or off the ticks")
				vs.Assert(last == 0 || d.at <= (last+int64(250*time.Millisecond))/tick*tick+tick, "an output is not refreshed in time")
				last = d.at
			}
			vs.Assert(last != 0 && (last+int64(250*time.Millisecond))/tick*tick+tick >= end, "an output of a known node is no longer refreshed")
		}
	}
	vs.Reach("watched")
	if first != 2 {
		// known again: as new
		vs.ClearSent()
		ps[0].announce()
		vs.Advance(frame(fps))
		vs.Settle()
		n := 0
		var zero [512]byte
		for _, d := range dmxSent() {
			if d.ip == ps[0].ip {
				n++
				vs.Assert(vs.EqBytes(d.data, zero[:]), "a node discovered again is not sent zeros first")
			}
		}
		vs.Assert(n == len(ps[0].outs), "a node discovered again is not sent every output at the first update")
	}
	c.Stop()
}

// H_C25_changes: whatever is submitted or announced between two updates, the second
// update sends the latest frame if it is not the one last sent.
func H_C25_changes() {
	vs.Bound("frame rates 7, 25, 150 and 1000; a node or controller at an arbitrary sub-net; 2 (thorough: 3) events at arbitrary instants up to 170 (at the high rates 17) ms apart, each an arbitrary frame or a repeated announcement of the node; watched at every update until 300 (30) ms after the last")
	fps := []int{7, 25, 150, 1000}[vs.Choose("fps", 4)]
	unit := time.Millisecond
	if fps > 25 {
		unit = 100 * time.Microsecond
	}
	tick := int64(frame(fps))
	c := startCtrl(fps)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}}.wild()
	p.announce()
	vs.Advance(frame(fps) + 133*time.Microsecond) // past the first packet
	type sub struct {
		at int64
		f  [512]byte
	}
	subs := []sub{{at: -1}}
	for i := 0; i < vs.Tier(2, 3); i++ {
		vs.Advance(time.Duration(vs.Int("d", 0, 170)) * unit)
		if vs.Choose("reply", 2) == 1 {
			p.announce()
			continue
		}
		f := [512]byte{0: vs.U8("f"), 511: vs.U8("g")}
		c.SendDMXToAddress(f, p.out(0))
		subs = append(subs, sub{vs.Clock(), f})
	}
	vs.Advance(300 * unit)
	vs.Settle()
	end := vs.Clock()
	out := dmxSent()
	vs.Reach("watched")
	var last [512]byte // what was last sent
	k := 0
	for t := tick; t <= end; t += tick {
		cur := subs[0].f
		for _, s := range subs {
			if s.at <= t {
				cur = s.f
			}
		}
		if k < len(out) && out[k].at == t {
			vs.Assert(vs.EqBytes(out[k].data, cur[:]), "an update does not carry the latest submitted channels")
			last = cur
			k++
		}
		vs.Assert(last[0] == cur[0] && last[511] == cur[511], "changed data is not sent at the next update")
	}
	vs.Assert(k == len(out), "a packet is sent between update ticks")
	c.Stop()
}

// H_C25_wide: many universes.
func H_C25_wide() {
	vs.Bound("3, 9 or 20 nodes of 4 outputs, known before the first update or from then on, watched for 7 updates at 7 frames per second, a frame to each at once before the third; any one goroutine running only when nothing else can")
	const fps = 7
	c := startCtrl(fps)
	ps := crowd([]int{3, 9, 20}[vs.Choose("nodes", 3)], true)
	vs.Starve()
	for _, p := range ps {
		p.announce()
	}
	var last [20][4]int
	for t := 1; t <= 7; t++ {
		if t == 3 {
			for _, p := range ps {
				for o := range p.outs {
					c.SendDMXToAddress([512]byte{1: 7}, p.out(o))
				}
			}
		}
		vs.ClearSent()
		vs.Advance(frame(fps))
		vs.Settle()
		sent := dmxSent()
		n := 0
		for i, p := range ps {
			for o := range p.outs {
				k := 0
				for _, d := range sent {
					if d.addr == p.out(o) {
						k++
						vs.Assert((d.data[1] == 7) == (t >= 3), "an update does not carry the latest channels")
					}
				}
				n += k
				vs.Assert(k <= 1, "a universe is sent more than once per update")
				vs.Assert(k == 1 || t != 1, "an output is not sent at its first update")
				vs.Assert(k == 1 || t != 3, "changed data is not sent at the next update")
				if k == 1 {
					last[i][o] = t
				}
				vs.Assert(t-last[i][o] < 2, "a universe is not refreshed in time")
			}
		}
		vs.Assert(n == len(sent), "a packet for an address nobody announces")
	}
	vs.Reach("watched")
	c.Stop()
}

// H_C25_rates: every usual frame rate.
func H_C25_rates() {
	vs.Bound("every frame rate of 1..60 (thorough: ..300) and 61, 75, 99, 100, 120, 144, 200, 240, 250, 333, 500, 999; a node of 2 outputs announced after 30 ms, a frame to one of them 320 (from 101 frames per second: 50) ms, watched for 1.3 s (4.5 s up to 3, 0.28 s from 151 frames per second)")
	m := vs.Tier(60, 300)
	fps := 1 + vs.Choose("fps", m+12)
	if fps > m {
		fps = []int{61, 75, 99, 100, 120, 144, 200, 240, 250, 333, 500, 999}[fps-m-1]
	}
	tick := int64(frame(fps))
	c := startCtrl(fps)
	vs.Advance(30500 * time.Microsecond)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2}}
	p.announce()
	gap := 290 * time.Millisecond
	if fps > 100 {
		gap = 20 * time.Millisecond
	}
	vs.Advance(gap)
	t1 := vs.Clock()
	c.SendDMXToAddress([512]byte{7: 9}, p.out(1))
	span := 1300 * time.Millisecond
	if fps < 4 {
		span = 4500 * time.Millisecond
	}
	if fps > 150 {
		span = 280 * time.Millisecond
	}
	vs.Advance(span)
	vs.Settle()
	end := vs.Clock()
	out := dmxSent()
	for o := range p.outs {
		due := (int64(30500*time.Microsecond)/tick + 1) * tick // when the next packet must be there at the latest
		last := int64(0)
		for _, d := range out {
			if d.addr != p.out(o) {
				continue
			}
			vs.Assert(d.at > last && d.at%tick == 0, "an output is sent twice at one update or off the ticks")
			vs.Assert(d.at <= due, "an output is not sent or refreshed in time")
			if n := (t1/tick + 1) * tick; o == 1 && last < n && d.at >= n {
				vs.Assert(d.at == n, "changed data is not sent at the next update")
			}
			vs.Assert((d.data[7] == 9) == (o == 1 && d.at > t1), "an output does not carry its channels")
			last = d.at
			due = (last+int64(250*time.Millisecond))/tick*tick + tick
		}
		vs.Assert(due > end, "an output is no longer refreshed")
	}
	vs.Reach("watched")
	c.Stop()
}

// H_C25_fast: frame rates beyond what a network carries.
func H_C25_fast() {
	vs.Bound("frame rates 20000, 31622, 31623, 100000, 1000000 and 1000000000; a node or controller at an arbitrary sub-net; three arbitrary frames, each 0, 1 or 2 ticks after the previous packet, watched tick by tick")
	fps := []int{20000, 31622, 31623, 100000, 1000000, 1000000000}[vs.Choose("fps", 6)]
	c := startCtrl(fps)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}}.wild()
	p.announce()
	vs.Advance(frame(fps))
	vs.Settle()
	vs.Assert(len(dmxSent()) == 1, "an announced output is not sent at the first update")
	for i := 0; i < 3; i++ {
		w := vs.Choose("wait", 3)
		vs.Advance(time.Duration(w) * frame(fps))
		vs.Settle()
		vs.ClearSent()
		f := [512]byte{0: vs.U8("f"), 511: byte(i)}
		c.SendDMXToAddress(f, p.out(0))
		vs.Advance(frame(fps))
		vs.Settle()
		out := dmxSent()
		vs.Assert(len(out) == 1, "changed data is not sent once at the next update")
		vs.Assert(vs.EqBytes(out[0].data, f[:]), "an update does not carry the latest submitted channels")
	}
	vs.Reach("watched")
	c.Stop()
}

// ---- C26 ----

func H_C26_polls() {
	vs.Bound("no nodes; default or arbitrary broadcast address; an arbitrary instant in the first 40 s (thorough: 100 s), a poll from elsewhere now and then")
	var opts []artnet.Option
	ip, port := bcast, 6454
	if vs.Choose("addr", 2) == 1 {
		b := vs.BytesN("bcast", 4)
		port = vs.Int("port", 1, 65535)
		opts = append(opts, artnet.BroadcastAddr(net.UDPAddr{IP: net.IP(b), Port: port}))
		copy(ip[:], b)
	}
	c := newCtrl(1, opts...)
	vs.Assert(c.Start() == nil, "start")
	t := time.Duration(vs.Int("t", 0, vs.Tier(400, 1000)))*100*time.Millisecond + 50*time.Millisecond
	vs.Advance(t)
	vs.Settle()
	out := vs.Sent()
	n := 1 + int(t/(3*time.Second))
	vs.Reach("polled")
	vs.Assert(len(out) == 2*n, "the number of packets sent is not one poll and one reply per three seconds")
	want := replyOf(artnet.NodeConfig{Name: "ctrl", Type: code.StController, IP: net.IP{2, 0, 0, 1}})
	for i := 0; i < n; i++ {
		for j := 0; j < 2; j++ {
			p := out[2*i+j]
			vs.Assert(sentTo(p, ip, port), "a poll or reply is not sent to the broadcast address")
			vs.Assert(p.At == int64(i)*int64(3*time.Second), "a poll or reply is not sent every three seconds")
		}
		b := out[2*i].Data
		vs.Assert(len(b) == 14 && goodHead(b, 0x2000), "the first packet is not a well-formed poll")
		vs.Assert(vs.EqBytes(out[2*i+1].Data, want), "a poll is not followed by the controller's own reply")
	}
	c.Stop()
	vs.ClearSent()
	vs.Advance(7 * time.Second)
	vs.Settle()
	vs.Assert(len(vs.Sent()) == 0, "a stopped controller still polls")
}

// H_C26_answer: a controller answers polls of others as a node does.
func H_C26_busy() {
	vs.Bound("a controller with 1, 3 or 12 known nodes of 4 (1) outputs, in touch or not, for 7 (thorough: 13) s: polls and replies stay on schedule")
	c := newCtrl(7)
	vs.Assert(c.Start() == nil, "start")
	vs.Settle()
	var ps []peer
	k := []int{1, 3, 12}[vs.Choose("nodes", 3)]
	for i := 0; i < k; i++ {
		ps = append(ps, peer{ip: [4]byte{2, 0, 0, 10 + uint8(i)}, sub: uint8(i), outs: []uint8{1, 2, 3, 4}})
		if k == 12 {
			ps[i].outs = ps[i].outs[:1]
		}
		ps[i].announce()
	}
	touch := vs.Choose("touch", 2) == 1
	for i := 0; i < 2; i++ {
		vs.Advance(time.Duration(vs.Tier(3250, 6500)) * time.Millisecond)
		vs.Settle()
		for j := range ps {
			if touch {
				ps[j].announce()
			}
		}
	}
	n, m := 0, 0
	for _, q := range vs.Sent() {
		if isDMX(q) {
			continue
		}
		vs.Assert(sentTo(q, bcast, 6454), "a poll or reply is not broadcast")
		if goodPoll(q.Data) {
			vs.Assert(q.At == int64(n)*int64(3*time.Second), "a poll is not on schedule")
			n++
		} else {
			vs.Assert(len(q.Data) == 239 && q.Data[200] == 1, "the controller announces another style")
			m++
		}
	}
	vs.Reach("done")
	vs.Assert(n == vs.Tier(3, 5) && m == n, "the number of polls and replies")
	c.Stop()
}

// ---- C28 ----

func H_C28_rate() {
	vs.Bound("all frame rates; update ticks watched for rates 1..50 and out-of-range values")
	fps := int(vs.U64("fps"))
	ok := fps >= 1 && fps <= 1000000000
	var err error
	c := artnet.NewController("ctrl", net.IP{2, 0, 0, 1}, log())
	err = c.SetOption(artnet.MaxFPS(fps))
	vs.Assert((err == nil) == ok, "a frame rate is accepted or refused wrongly")
	vs.Reach("set")
}

// H_C28_start: whatever the rate, starting does not panic, and updates run at it.
func H_C28_start() {
	vs.Bound("rates 50, 99, 1000, 30000, 999999, 1000000, 20000000 and 1000000000, arbitrary rates of 1..10 (thorough: ..40) and any non-positive or too large rate; a node with one output watched for its first packet")
	var fps int
	tick := int64(time.Millisecond)
	switch vs.Choose("class", 3) {
	case 0:
		fps = vs.Conc(vs.Int("fps", 1, vs.Tier(10, 40)))
		tick = int64(frame(fps))
	case 1:
		fps = int(vs.U64("fps"))
		vs.Assume(fps < 1 || fps > 1000000000)
	case 2:
		fps = []int{50, 99, 1000, 30000, 999999, 1000000, 20000000, 1000000000}[vs.Choose("which", 8)]
		tick = int64(frame(fps))
	}
	c := artnet.NewController("ctrl", net.IP{2, 0, 0, 1}, log(), artnet.MaxFPS(fps))
	vs.Assert(c.Start() == nil, "start")
	vs.Settle()
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}}
	p.announce()
	vs.ClearSent()
	vs.Advance(time.Duration(tick) - 1)
	vs.Settle()
	vs.Assert(len(dmxSent()) == 0, "an update runs before the frame interval has passed")
	vs.Advance(2)
	vs.Settle()
	vs.Reach("updated")
	vs.Assert(len(dmxSent()) == 1, "no update after one frame interval")
	c.Stop()
}

func H_C28_addresses() {
	vs.Bound("arbitrary listen and broadcast IPv4 addresses and ports, given in any combination and order, to nodes and controllers")
	l, b := vs.BytesN("listen", 4), vs.BytesN("bcast", 4)
	lp, bp := vs.Int("lport", 0, 65535), vs.Int("bport", 1, 65535)
	var lip, bip [4]byte
	copy(lip[:], l)
	copy(bip[:], b)
	wantL, wantLP, wantB, wantBP := [4]byte{}, 6454, bcast, 6454
	how := vs.Choose("listen", 3)
	bc := vs.Choose("bcast", 2) == 1
	if how == 1 {
		wantL, wantLP = lip, lp
	} else if how == 2 {
		wantL = lip
	}
	if bc {
		wantB, wantBP = bip, bp
	}
	la, ba := net.UDPAddr{IP: net.IP(l), Port: lp}, net.UDPAddr{IP: net.IP(b), Port: bp}
	var stop func()
	sent := 2
	if vs.Choose("what", 2) == 0 {
		var o []artnet.NodeOption
		if bc {
			o = append(o, artnet.NodeBroadcastAddress(ba))
		}
		if how == 1 {
			o = append(o, artnet.NodeListenAddress(la))
		} else if how == 2 {
			o = append(o, artnet.NodeListenIP(net.IP(l)))
		}
		n := newNode(o...)
		vs.Assert(n.Start() == nil, "start")
		vs.Inject(pollDatagram(), otherIP, 6454)
		sent = 1
		stop = n.Stop
		vs.Reach("node")
	} else {
		var o []artnet.Option
		if how == 1 {
			o = append(o, artnet.ListenAddress(la))
		} else if how == 2 {
			o = append(o, artnet.ListenIP(net.IP(l)))
		}
		if bc {
			o = append(o, artnet.BroadcastAddr(ba))
		}
		c := newCtrl(1, o...)
		vs.Assert(c.Start() == nil, "start")
		stop = c.Stop
		vs.Reach("controller")
	}
	vs.Settle()
	ls := vs.Listens()
	vs.Assert(len(ls) == 1, "not exactly one socket is opened")
	var got [4]byte
	copy(got[:], ls[0].IP)
	vs.Assert(vs.And(vs.Same(got, wantL), ls[0].Port == wantLP), "not the configured address is listened on")
	out := vs.Sent()
	vs.Assert(len(out) == sent, "the number of packets sent")
	for _, p := range out {
		vs.Assert(sentTo(p, wantB, wantBP), "not the configured broadcast address is used")
	}
	stop()
}
