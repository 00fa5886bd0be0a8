//go:build go1.21

package h

import (
	"net"
	"time"

	"github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

var (
	ownIP   = [4]byte{2, 0, 0, 1}
	otherIP = [4]byte{2, 0, 0, 7}
	bcast   = [4]byte{2, 255, 255, 255}
)

func log() artnet.Logger { return artnet.NewDefaultLogger() }

func newNode(opts ...artnet.NodeOption) *artnet.Node {
	return artnet.NewNode("node", code.StNode, net.IP{2, 0, 0, 1}, log(), opts...)
}

func pollDatagram() []byte {
	return []byte{'A', 'r', 't', '-', 'N', 'e', 't', 0, 0x00, 0x20, 0, 14, 0, 0}
}

// goodPoll: the datagram is a well-formed ArtPoll.
func goodPoll(b []byte) bool { return len(b) >= 14 && goodHead(b, 0x2000) }

// replyOf is the wire image of the reply a node with this configuration must send.
func replyOf(c artnet.NodeConfig) []byte {
	p := &packet.ArtPollReplyPacket{Port: 6454, Oem: c.OEM, VersionInfo: c.Version, UBEAVersion: c.BiosVersion, Style: c.Type,
		BindIndex: c.BindIndex, Status1: c.Status1, Status2: c.Status2, NetSwitch: c.BaseAddress.Net, SubSwitch: c.BaseAddress.SubUni >> 4}
	copy(p.IPAddress[:], c.IP.To4())
	copy(p.BindIP[:], c.BindIP.To4())
	copy(p.Macaddress[:], c.Ethernet)
	copy(p.ESTAmanufacturer[:], c.Manufacturer)
	copy(p.ShortName[:], c.Name)
	copy(p.LongName[:], c.Description)
	copy(p.NodeReport[:], c.Report)
	for i, q := range c.OutputPorts {
		p.PortTypes[i] = q.Type&0x1f | 0x80
		p.SwOut[i], p.GoodOutput[i] = q.Address.SubUni&0x0f, q.Status
		if i >= int(p.NumPorts) {
			p.NumPorts = uint16(i + 1)
		}
	}
	for i, q := range c.InputPorts {
		p.PortTypes[i] = p.PortTypes[i]&0x80 | q.Type&0x1f | 0x40
		p.SwIn[i], p.GoodInput[i] = q.Address.SubUni&0x0f, q.Status
		if i >= int(p.NumPorts) {
			p.NumPorts = uint16(i + 1)
		}
	}
	return wireOf(p)
}

func sentTo(p vs.Packet, ip [4]byte, port int) bool {
	if len(p.IP) != 4 {
		return false
	}
	var a [4]byte
	copy(a[:], p.IP)
	return vs.And(vs.Same(a, ip), p.Port == port)
}

// ---- C16 ----

func H_C16_start() {
	vs.Bound("configurations of 0..6 inputs and 0..6 outputs, every combination of documented protocols on the first two (thorough: four) shared indices, other port bits arbitrary")
	n := newNode()
	nIn, nOut := vs.Choose("inputs", 7), vs.Choose("outputs", 7)
	for i := 0; i < nOut; i++ {
		n.Config.OutputPorts = append(n.Config.OutputPorts, artnet.OutputPort{Type: docType("out", i)})
	}
	for i := 0; i < nIn; i++ {
		n.Config.InputPorts = append(n.Config.InputPorts, artnet.InputPort{Type: docType("in", i)})
	}
	ok := nIn <= 4 && nOut <= 4
	for i := 0; i < nIn && i < nOut; i++ {
		ok = vs.And(ok, n.Config.InputPorts[i].Type&0x1f == n.Config.OutputPorts[i].Type&0x1f)
	}
	err := n.Start()
	if err != nil {
		vs.Reach("refused")
		vs.Assert(!ok, "a valid configuration is refused")
		vs.Settle()
		vs.Assert(len(vs.Listens()) == 0, "a refused configuration opens a socket")
		vs.Assert(vs.Goroutines() == 0, "a refused configuration leaves goroutines running")
		vs.Assert(len(vs.Sent()) == 0, "a refused configuration transmits")
		return
	}
	vs.Reach("started")
	vs.Assert(ok, "an invalid configuration is started")
	vs.Assert(len(vs.Listens()) == 1 && vs.OpenSockets() == 1, "starting does not open one socket")
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Settle()
	vs.Assert(len(vs.Sent()) == 1, "a started node does not answer")
	n.Stop()
}

// H_C16_mismatch: each shared index matters.
func H_C16_mismatch() {
	vs.Bound("four inputs and outputs with one arbitrary protocol mismatch at any index")
	n := newNode()
	k := vs.Choose("index", 4)
	a, b := vs.U8("a"), vs.U8("b")
	vs.Assume(vs.And(a < 6, b < 6, a != b))
	for i := 0; i < 4; i++ {
		n.Config.OutputPorts = append(n.Config.OutputPorts, artnet.OutputPort{Type: code.PortType(i)})
		n.Config.InputPorts = append(n.Config.InputPorts, artnet.InputPort{Type: code.PortType(i)})
	}
	n.Config.OutputPorts[k].Type = code.PortType(a)
	n.Config.InputPorts[k].Type = code.PortType(b)
	err := n.Start()
	vs.Reach("tried")
	vs.Assert(err != nil, "an invalid configuration is started")
	vs.Assert(len(vs.Listens()) == 0 && vs.Goroutines() == 0, "a refused configuration opens a socket or starts goroutines")
	n.Config.InputPorts[k].Type = code.PortType(a)
	vs.Assert(n.Start() == nil, "a corrected configuration is refused")
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Settle()
	vs.Assert(len(vs.Sent()) == 1, "a started node does not answer")
	n.Stop()
}

// H_C16_busy: a node or controller whose port was taken starts once it is free.
func H_C16_busy() {
	vs.Bound("node and controller, 1..2 failed attempts to listen, then a free port")
	vs.FailListen(true)
	tries := 1 + vs.Choose("tries", 2)
	if vs.Choose("what", 2) == 0 {
		n := newNode()
		for i := 0; i < tries; i++ {
			vs.Assert(n.Start() != nil, "starting without a socket succeeds")
		}
		vs.Assert(vs.Goroutines() == 0, "a failed start leaves goroutines running")
		vs.FailListen(false)
		vs.Assert(n.Start() == nil, "a valid configuration is refused")
		vs.Inject(pollDatagram(), otherIP, 6454)
		vs.Settle()
		vs.Reach("node")
		vs.Assert(len(vs.Sent()) == 1, "a started node does not answer")
		n.Stop()
		return
	}
	c := artnet.NewController("ctrl", net.IP{2, 0, 0, 1}, log(), artnet.MaxFPS(7))
	for i := 0; i < tries; i++ {
		vs.Assert(c.Start() != nil, "starting without a socket succeeds")
	}
	vs.Assert(vs.Goroutines() == 0, "a failed start leaves goroutines running")
	vs.FailListen(false)
	vs.Assert(c.Start() == nil, "a valid controller reports that it did not start")
	vs.Settle()
	vs.Reach("controller")
	vs.Assert(len(vs.Sent()) == 2, "a started controller does not poll")
	c.Stop()
}

// ---- C17 ----

// identity is a configuration with arbitrary identity and concrete texts.
func identity(c *artnet.NodeConfig) {
	c.OEM, c.Version, c.BiosVersion = vs.U16("oem"), vs.U16("version"), vs.U8("bios")
	c.Manufacturer, c.Description = "MF", "long name"
	c.BindIndex, c.Status1, c.Status2 = vs.U8("bindindex"), code.Status1(vs.U8("status1")), code.Status2(vs.U8("status2"))
	c.BaseAddress = artnet.Address{Net: vs.U8("net") & 0x7f, SubUni: vs.U8("subuni")}
	c.Ethernet = net.HardwareAddr(vs.BytesN("mac", 6))
	c.BindIP = net.IP(vs.BytesN("bind", 4))
	c.Report = []code.NodeReportCode{code.RcPowerOk}
	c.OutputPorts = []artnet.OutputPort{{Address: inNet("out", *c), Type: 0, Status: code.GoodOutput(vs.U8("goodout"))}, {Address: inNet("out", *c), Type: 5}}
	c.InputPorts = []artnet.InputPort{{Address: inNet("in", *c), Type: 0, Status: code.GoodInput(vs.U8("goodin"))}}
}

func H_C17_any() {
	vs.Bound("one datagram of 0..65507 arbitrary bytes from an arbitrary IPv4 address and port, then a poll; own address in 4 or 16 byte form, arbitrary identity and broadcast address")
	bip := vs.BytesN("bcast", 4)
	bport := vs.Int("bport", 1, 65535)
	own := net.IP(ownIP[:])
	if vs.Choose("form", 2) == 1 {
		own = net.IPv4(ownIP[0], ownIP[1], ownIP[2], ownIP[3])
	}
	n := artnet.NewNode("node", code.StNode, own, log(), artnet.NodeBroadcastAddress(net.UDPAddr{IP: net.IP(bip), Port: bport}))
	identity(&n.Config)
	n.Config.Type = code.StyleCode(vs.Choose("style", 2))
	want := replyOf(n.Config)
	vs.Assert(n.Start() == nil, "start")
	b := dgram(0)
	var from [4]byte
	vs.Fill("from", &from)
	vs.Inject(b, from, vs.Int("port", 0, 65535))
	vs.Settle()
	out := vs.Sent()
	var bc [4]byte
	copy(bc[:], bip)
	good := goodPoll(b) && from != ownIP
	if good {
		vs.Reach("poll")
		vs.Assert(len(out) == 1, "a poll is not answered exactly once")
		vs.Assert(vs.EqBytes(out[0].Data, want), "the reply does not carry the node's identity")
		vs.Assert(sentTo(out[0], bc, bport), "the reply does not go to the broadcast address")
	} else {
		vs.Reach("other")
		vs.Assert(len(out) == 0, "something other than a foreign poll is answered")
	}
	vs.ClearSent()
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Settle()
	out = vs.Sent()
	vs.Assert(len(out) == 1, "a later poll is not answered exactly once")
	vs.Assert(vs.EqBytes(out[0].Data, want), "a later reply does not carry the node's identity")
	n.Stop()
}

func H_C17_kinds() {
	vs.Bound("one well-formed packet of any kind, full size, arbitrary contents, from another address; node or controller style")
	n := newNode()
	n.Config.Type = code.StyleCode(vs.Choose("style", 2))
	vs.Assert(n.Start() == nil, "start")
	k := vs.Choose("kind", nKinds)
	p := fresh(k, false)
	fillFields("p", p)
	carriable(p)
	if k == kDMX {
		p.(*packet.ArtDMXPacket).Length = 512
	}
	vs.Inject(wireOf(p), otherIP, 6454)
	vs.Settle()
	vs.Reach("settled")
	want := 0
	if k == kPoll {
		want = 1
	}
	vs.Assert(len(vs.Sent()) == want, "a packet kind is answered wrongly")
	n.Stop()
}

// H_C17_sequence: sequences of polls and other things, in bursts or one by one.
func H_C17_sequence() {
	vs.Bound("sequences of 3 (thorough: 5) datagrams out of: poll with arbitrary flags, poll from itself, truncated poll, other version, poll reply, unknown opcode; settled or as a burst")
	n := newNode()
	vs.Assert(n.Start() == nil, "start")
	want := replyOf(n.Config)
	burst := vs.Choose("burst", 2) == 1
	polls := 0
	for i := 0; i < vs.Tier(3, 5); i++ {
		from := otherIP
		b := pollDatagram()
		switch vs.Choose("what", 6) {
		case 0:
			b[12], b[13] = vs.U8("talktome"), vs.U8("priority")
			b[10], b[11] = vs.U8("hi"), vs.U8("lo")
			vs.Assume(b[11] >= 14)
			polls++
		case 1:
			from = ownIP
		case 2:
			b = b[:13]
		case 3:
			b[11] = vs.U8("lo")
			vs.Assume(b[11] < 14)
		case 4:
			b = replyOf(n.Config)
		case 5:
			b[8], b[9] = 0x01, 0x20
		}
		vs.Inject(b, from, 6454)
		if !burst {
			vs.Settle()
			vs.Assert(len(vs.Sent()) == polls, "the number of replies differs from the number of polls")
		}
	}
	vs.Settle()
	vs.Reach("settled")
	out := vs.Sent()
	vs.Assert(len(out) == polls, "the number of replies differs from the number of polls")
	for _, p := range out {
		vs.Assert(vs.EqBytes(p.Data, want) && sentTo(p, bcast, 6454), "a reply is not faithful")
	}
	n.Stop()
}

// H_C17_burst: more polls than any buffer holds.
func H_C17_burst() {
	vs.Bound("bursts of 1, 11, 25 or 50 polls from different hosts, delivered at once; any one goroutine running only when nothing else can")
	n := newNode()
	vs.Assert(n.Start() == nil, "start")
	vs.Settle()
	vs.Starve()
	k := []int{1, 11, 25, 50}[vs.Choose("polls", 4)]
	for i := 0; i < k; i++ {
		vs.Inject(pollDatagram(), [4]byte{2, 1, 0, byte(i)}, 6454)
	}
	vs.Settle()
	vs.Reach("settled")
	vs.Assert(len(vs.Sent()) == k, "a burst of polls is not answered one by one")
	n.Stop()
}

// H_C17_many: a long life of polls, one by one.
func H_C17_many() {
	vs.Bound("300 (thorough: 1100) polls one after the other from changing hosts, from one host, in pairs of one host, or pairs of 300 bytes, each preceded by a malformed one from that host; the identity is arbitrary and changes once")
	n := newNode()
	n.Config.OEM = vs.U16("oem")
	vs.Assert(n.Start() == nil, "start")
	vs.Settle()
	mode := vs.Choose("hosts", 4)
	poll := pollDatagram()
	if mode == 3 {
		poll = append(poll, make([]byte, 286)...)
	}
	want := replyOf(n.Config)
	for i := 0; i < vs.Tier(300, 1100); i++ {
		src := [4]byte{2, 1, byte(i >> 8), byte(i)}
		k := 1
		if mode == 1 {
			src = otherIP
		} else if mode == 2 {
			k = 2
		} else if mode == 3 {
			src, k = otherIP, 2
			vs.Inject([]byte{65, byte(i)}, src, 6454)
		}
		vs.ClearSent()
		for j := 0; j < k; j++ {
			vs.Inject(poll, src, 6454)
		}
		vs.Settle()
		out := vs.Sent()
		vs.Assert(len(out) == k, "a poll late in a node's life is not answered once")
		for _, p := range out {
			vs.Assert(vs.EqBytes(p.Data, want) && sentTo(p, bcast, 6454), "a reply late in a node's life is not faithful")
		}
	}
	vs.Reach("settled")
	n.Stop()
}

// ---- C18 ----

// got records the calls of callbacks.
type got struct {
	by   []int
	pkts []packet.ArtNetPacket
}

func (g *got) fn(id int) artnet.NodeCallbackFn {
	return func(p packet.ArtNetPacket) {
		vs.Lock()
		g.by = append(g.by, id)
		g.pkts = append(g.pkts, p)
		vs.Unlock()
	}
}

func H_C18_deliver() {
	vs.Bound("a callback for every kind; a well-formed packet of any kind with arbitrary contents and 0 or 200 arbitrary trailing bytes, then a second arbitrary one of any of three kinds (thorough: any) overwriting the receive buffer")
	n := newNode()
	g := &got{}
	for k := 0; k < nKinds; k++ {
		n.RegisterCallback(code.OpCode(kindOp[k]), g.fn(k))
	}
	vs.Assert(n.Start() == nil, "start")
	a := vs.Choose("a", nKinds)
	pa := anyPacket("a", a)
	wa := wireOf(pa)
	vs.Inject(append(append([]byte{}, wa...), vs.BytesN("tail", vs.Choose("tail", 2)*200)...), otherIP, vs.Int("port", 0, 65535))
	vs.Settle()
	vs.Assert(len(g.by) == 1, "a datagram is not delivered exactly once")
	vs.Assert(g.by[0] == a, "a datagram is delivered to another callback")
	ref, err := packet.Unmarshal(wa)
	vs.Assert(err == nil && kindOf(g.pkts[0]) == a, "a packet of another kind is delivered")
	vs.Assert(sameData(g.pkts[0], ref) && sameData(g.pkts[0], pa), "the delivered packet differs from the datagram")
	vs.Assert(uint16(g.pkts[0].GetOpCode()) == kindOp[a], "the delivered packet reports another opcode")
	b := a
	if vs.Thorough() {
		b = vs.Choose("b", nKinds)
	} else {
		b = []int{a, kDMX, kPollReply}[vs.Choose("b", 3)]
	}
	pb := anyPacket("b", b)
	vs.Inject(wireOf(pb), otherIP, 6454)
	vs.Settle()
	vs.Reach("two")
	vs.Assert(len(g.by) == 2 && g.by[1] == b, "a second datagram is not delivered exactly once to its callback")
	vs.Assert(sameData(g.pkts[0], pa), "a delivered packet changed when a later datagram arrived")
	vs.Assert(sameData(g.pkts[1], pb) && kindOf(g.pkts[1]) == b, "the second delivered packet differs from its datagram")
	vs.Assert(len(vs.Sent()) == 0, "a replaced poll callback still answers")
	n.Stop()
}

func anyPacket(name string, k int) packet.ArtNetPacket {
	p := fresh(k, false)
	fillFields(name, p)
	carriable(p)
	setHead(p, head{})
	return normal(p)
}

func H_C18_any() {
	vs.Bound("callbacks for three kinds; one datagram of 0..65507 arbitrary bytes from an arbitrary address")
	n := newNode()
	g := &got{}
	ks := []int{kSync, kTimeCode, kPoll}
	for _, k := range ks {
		n.RegisterCallback(code.OpCode(kindOp[k]), g.fn(k))
	}
	vs.Assert(n.Start() == nil, "start")
	b := dgram(0)
	keep := append([]byte{}, b...)
	var from [4]byte
	vs.Fill("from", &from)
	vs.Inject(b, from, 6454)
	vs.Settle()
	want := -1
	if from != ownIP {
		for _, k := range ks {
			if len(keep) >= kindSize[k] && goodHead(keep, kindOp[k]) {
				want = k
			}
		}
	}
	if want < 0 {
		vs.Reach("none")
		vs.Assert(len(g.by) == 0, "a datagram is delivered that no callback is registered for")
	} else {
		vs.Reach("delivered")
		vs.Assert(len(g.by) == 1 && g.by[0] == want, "a datagram is not delivered exactly once to its callback")
		ref, _ := packet.Unmarshal(keep)
		vs.Assert(kindOf(g.pkts[0]) == want && sameData(g.pkts[0], ref), "the delivered packet differs from the datagram")
	}
	n.Stop()
}

func H_C18_registration() {
	vs.Bound("histories of 3 (thorough: 4) registrations and removals for two opcodes, with the start of the node at any place among them; or of 2 for any implemented or other opcode and ArtDMX")
	n := newNode()
	g := &got{}
	cur := map[int]int{}
	steps := vs.Tier(3, 4)
	x := vs.Choose("x", nKinds)
	if x == kDMX {
		x = kSync
	} else {
		steps = 2
	}
	ks := []int{x, kDMX}
	builtin := true // the node's own poll handling
	startAt := vs.Choose("start", steps+1)
	running := false
	for i := 0; i <= steps; i++ {
		if i == startAt {
			vs.Assert(n.Start() == nil, "start")
			running = true
		}
		if i == steps {
			break
		}
		k := ks[vs.Choose("op", 2)]
		if vs.Choose("remove", 2) == 1 {
			n.DeregisterCallback(code.OpCode(kindOp[k]))
			if !running {
				delete(cur, k)
			}
		} else {
			n.RegisterCallback(code.OpCode(kindOp[k]), g.fn(i))
			if !running {
				cur[k] = i
			}
		}
		if k == kPoll && !running {
			builtin = false
		}
	}
	for _, k := range append(ks, kPoll) {
		g.by, g.pkts = nil, nil
		vs.ClearSent()
		p := fresh(k, false)
		if r, ok := p.(*packet.ArtPollReplyPacket); ok {
			r.Port = 6454
		}
		vs.Inject(wireOf(p), otherIP, 6454)
		vs.Settle()
		if id, ok := cur[k]; ok {
			vs.Reach("registered")
			vs.Assert(len(g.by) == 1, "a registered callback is not called once")
			vs.Assert(g.by[0] == id, "not the latest registration before start is called")
		} else {
			vs.Reach("removed")
			vs.Assert(len(g.by) == 0, "a callback is called that was not registered before start")
		}
		sent := 0
		if k == kPoll && builtin {
			sent = 1
		}
		vs.Assert(len(vs.Sent()) == sent, "polls are answered although another callback is registered, or not although none is")
	}
	n.Stop()
}

// H_C18_burst: nothing is lost or duplicated in a burst longer than the buffers.
func H_C18_burst() {
	vs.Bound("a burst of 25 (thorough: 60) ArtTimeCode datagrams with distinct contents; any one goroutine running only when nothing else can")
	n := newNode()
	g := &got{}
	n.RegisterCallback(code.OpTimeCode, g.fn(0))
	vs.Assert(n.Start() == nil, "start")
	vs.Settle()
	vs.Starve()
	k := vs.Tier(25, 60)
	x := vs.U8("hours")
	for i := 0; i < k; i++ {
		vs.Inject(wireOf(&packet.ArtTimeCodePacket{Frames: byte(i), Hours: x}), otherIP, 6454)
	}
	vs.Settle()
	vs.Reach("settled")
	vs.Assert(len(g.by) == k, "a burst is not delivered exactly once each")
	var seen [64]bool
	for _, p := range g.pkts {
		q := p.(*packet.ArtTimeCodePacket)
		vs.Assert(q.Frames < 64 && !seen[q.Frames], "a datagram is delivered twice")
		seen[q.Frames] = true
		vs.Assert(q.Hours == x, "a delivered packet differs from its datagram")
	}
	n.Stop()
}

// H_C18_many: a long life of datagrams, one by one.
func H_C18_many() {
	vs.Bound("300 (thorough: 1100) ArtDMX or ArtTimeCode datagrams one after the other, the same or with distinct contents, between datagrams without a callback or not")
	n := newNode()
	g := &got{}
	n.RegisterCallback(code.OpTimeCode, g.fn(0))
	n.RegisterCallback(code.OpDMX, g.fn(1))
	vs.Assert(n.Start() == nil, "start")
	dmx := vs.Choose("kind", 2) == 1
	same := vs.Choose("same", 2) == 1
	mixed := vs.Choose("mixed", 2) == 1
	x := vs.U8("x")
	for i := 0; i < vs.Tier(300, 1100); i++ {
		a, b := byte(i), byte(i>>8)
		if same {
			a, b = 7, 7
		}
		g.by, g.pkts = nil, nil
		if mixed && i%3 == 0 {
			vs.Inject(wireOf(&packet.ArtSyncPacket{}), otherIP, 6454)
		}
		if dmx {
			p := &packet.ArtDMXPacket{Sequence: a, Net: b & 0x7f, Length: 2}
			p.Data[0], p.Data[1] = x, a
			vs.Inject(wireOf(p), otherIP, 6454)
		} else {
			vs.Inject(wireOf(&packet.ArtTimeCodePacket{Frames: a, Seconds: b, Hours: x}), otherIP, 6454)
		}
		vs.Settle()
		vs.Assert(len(g.by) == 1, "a datagram late in a node's life is not delivered exactly once")
		if dmx {
			q, ok := g.pkts[0].(*packet.ArtDMXPacket)
			vs.Assert(ok && g.by[0] == 1 && q.Sequence == a && q.Net == b&0x7f && q.Data[0] == x && q.Data[1] == a, "a packet delivered late in a node's life differs from its datagram")
		} else {
			q, ok := g.pkts[0].(*packet.ArtTimeCodePacket)
			vs.Assert(ok && g.by[0] == 0 && q.Frames == a && q.Seconds == b && q.Hours == x, "a packet delivered late in a node's life differs from its datagram")
		}
	}
	vs.Reach("settled")
	n.Stop()
}

// ---- C19 ----

// errno is any error a system call can return, or 0 for a timeout.
func errno() int {
	if vs.Choose("timeout", 2) == 1 {
		return 0
	}
	return vs.Int("errno", 1, 133)
}

// event makes something happen to a node or controller.
func event(i int) {
	switch vs.Choose("event", 8) {
	case 0:
		vs.Inject(pollDatagram(), otherIP, 6454)
	case 1:
		vs.InjectErr(errno())
	case 2:
		vs.FailWrites(1, errno())
		vs.Inject(pollDatagram(), otherIP, 6454)
		vs.Settle()
		vs.FailWrites(0, 0)
	case 3:
		b := pollDatagram()
		b[8], b[9] = vs.U8("oplo"), vs.U8("ophi")
		vs.Inject(b, otherIP, 6454)
	case 4:
		vs.Inject(nil, otherIP, 6454)
	case 5:
		vs.InjectErr(errno())
		vs.InjectErr(0)
		vs.Inject(pollDatagram(), ownIP, 6454)
	case 6:
		p := &packet.ArtPollReplyPacket{Port: 6454}
		p.IPAddress = otherIP
		p.NumPorts = vs.U16("ports")
		vs.Fill("types", &p.PortTypes[0])
		p.Style = code.StyleCode(vs.Choose("style", 3))
		vs.Inject(wireOf(p), otherIP, 6454)
	case 7:
		p := &packet.ArtDMXPacket{Length: 512}
		w := wireOf(p)
		w[16], w[17] = vs.U8("lenhi"), vs.U8("lenlo")
		vs.Inject(w, otherIP, 6454)
	}
}

func H_C19_node() {
	vs.Bound("sequences of 2 (thorough: 3) events: poll, read errors, write errors, arbitrary opcodes, empty datagrams, poll replies, DMX of arbitrary announced length; settled or not in between; node or controller style; then a poll")
	n := newNode()
	n.Config.Type = code.StyleCode(vs.Choose("kind", 2))
	vs.Assert(n.Start() == nil, "start")
	settle := vs.Choose("settle", 2) == 1
	for i := 0; i < vs.Tier(2, 3); i++ {
		event(i)
		if settle {
			vs.Settle()
		}
	}
	vs.Settle()
	alive()
	n.Stop()
}

// alive: a poll is answered, once.
func alive() {
	vs.FailWrites(0, 0)
	vs.ClearSent()
	vs.Inject(pollDatagram(), [4]byte{2, 9, 9, 9}, 6454)
	vs.Settle()
	vs.Reach("alive")
	vs.Assert(len(vs.Sent()) == 1, "the next poll is not answered")
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Settle()
	vs.Assert(len(vs.Sent()) == 2, "the next poll of the host that sent the others is not answered")
}

func H_C19_any() {
	vs.Bound("one datagram of 0..65507 arbitrary bytes from an arbitrary address to a node or controller style node, then a poll")
	n := newNode()
	n.Config.Type = code.StyleCode(vs.Choose("kind", 2))
	vs.Assert(n.Start() == nil, "start")
	var from [4]byte
	vs.Fill("from", &from)
	vs.Inject(dgram(0), from, 6454)
	vs.Settle()
	alive()
	n.Stop()
}

func H_C19_replies() {
	vs.Bound("a controller, one poll reply with arbitrary address, ports, switches and style, then one event and 300 ms of updates, then a poll")
	c := artnet.NewController("ctrl", net.IP{2, 0, 0, 1}, log(), artnet.MaxFPS(7))
	vs.Assert(c.Start() == nil, "start")
	vs.Settle()
	p := &packet.ArtPollReplyPacket{Port: 6454}
	vs.Fill("ip", &p.IPAddress)
	p.NetSwitch, p.SubSwitch = vs.U8("net"), vs.U8("sub")
	p.NumPorts = uint16(vs.Choose("ports", vs.Tier(3, 6)))
	vs.Fill("types", &p.PortTypes)
	vs.Fill("swin", &p.SwIn)
	p.SwOut = [4]uint8{0, 1, 2, 3}
	p.Style = code.StyleCode(vs.Choose("style", 2))
	vs.Inject(wireOf(p), otherIP, 6454)
	vs.Settle()
	if vs.Choose("fail", 2) == 1 {
		vs.FailWrites(2, errno())
	}
	vs.Advance(300 * time.Millisecond)
	vs.Settle()
	alive()
	c.Stop()
}

func H_C19_errors() {
	vs.Bound("runs of 1, 2, 11, 30 or 300 read errors, as many write errors or malformed datagrams, node and controller")
	k := []int{1, 2, 11, 30, 300}[vs.Choose("errors", 5)]
	var stop func()
	if vs.Choose("what", 2) == 0 {
		n := newNode()
		vs.Assert(n.Start() == nil, "start")
		stop = n.Stop
	} else {
		c := artnet.NewController("ctrl", net.IP{2, 0, 0, 1}, log(), artnet.MaxFPS(7))
		vs.Assert(c.Start() == nil, "start")
		stop = c.Stop
	}
	vs.Settle()
	e := errno()
	switch vs.Choose("read", 3) {
	case 0:
		for i := 0; i < k; i++ {
			vs.InjectErr(e)
		}
	case 2:
		for i := 0; i < k; i++ {
			vs.Inject(append(append([]byte{}, artnetID[:]...), 0, 0x97, 0, byte(i)), otherIP, 6454)
		}
	default:
		vs.FailWrites(k, e)
		for i := 0; i < k; i++ {
			vs.Inject(pollDatagram(), otherIP, 6454)
		}
	}
	vs.Settle()
	alive()
	stop()
}
