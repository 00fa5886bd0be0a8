//go:build go1.21

package h

import (
	"net"
	"runtime"
	"time"

	"github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

// ---- C29 ----

// H_C29_many: many short lives.
func H_C29_many() {
	vs.Bound("a node or a controller started and stopped 12 (thorough: 40) times, with or without a poll in each life")
	style := vs.Choose("what", 2)
	poll := vs.Choose("poll", 2) == 1
	var start func() error
	var stop func()
	if style == 0 {
		n := newNode()
		start, stop = n.Start, n.Stop
	} else {
		c := artnet.NewController("ctrl", net.IP{2, 0, 0, 1}, log(), artnet.MaxFPS(7))
		start, stop = c.Start, c.Stop
	}
	for i := 0; i < vs.Tier(12, 40); i++ {
		vs.ClearSent()
		vs.Assert(start() == nil, "what was stopped cannot be started again")
		vs.Settle()
		vs.Assert(vs.OpenSockets() == 1, "after a restart there is not one socket open")
		at := len(vs.Sent())
		vs.Assert((at > 0) == (style == 1), "a restarted controller does not poll, or a node does")
		if poll {
			vs.Inject(pollDatagram(), otherIP, 6454)
			vs.Settle()
			vs.Assert(len(vs.Sent()) == at+1, "a poll is not answered once after many restarts")
		}
		sent := len(vs.Sent())
		stop()
		stopped(sent)
	}
	vs.Reach("stopped")
}

// H_C29_node: a node through several lives.
func H_C29_node() {
	vs.Bound("a node of node or controller style started and stopped 2 (thorough: 3) times, each life with an arbitrary identity, callbacks registered or removed before it, 0..2 polls, a callback packet and a read error, perhaps a failed start in between; settled after each stop")
	n := newNode()
	n.Config.Type = code.StyleCode(vs.Choose("style", 2))
	g := &got{}
	reg := -1
	for life := 0; life < vs.Tier(2, 3); life++ {
		switch vs.Choose("callback", 3) {
		case 1:
			n.RegisterCallback(code.OpSync, g.fn(life))
			reg = life
		case 2:
			n.DeregisterCallback(code.OpSync)
			reg = -1
		}
		n.Config.OEM, n.Config.Status1 = vs.U16("oem"), code.Status1(vs.U8("status1"))
		n.Config.BaseAddress = artnet.Address{Net: vs.U8("net") & 0x7f, SubUni: vs.U8("subuni")}
		want := replyOf(n.Config)
		if vs.Choose("fail", 2) == 1 {
			vs.FailListen(true)
			vs.Assert(n.Start() != nil, "a start without a socket succeeds")
			vs.FailListen(false)
		}
		vs.ClearSent()
		vs.Assert(n.Start() == nil, "a stopped node cannot be started again")
		vs.Settle()
		vs.Assert(vs.OpenSockets() == 1, "a started node does not have one socket open")
		polls := vs.Choose("polls", 3)
		for i := 0; i < polls; i++ {
			vs.Inject(pollDatagram(), otherIP, 6454)
		}
		vs.Settle()
		out := vs.Sent()
		vs.Assert(len(out) == polls, "a restarted node does not answer each poll once")
		for _, p := range out {
			vs.Assert(vs.EqBytes(p.Data, want) && sentTo(p, bcast, 6454), "a restarted node's reply does not carry its present configuration")
		}
		g.by, g.pkts = nil, nil
		vs.InjectErr(111)
		vs.Inject(wireOf(&packet.ArtSyncPacket{}), otherIP, 6454)
		vs.Settle()
		if reg >= 0 {
			vs.Assert(len(g.by) == 1 && g.by[0] == reg, "a restarted node does not use the callbacks registered before")
		} else {
			vs.Assert(len(g.by) == 0, "a removed callback is called")
		}
		n.RegisterCallback(code.OpSync, g.fn(99)) // refused
		sent := len(vs.Sent())
		n.Stop()
		stopped(sent)
		vs.Reach("stopped")
	}
}

// H_C29_controller: a controller through several lives.
func H_C29_controller() {
	vs.Bound("a controller started and stopped 2 (thorough: 3) times; in each life 0..2 of two nodes reply, an arbitrary frame is submitted, two updates, perhaps a poll and perhaps an expiry pass; pauses of 0.5 or 8 s between lives, the latter with a start that fails for want of a socket")
	const fps = 7
	c := newCtrl(fps)
	ps := []peer{{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2}, ins: []uint8{3}}, {ip: [4]byte{2, 0, 0, 11}, sub: 3, outs: []uint8{7}}}
	want := replyOf(artnet.NodeConfig{Name: "ctrl", Type: code.StController, IP: net.IP{2, 0, 0, 1}})
	polled := func(at int64, msg string) {
		var out []vs.Packet
		for _, p := range vs.Sent() {
			if !isDMX(p) {
				out = append(out, p)
			}
		}
		vs.Assert(len(out) == 2 && goodPoll(out[0].Data) && vs.EqBytes(out[1].Data, want) && out[0].At == at && out[1].At == at, msg)
	}
	for life := 0; life < vs.Tier(2, 3); life++ {
		vs.ClearSent()
		t0 := vs.Clock()
		vs.Assert(c.Start() == nil, "a stopped controller cannot be started again")
		vs.Settle()
		polled(t0, "a started controller does not poll at once")
		vs.ClearSent()
		tables(c, nil)
		vs.Advance(frame(fps))
		vs.Settle()
		vs.Assert(len(vs.Sent()) == 0, "a restarted controller sends data although no node has replied")
		c.SendDMXToAddress([512]byte{5}, ps[0].out(0))
		var ks []known
		who := vs.Choose("who", 3)
		for i := 0; i < who; i++ {
			ps[i].announce()
			ks = append(ks, known{p: ps[i]})
		}
		tables(c, ks)
		vs.ClearSent()
		vs.Advance(frame(fps))
		vs.Settle()
		seq := map[[4]byte]uint8{}
		n := 0
		for _, d := range dmxSent() {
			vs.Assert(vs.EqBytes(d.data, make([]byte, 512)), "an output is not zero at its first update after a restart")
			vs.Assert(follows(seq[d.ip], d.seq), "sequence numbers do not start over")
			seq[d.ip] = d.seq
			n++
		}
		vs.Assert(n == []int{0, 2, 3}[who], "not every announced output is sent at the first update")
		f := [512]byte{0: vs.U8("f"), 511: 1}
		if who > 0 {
			vs.ClearSent()
			c.SendDMXToAddress(f, ps[0].out(1))
			vs.Advance(frame(fps))
			vs.Settle()
			out := dmxSent()
			vs.Assert(len(out) == 1 && out[0].addr == ps[0].out(1) && out[0].ip == ps[0].ip, "a frame is not sent once at the next update")
			vs.Assert(vs.EqBytes(out[0].data, f[:]) && follows(seq[out[0].ip], out[0].seq), "a frame is not sent as submitted")
		}
		switch vs.Choose("long", 3) {
		case 1: // past the next poll
			vs.ClearSent()
			vs.Advance(3 * time.Second)
			vs.Settle()
			polled(t0+int64(3*time.Second), "a restarted controller does not poll every three seconds")
			tables(c, ks)
		case 2: // past the nodes' expiry
			vs.Advance(11 * time.Second)
			vs.Settle()
			tables(c, nil)
		}
		sent := len(vs.Sent())
		c.Stop()
		vs.Settle()
		vs.Assert(vs.OpenSockets() == 0 && vs.Goroutines() == 0, "a stopped controller leaves something behind")
		if vs.Choose("pause", 2) == 0 {
			vs.Advance(500 * time.Millisecond)
		} else {
			vs.Advance(4 * time.Second)
			vs.Settle()
			vs.FailListen(true)
			vs.Assert(c.Start() != nil, "a start without a socket succeeds")
			vs.FailListen(false)
			vs.Settle()
			vs.Assert(vs.OpenSockets() == 0 && vs.Goroutines() == 0, "a failed start leaves something behind")
			vs.Advance(4 * time.Second)
		}
		vs.Settle()
		vs.Assert(len(vs.Sent()) == sent, "something is transmitted after stop has returned")
		vs.Reach("stopped")
	}
}

// H_C29_stop: stopping a restarted one with work in flight.
func H_C29_stop() {
	vs.Bound("a node or controller in its second life stopped with a poll and a poll reply in flight; up to 1 (thorough: 2) preemptions, 1 contested select forked")
	var start func() error
	var stop func()
	if vs.Choose("what", 2) == 0 {
		n := newNode()
		start, stop = n.Start, n.Stop
	} else {
		c := newCtrl(7)
		start, stop = c.Start, c.Stop
	}
	vs.Assert(start() == nil, "start")
	vs.Settle()
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}}
	p.announce()
	stop()
	vs.Settle()
	vs.Assert(start() == nil, "a stopped one cannot be started again")
	early := vs.Choose("early", 2) == 1
	if !early {
		vs.Settle()
	}
	vs.Schedule(vs.Tier(1, 2), 1)
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Inject(wireOf(p.packet()), p.ip, 6454)
	stop()
	sent := len(vs.Sent())
	vs.Reach("stopped")
	stopped(sent)
}

// H_C29_inflight: what was in flight when a life ended is not part of the next.
func H_C29_inflight() {
	vs.Bound("a node (or controller) stopped with 0..3 polls, 0..2 callback packets and 0..1 poll replies unhandled (1, 15 of each kind as a flood), at any of the first 0..2 goroutine switches, with up to 1 preemption and 1 contested select forked; settled, then started again")
	g := &got{}
	var start func() error
	var stop func()
	var c *artnet.Controller
	if vs.Choose("what", 2) == 0 {
		n := newNode()
		n.RegisterCallback(code.OpSync, g.fn(1))
		start, stop = n.Start, n.Stop
	} else {
		c = newCtrl(7)
		start, stop = c.Start, c.Stop
	}
	vs.Assert(start() == nil, "start")
	vs.Settle()
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}}
	polls, syncs, replies := 15, 15, 1
	if vs.Choose("flood", 2) == 0 {
		polls, syncs, replies = vs.Choose("polls", 4), vs.Choose("syncs", 2), vs.Choose("replies", 2)
		vs.Schedule(1, 1)
	}
	for i := 0; i < polls; i++ {
		vs.Inject(pollDatagram(), otherIP, 6454)
	}
	for i := 0; i < syncs; i++ {
		vs.Inject(wireOf(&packet.ArtSyncPacket{}), otherIP, 6454)
	}
	for i := 0; i < replies; i++ {
		vs.Inject(wireOf(p.packet()), p.ip, 6454)
	}
	for i := vs.Choose("yields", 3); i > 0; i-- {
		runtime.Gosched()
	}
	stop()
	vs.Settle()
	vs.Schedule(0, 0)
	vs.ClearSent()
	calls := len(g.by)
	vs.Assert(start() == nil, "a stopped one cannot be started again")
	vs.Settle()
	vs.Reach("restarted")
	vs.Assert(len(g.by) == calls, "a packet of an earlier run is delivered after a restart")
	if c == nil {
		vs.Assert(len(vs.Sent()) == 0, "a poll of an earlier run is answered after a restart")
	} else {
		vs.Assert(len(vs.Sent()) == 2, "a poll of an earlier run is answered after a restart")
		tables(c, nil)
	}
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Settle()
	if c == nil {
		vs.Assert(len(vs.Sent()) == 1, "a restarted node does not answer")
	} else {
		vs.Assert(len(vs.Sent()) == 3, "a restarted controller does not answer")
	}
	stop()
}

// ---- C32 ----

// H_C32_block: callbacks that take their time.
func H_C32_block() {
	vs.Bound("a node of node or controller style, 1, 2, 40 or 300 (thorough: 1100) sync, DMX or time code packets for callbacks that block, then polls, packets for another and for the blocked callback, a malformed one and a read error; up to 1 (thorough: 2) preemptions in the small cases; released afterwards, or after a stop")
	n := newNode()
	n.Config.Type = code.StyleCode(vs.Choose("style", 2))
	release := make(chan struct{})
	k := []int{1, 2, 40, vs.Tier(300, 1100)}[vs.Choose("packets", 4)]
	entered, left := 0, 0
	var bad, good packet.ArtNetPacket = &packet.ArtSyncPacket{}, anyPacket("dmx", kDMX)
	op, other := code.OpCode(code.OpSync), code.OpCode(code.OpDMX)
	switch vs.Choose("op", 3) {
	case 1:
		bad, good, op = good, anyPacket("time", kTimeCode), code.OpDMX
		other = code.OpTimeCode
	case 2:
		bad, op = anyPacket("time", kTimeCode), code.OpTimeCode
	}
	n.RegisterCallback(op, func(p packet.ArtNetPacket) {
		count(&entered)
		<-release
		count(&left)
	})
	g := &got{}
	n.RegisterCallback(other, g.fn(1))
	vs.Assert(n.Start() == nil, "start")
	vs.Settle()
	if k <= 2 {
		vs.Schedule(vs.Tier(1, 2), 1)
	}
	for i := 0; i < k; i++ {
		vs.Inject(wireOf(bad), otherIP, 6454)
	}
	if vs.Choose("settle", 2) == 1 {
		vs.Settle()
	}
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Inject(wireOf(good), otherIP, 6454)
	vs.Inject([]byte{1}, otherIP, 6454)
	vs.InjectErr(111)
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Inject(wireOf(bad), otherIP, 6454)
	vs.Settle()
	vs.Reach("blocked")
	vs.Assert(len(vs.Sent()) == 2, "blocked callbacks keep a node from answering polls")
	vs.Assert(len(g.by) == 1 && sameData(g.pkts[0], good), "blocked callbacks keep another callback from getting its packet")
	vs.Assert(entered == k+1 && left == 0, "blocked callbacks keep a further packet from being delivered")
	stop := vs.Choose("stop", 2) == 1
	if stop {
		n.Stop()
		vs.Settle()
	}
	close(release)
	vs.Settle()
	vs.Assert(entered == k+1 && left == k+1, "a released callback is called again")
	if !stop {
		vs.Inject(pollDatagram(), otherIP, 6454)
		vs.Settle()
		vs.Assert(len(vs.Sent()) == 3, "a node does not answer after callbacks returned")
		n.Stop()
	}
	stopped(len(vs.Sent()))
}

// H_C32_reenter: callbacks that use the node.
func H_C32_reenter() {
	vs.Bound("callbacks that wait for another packet's callback (in either order of arrival), register or remove callbacks, ask for the connection, change the packet they got, or stop the node; 1..3 packets of two kinds; up to 1 (thorough: 2) preemptions")
	n := newNode()
	what := vs.Choose("what", 5)
	other := make(chan struct{})
	calls, waited := 0, 0
	n.RegisterCallback(code.OpSync, func(p packet.ArtNetPacket) {
		switch what {
		case 0:
			<-other
			count(&waited)
		case 1:
			n.RegisterCallback(code.OpSync, func(packet.ArtNetPacket) { vs.Assert(false, "a callback registered while running is called") })
			n.DeregisterCallback(code.OpDMX)
		case 2:
			vs.Assert(n.Connection() != nil, "a running node has no connection")
		case 3:
			p.(*packet.ArtSyncPacket).OpCode = 0
			p.(*packet.ArtSyncPacket).ID = [8]byte{}
		case 4:
			n.Stop()
		}
		count(&calls)
	})
	dmxs := 0
	n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
		if dmxs == 0 && what == 0 {
			close(other)
		}
		count(&dmxs)
	})
	vs.Assert(n.Start() == nil, "start")
	vs.Settle()
	vs.Schedule(vs.Tier(1, 2), 1)
	syncs := 1 + vs.Choose("syncs", 2)
	first := vs.Choose("first", 2) == 1
	d := wireOf(&packet.ArtDMXPacket{})
	if first {
		vs.Inject(d, otherIP, 6454)
	}
	for i := 0; i < syncs; i++ {
		vs.Inject(wireOf(&packet.ArtSyncPacket{}), otherIP, 6454)
	}
	if !first {
		vs.Inject(d, otherIP, 6454)
	}
	vs.Settle()
	vs.Reach("handled")
	if what == 4 {
		vs.Assert(calls >= 1 && calls <= syncs && dmxs <= 1, "a callback cannot stop its node")
		stopped(0)
		return
	}
	vs.Assert(calls == syncs && dmxs == 1, "a callback that uses its node keeps packets from being delivered once")
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Inject(wireOf(&packet.ArtSyncPacket{}), otherIP, 6454)
	vs.Inject(d, otherIP, 6454)
	vs.Settle()
	vs.Assert(calls == syncs+1 && dmxs == 2 && len(vs.Sent()) == 1, "a callback that uses its node keeps later packets from being handled")
	n.Stop()
}

// ---- C30 ----

// H_C30_codec: packets encoded and decoded at the same time.
func H_C30_codec() {
	vs.Bound("two goroutines at once, each encoding or decoding a packet of any kind with arbitrary contents (the second any kind in thorough; in quick the same or ArtDMX), or deriving a configuration or reply; 1 (thorough: 2) preemptions, races by happens-before")
	k1 := vs.Choose("kind", nKinds)
	k2 := k1
	if vs.Thorough() {
		k2 = vs.Choose("kind2", nKinds)
	} else if vs.Choose("other", 2) == 1 {
		k2 = kDMX
	}
	// setDefaults etc. of the library run before the goroutines
	ps := [2]packet.ArtNetPacket{anyPacket("p", k1), anyPacket("q", k2)}
	ws := [2][]byte{wireOf(ps[0]), wireOf(ps[1])}
	var bs [2][]byte
	var qs [2]packet.ArtNetPacket
	var errs [2]error
	vs.RaceDetect()
	vs.Schedule(vs.Tier(1, 2), 1)
	what := [2]int{vs.Choose("what", 2), vs.Choose("what", 2)}
	done := 0
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			if what[i] == 0 {
				bs[i], errs[i] = ps[i].MarshalBinary()
			} else {
				qs[i], errs[i] = packet.Unmarshal(ws[i])
			}
			count(&done)
		}()
	}
	vs.Settle()
	vs.Reach("done")
	vs.Assert(done == 2, "encoding or decoding does not return")
	for i := range ps {
		vs.Assert(errs[i] == nil, "encoding or decoding fails")
		if what[i] == 0 {
			vs.Assert(vs.EqBytes(bs[i], ws[i]), "concurrent encoding gives other bytes")
		} else {
			vs.Assert(kindOf(qs[i]) == kindOf(ps[i]) && sameData(qs[i], ps[i]), "concurrent decoding gives another packet")
		}
	}
}

// H_C30_same: one packet encoded, one buffer decoded, by two goroutines.
func H_C30_same() {
	vs.Bound("two goroutines encoding the same packet, or decoding the same buffer, of any kind with arbitrary contents; 1 (thorough: 2) preemptions, races by happens-before")
	k := vs.Choose("kind", nKinds)
	p := anyPacket("p", k)
	w := wireOf(p)
	keep := append([]byte{}, w...)
	var bs [2][]byte
	var qs [2]packet.ArtNetPacket
	var errs [2]error
	vs.RaceDetect()
	vs.Schedule(vs.Tier(1, 2), 1)
	dec := vs.Choose("decode", 2) == 1
	done := 0
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			if dec {
				qs[i], errs[i] = packet.Unmarshal(w)
			} else {
				bs[i], errs[i] = p.MarshalBinary()
			}
			count(&done)
		}()
	}
	vs.Settle()
	vs.Reach("done")
	vs.Assert(done == 2 && errs[0] == nil && errs[1] == nil, "encoding or decoding fails")
	for i := 0; i < 2; i++ {
		if dec {
			vs.Assert(kindOf(qs[i]) == k && sameData(qs[i], p), "concurrent decoding gives another packet")
		} else {
			vs.Assert(vs.EqBytes(bs[i], keep), "concurrent encoding gives other bytes")
		}
	}
	vs.Assert(!dec || qs[0] != qs[1], "two decodings share a packet")
}

// H_C30_config: conversions and names used at the same time.
func H_C30_config() {
	vs.Bound("two goroutines at once deriving configurations from arbitrary poll replies, replies from configurations, and texts of a few opcodes and flag bytes; 1 (thorough: 2) preemptions, races by happens-before")
	var r [2]packet.ArtPollReplyPacket
	var cfg [2]artnet.NodeConfig
	for i := range r {
		r[i].Oem, r[i].NetSwitch, r[i].SubSwitch, r[i].NumPorts = vs.U16("oem"), vs.U8("net"), vs.U8("sub")&15, uint16(i)
		r[i].PortTypes[0], r[i].SwOut[0], r[i].SwIn[0] = 0xc0, vs.U8("out"), vs.U8("in")
		copy(r[i].ShortName[:], []string{"one", "another"}[i])
		cfg[i] = artnet.NodeConfig{OEM: r[i].Oem, BaseAddress: artnet.Address{Net: r[i].NetSwitch}, Name: "n", Report: []code.NodeReportCode{1}}
		for j := 0; j < i; j++ {
			cfg[i].OutputPorts = append(cfg[i].OutputPorts, artnet.OutputPort{Address: artnet.Address{Net: r[i].NetSwitch, SubUni: 3}})
		}
	}
	flags := []uint8{0, 0x35, 0xff}[vs.Choose("flags", vs.Tier(2, 3))]
	op := kindOp[[]int{0, 5, 11}[vs.Choose("op", vs.Tier(1, 3))]]
	texts := func() string {
		return code.OpCode(op).String() + code.Status1(flags).String() + code.PortType(flags).String() + code.GoodOutput(flags).String() +
			code.StyleCode(flags).String() + code.NodeReportCode(flags).String() + artnet.Address{Net: flags, SubUni: 0x12}.String() + code.GoodInput(flags).String() +
			code.Status2(flags).String() + code.TalkToMe(flags).String() + code.SwMacro(flags).String() + code.SwRemote(flags).String() + code.PriorityCode(flags).String()
	}
	var got [2]artnet.NodeConfig
	var back [2]*packet.ArtPollReplyPacket
	var txt [2]string
	vs.RaceDetect()
	vs.Schedule(vs.Tier(1, 2), 1)
	done := 0
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			got[i] = artnet.ConfigFromArtPollReply(r[i])
			back[i] = artnet.ArtPollReplyFromConfig(cfg[i])
			txt[i] = texts()
			count(&done)
		}()
	}
	vs.Settle()
	vs.Reach("done")
	vs.Assert(done == 2, "a conversion does not return")
	want := texts()
	ref := [2]artnet.NodeConfig{artnet.ConfigFromArtPollReply(r[0]), artnet.ConfigFromArtPollReply(r[1])}
	for i := 0; i < 2; i++ {
		vs.Assert(vs.EqBytes(snapConfig(got[i]), snapConfig(ref[i])), "concurrent conversions give another configuration")
		vs.Assert(back[i].Oem == r[i].Oem && back[i].NumPorts == r[i].NumPorts && back[i].NetSwitch == r[i].NetSwitch, "concurrent conversions give another reply")
		vs.Assert(txt[i] == want, "concurrent texts differ")
	}
}

// ---- C31 ----

// H_C31_node: traffic and calls at once.
func H_C31_node() {
	vs.Bound("a node of node or controller style with callbacks, 2 datagrams at once out of poll, ArtSync, ArtDMX, poll reply, malformed, read error, poll of its own; a goroutine registering, removing (refused), or stopping meanwhile, or none; up to 1 (thorough: 2) preemptions, races by happens-before")
	n := newNode()
	n.Config.Type = code.StyleCode(vs.Choose("style", 2))
	g := &got{}
	n.RegisterCallback(code.OpSync, g.fn(1))
	n.RegisterCallback(code.OpDMX, g.fn(2))
	vs.RaceDetect()
	vs.Assert(n.Start() == nil, "start")
	vs.Settle()
	act := vs.Choose("act", 4)
	polls, calls := 0, 0
	var bs [2][]byte
	var x [2]int
	for i := 0; i < 2; i++ {
		x[i] = vs.Choose("what", 7)
		if x[i] < x[0] { // any order: the second is not a smaller one
			return
		}
		switch x[i] {
		case 0:
			bs[i] = pollDatagram()
			polls++
		case 1:
			bs[i] = wireOf(&packet.ArtSyncPacket{})
			calls++
		case 2:
			bs[i] = wireOf(anyPacket("dmx", kDMX))
			calls++
		case 3:
			bs[i] = wireOf(peer{ip: otherIP, outs: []uint8{1}}.packet())
		case 4:
			bs[i] = pollDatagram()[:13]
		case 6: // its own
			bs[i] = pollDatagram()
		}
	}
	vs.Schedule(vs.Tier(1, 2), 1)
	for i := range bs {
		if bs[i] == nil {
			vs.InjectErr(111)
		} else if x[i] == 6 {
			vs.Inject(bs[i], [4]byte{2, 0, 0, 1}, 6454)
		} else {
			vs.Inject(bs[i], otherIP, 6454)
		}
	}
	done := 0
	go func() {
		switch act {
		case 1:
			n.RegisterCallback(code.OpSync, g.fn(3))
		case 2:
			n.DeregisterCallback(code.OpDMX)
			n.Connection()
		case 3:
			n.Stop()
			n.Connection()
		}
		count(&done)
	}()
	vs.Settle()
	vs.Reach("done")
	vs.Assert(done == 1, "a call of the node's methods does not return")
	for i, id := range g.by {
		vs.Assert(id < 3, "a callback registered while running is called")
		vs.Assert(kindOf(g.pkts[i]) == []int{0, kSync, kDMX}[id], "a callback gets another packet")
	}
	if act != 3 {
		vs.Assert(len(g.by) == calls, "a packet is not delivered once")
		vs.Assert(len(vs.Sent()) == polls, "a poll is not answered once")
	} else {
		vs.Assert(len(g.by) <= calls && len(vs.Sent()) <= polls, "a packet is handled twice")
	}
	n.Stop()
	vs.Settle()
	vs.Assert(vs.Goroutines() == 0 && vs.OpenSockets() == 0, "stopping leaves something behind")
}

// H_C31_two: two nodes share nothing.
func H_C31_two() {
	vs.Bound("two nodes with different names and callbacks, each with its own or the default broadcast address, running in one process; a poll and an ArtSync to both at once; 1 (thorough: 2) preemptions, races by happens-before")
	var opts [2][]artnet.NodeOption
	dst := [2][4]byte{bcast, bcast}
	for i := range opts {
		if vs.Choose("bcast", 2) == 1 {
			dst[i] = [4]byte{10, 0, 0, uint8(i + 1)}
			opts[i] = append(opts[i], artnet.NodeBroadcastAddress(net.UDPAddr{IP: net.IP{10, 0, 0, uint8(i + 1)}, Port: 6454}))
		}
	}
	a := artnet.NewNode("a", code.StNode, net.IP{2, 0, 0, 1}, log(), opts[0]...)
	b := artnet.NewNode("bb", code.StNode, net.IP{2, 0, 0, 2}, log(), opts[1]...)
	a.Config.OEM, b.Config.OEM = vs.U16("oem"), vs.U16("oem")
	g := &got{}
	a.RegisterCallback(code.OpSync, g.fn(1))
	b.RegisterCallback(code.OpSync, g.fn(2))
	wa, wb := replyOf(a.Config), replyOf(b.Config)
	vs.RaceDetect()
	vs.Assert(a.Start() == nil && b.Start() == nil, "start")
	vs.Settle()
	vs.Schedule(vs.Tier(1, 2), 1)
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Inject(wireOf(&packet.ArtSyncPacket{}), otherIP, 6454)
	vs.Settle()
	vs.Reach("done")
	out := vs.Sent()
	vs.Assert(len(out) == 2 && len(g.by) == 2 && g.by[0] != g.by[1], "a packet is not handled once by each node")
	for _, p := range out {
		x := vs.And(vs.EqBytes(p.Data, wa), sentTo(p, dst[0], 6454))
		y := vs.And(vs.EqBytes(p.Data, wb), sentTo(p, dst[1], 6454))
		vs.Assert(vs.Or(x, y), "a node answers with another node's identity")
	}
	a.Stop()
	vs.Settle()
	vs.ClearSent()
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Settle()
	vs.Assert(len(vs.Sent()) == 1 && vs.EqBytes(vs.Sent()[0].Data, wb), "stopping one node stops another")
	b.Stop()
}

// H_C31_controllers: two controllers in one process.
func H_C31_controllers() {
	vs.Bound("two controllers, both knowing a node of 2 outputs, each given an arbitrary frame of its own for the same or different outputs, or none; 3 updates; then one is stopped and the other goes on; races by happens-before, 1 (thorough: 2) preemptions at the update")
	const fps = 7
	own := vs.Choose("bcast", 2) == 1
	var opts []artnet.Option
	if own {
		opts = append(opts, artnet.BroadcastAddr(net.UDPAddr{IP: net.IP{10, 0, 0, 1}, Port: 6454}))
	}
	vs.RaceDetect()
	a := startCtrl(fps, opts...)
	b := artnet.NewController("second", net.IP{2, 0, 0, 2}, log(), artnet.MaxFPS(fps))
	vs.Assert(b.Start() == nil, "start")
	vs.Settle()
	n := 0
	for _, q := range vs.Sent() {
		if goodPoll(q.Data) {
			n++
			vs.Assert(sentTo(q, bcast, 6454), "a controller polls another one's broadcast address")
		}
	}
	vs.Assert(n == 1, "a starting controller does not poll once")
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2}, ins: []uint8{3, 1}}
	p.announce()
	tables(a, []known{{p: p}})
	tables(b, []known{{p: p}})
	vs.ClearSent()
	f := [512]byte{0: 1, 1: vs.U8("f")}
	g := [512]byte{0: 2, 1: vs.U8("g")}
	a.SendDMXToAddress(f, p.out(0))
	to := vs.Choose("to", 3)
	if to < 2 {
		b.SendDMXToAddress(g, p.out(to))
	}
	vs.Schedule(vs.Tier(1, 2), 1)
	vs.Advance(frame(fps))
	vs.Settle()
	vs.Schedule(0, 0)
	// each controller sent both outputs once, numbered 1 and 2
	var nf, ng int
	var seqs [3]int
	out := dmxSent()
	vs.Assert(len(out) == 4, "two controllers do not send each output once")
	for _, d := range out {
		vs.Assert(d.seq == 1 || d.seq == 2, "controllers share sequence numbers")
		seqs[d.seq]++
		if d.addr == p.out(0) && d.data[0] == 1 {
			nf++
			vs.Assert(vs.EqBytes(d.data, f[:]), "a frame is altered")
		}
		if to < 2 && d.addr == p.out(to) && d.data[0] == 2 {
			ng++
			vs.Assert(vs.EqBytes(d.data, g[:]), "a frame is altered")
		}
	}
	vs.Assert(seqs[1] == 2 && seqs[2] == 2, "controllers share sequence numbers")
	vs.Assert(nf == 1, "a frame is not sent by the controller it was given to alone")
	vs.Assert(to == 2 || ng == 1, "a frame is not sent by the controller it was given to alone")
	a.Stop()
	vs.Settle()
	vs.ClearSent()
	vs.Advance(3 * time.Second)
	vs.Settle()
	n = 0
	for _, q := range vs.Sent() {
		if goodPoll(q.Data) {
			n++
		}
		if isDMX(q) {
			d := asDMX(q)
			vs.Assert(d.data[0] != 1, "a stopped controller's data is sent")
			vs.Assert(to == 2 || d.addr != p.out(to) || vs.EqBytes(d.data, g[:]), "stopping one controller changes another one's data")
		}
	}
	vs.Assert(n == 1, "stopping one controller stops another one's polls")
	vs.Assert(len(dmxSent()) > 6, "stopping one controller stops another one's updates")
	vs.Reach("done")
	b.Stop()
	vs.Settle()
	vs.Assert(vs.Goroutines() == 0, "a stopped controller leaves goroutines running")
}
