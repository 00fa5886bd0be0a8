//go:build go1.21

package h

import (
	"net"
	"time"

	"github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

// count increments a counter of the harness.
func count(n *int) {
	vs.Lock()
	*n++
	vs.Unlock()
}

// ---- C20 ----

// stopped: nothing is left behind and nothing happens any more.
func stopped(sent int) {
	vs.Settle()
	vs.Assert(vs.OpenSockets() == 0, "stopping does not close the socket")
	vs.Assert(vs.Goroutines() == 0, "stopping leaves goroutines running")
	vs.Inject(pollDatagram(), otherIP, 6454)
	vs.Advance(4 * time.Second)
	vs.Settle()
	vs.Assert(len(vs.Sent()) == sent, "something is transmitted after stop has returned")
	vs.Assert(vs.Goroutines() == 0, "goroutines start after stop has returned")
}

// H_C20_node: a node is stopped with traffic in flight.
func H_C20_node() {
	vs.Bound("a node with 0..3 datagrams in flight (polls, a packet with a callback, a poll reply), up to 2 (thorough: 3) preemptions or delays, 3 (thorough: 5) contested selects forked")
	n := newNode()
	calls := 0
	n.RegisterCallback(code.OpSync, func(p packet.ArtNetPacket) { count(&calls) })
	n.Config.Type = code.StyleCode(vs.Choose("style", 2))
	what := vs.Choose("traffic", 4)
	early := vs.Choose("early", 2) == 1
	vs.Schedule(vs.Tier(2, 3), vs.Tier(3, 5))
	vs.Assert(n.Start() == nil, "start")
	if !early {
		vs.Settle()
	}
	switch what {
	case 1:
		vs.Inject(pollDatagram(), otherIP, 6454)
	case 2:
		vs.Inject(pollDatagram(), otherIP, 6454)
		vs.Inject(pollDatagram(), otherIP, 6454)
	case 3:
		vs.Inject(wireOf(&packet.ArtSyncPacket{}), otherIP, 6454)
		vs.Inject(wireOf(&packet.ArtPollReplyPacket{Port: 6454}), otherIP, 6454)
		vs.InjectErr(111)
	}
	n.Stop()
	sent := len(vs.Sent())
	vs.Reach("stopped")
	stopped(sent)
	n.Stop()
	stopped(sent)
}

// H_C20_flood: a node is stopped with more work pending than its queues hold.
func H_C20_flood() {
	vs.Bound("a node of node or controller style with 30 polls or 30 poll replies pending, stopped before or after 0..2 goroutine switches; 1 delay")
	n := newNode()
	n.Config.Type = code.StyleCode(vs.Choose("style", 2))
	b := pollDatagram()
	if vs.Choose("what", 2) == 1 {
		b = wireOf(&packet.ArtPollReplyPacket{Port: 6454})
	}
	settle := vs.Choose("settle", 2) == 1
	vs.Assert(n.Start() == nil, "start")
	vs.Settle()
	vs.Schedule(1, vs.Tier(1, 2))
	for i := 0; i < 30; i++ {
		vs.Inject(b, otherIP, 6454)
	}
	if settle {
		vs.Settle()
	}
	n.Stop()
	sent := len(vs.Sent())
	vs.Reach("stopped")
	stopped(sent)
}

// H_C20_callback: callbacks that block, or stop the node themselves.
func H_C20_callback() {
	vs.Bound("1..12 packets for a callback that blocks until after the stop, or that stops the node itself; 1 (thorough: 2) delays")
	n := newNode()
	release := make(chan struct{})
	self := vs.Choose("self", 2) == 1
	done := 0
	n.RegisterCallback(code.OpSync, func(p packet.ArtNetPacket) {
		if self {
			n.Stop()
		} else {
			<-release
		}
		count(&done)
	})
	k := []int{1, 2, 12}[vs.Choose("packets", 3)]
	vs.Assert(n.Start() == nil, "start")
	vs.Settle()
	if k < 12 {
		vs.Schedule(vs.Tier(1, 2), 2)
	}
	for i := 0; i < k; i++ {
		vs.Inject(wireOf(&packet.ArtSyncPacket{}), otherIP, 6454)
	}
	vs.Settle()
	if self {
		vs.Assert(done >= 1, "a callback cannot stop its node")
		vs.Reach("self")
		stopped(0)
		return
	}
	// callbacks that block do not keep the node from stopping
	n.Stop()
	vs.Settle()
	vs.Assert(vs.OpenSockets() == 0, "stopping does not close the socket")
	close(release)
	vs.Reach("released")
	stopped(0)
	vs.Assert(done == k, "a callback did not get its packet")
}

// H_C20_controller: a controller is stopped at any time.
func H_C20_controller() {
	vs.Bound("a controller knowing no or one node of 2 outputs, stopped before or at a poll, sweep or update, or as a reply arrives; up to 2 (thorough: 3) preemptions or delays, 2 (thorough: 4) contested selects forked")
	const fps = 1
	c := newCtrl(fps)
	when := vs.Choose("when", 5)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2}}
	vs.Assert(c.Start() == nil, "start")
	if when > 0 {
		vs.Settle()
		p.announce()
		c.SendDMXToAddress([512]byte{1}, p.out(0))
	}
	switch when {
	case 0, 1:
		vs.Schedule(vs.Tier(2, 3), vs.Tier(2, 4))
	case 2: // at an update
		vs.Advance(time.Second - 1)
		vs.Schedule(vs.Tier(2, 3), vs.Tier(2, 4))
		vs.Advance(1)
	case 3: // at a poll and sweep
		vs.Advance(3*time.Second - 1)
		vs.Settle()
		vs.Schedule(vs.Tier(1, 2), vs.Tier(2, 4))
		vs.Advance(1)
	case 4: // replies in flight
		vs.Schedule(vs.Tier(2, 3), vs.Tier(2, 4))
		vs.Inject(wireOf(p.packet()), p.ip, 6454)
		vs.Inject(wireOf(p.packet()), p.ip, 6454)
	}
	c.Stop()
	sent := len(vs.Sent())
	vs.Reach("stopped")
	stopped(sent)
	c.Stop()
	stopped(sent)
}

// H_C20_pending: a controller is stopped with more packets to send than its queue holds.
func H_C20_pending() {
	vs.Bound("a controller with 3..6 nodes of 4 outputs each, stopped just before, at or after an update, or after writes failed; 1 (thorough: 2) delays, 2 contested selects forked")
	const fps = 7
	c := startCtrl(fps)
	m := 3 + 3*vs.Choose("nodes", 2)
	for i := 0; i < m; i++ {
		peer{ip: [4]byte{2, 0, 0, byte(10 + i)}, sub: uint8(i), outs: []uint8{1, 2, 3, 4}}.announce()
	}
	vs.Advance(frame(fps) - 1)
	vs.Settle()
	if vs.Choose("fail", 2) == 1 {
		vs.FailWrites(5, 101)
	}
	late := vs.Choose("late", 2) == 1
	vs.Schedule(vs.Tier(1, 2), 2)
	vs.Advance(1)
	if late {
		vs.Settle()
	}
	c.Stop()
	vs.Reach("stopped")
	sent := len(vs.Sent())
	stopped(sent)
}

// H_C20_idle: stopping what is not running.
func H_C20_idle() {
	vs.Bound("node and controller: 1..3 stops before start, after 1..2 failed starts (socket or configuration), after a stop, and two concurrent stops of a running one; up to 3 preemptions")
	var start func() error
	var stop func()
	var n *artnet.Node
	if vs.Choose("what", 2) == 0 {
		n = newNode()
		start, stop = n.Start, n.Stop
		vs.Reach("node")
	} else {
		c := artnet.NewController("ctrl", net.IP{2, 0, 0, 1}, log(), artnet.MaxFPS(1))
		start, stop = c.Start, c.Stop
		vs.Reach("controller")
	}
	switch vs.Choose("state", 4) {
	case 0: // never started
	case 1:
		vs.FailListen(true)
		tries := vs.Choose("tries", 2)
		for i := 0; i <= tries; i++ {
			vs.Assert(start() != nil, "a start without a socket succeeds")
		}
		vs.FailListen(false)
	case 2:
		if n == nil {
			return
		}
		n.Config.InputPorts = make([]artnet.InputPort, 5)
		vs.Assert(n.Start() != nil, "a start with five inputs succeeds")
	case 3:
		vs.Assert(start() == nil, "start")
		vs.Schedule(vs.Tier(2, 3), 1)
		done := 0
		for i := 0; i < 2; i++ {
			go func() {
				stop()
				count(&done)
			}()
		}
		vs.Settle()
		vs.Assert(done == 2, "concurrent stops do not return")
		vs.Reach("concurrent")
	}
	sent := len(vs.Sent())
	k := 1 + vs.Choose("stops", 3)
	for i := 0; i < k; i++ {
		stop()
	}
	vs.Reach("stopped")
	stopped(sent)
}

// ---- C27 ----

// till sleeps until an instant.
func till(t int64) {
	if d := t - vs.Clock(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// H_C27_frames: several goroutines submit frames while updates run.
func H_C27_frames() {
	vs.Bound("2 (thorough: 3) goroutines each submitting 1 (thorough: 2) frames of arbitrary content to the same or different universes of one node while an update runs; up to 2 (thorough: 3) preemptions, races by happens-before")
	const fps = 7
	c := startCtrl(fps)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2}}
	p.announce()
	vs.Advance(frame(fps) - 1)
	vs.Settle()
	vs.ClearSent()
	due := vs.Clock() + 1 // the instant of the update
	vs.RaceDetect()
	vs.Schedule(vs.Tier(2, 3), 2)
	vs.Coincide(vs.Tier(0, 1))
	k := vs.Tier(2, 3)
	to := make([]int, k)
	frames := make([][512]byte, k)
	done := 0
	for i := 0; i < k; i++ {
		i := i
		to[i] = vs.Choose("to", 2)
		a := vs.U8("ch")
		for j := range frames[i] {
			frames[i][j] = a
		}
		go func() {
			till(due)
			c.SendDMXToAddress(frames[i], p.out(to[i]))
			count(&done)
		}()
	}
	vs.Advance(1)
	vs.Settle()
	vs.Assert(done == k, "submitting a frame does not return")
	whole := func() {
		for _, d := range dmxSent() {
			o := -1
			for i := range p.outs {
				if d.addr == p.out(i) {
					o = i
				}
			}
			vs.Assert(o >= 0, "a packet for another address")
			vs.Assert(isFrame(d.data, o, to, frames, true), "a packet carries something other than one whole submitted frame")
		}
	}
	whole()
	vs.ClearSent()
	vs.Advance(2 * frame(fps))
	vs.Settle()
	whole()
	// afterwards: what each universe holds
	vs.ClearSent()
	vs.Advance(time.Second)
	vs.Settle()
	for o := range p.outs {
		n := 0
		hit := false
		for i := range to {
			if to[i] == o {
				hit = true
			}
		}
		for _, d := range dmxSent() {
			if d.addr == p.out(o) {
				n++
				vs.Assert(isFrame(d.data, o, to, frames, !hit), "a universe does not hold one whole submitted frame")
			}
		}
		vs.Assert(n > 0, "a universe is no longer refreshed")
	}
	vs.Reach("done")
	c.Stop()
}

// isFrame: the data is one of the frames submitted to output o (or all zero, if allowed).
func isFrame(d []byte, o int, to []int, frames [][512]byte, zero bool) bool {
	ok := false
	if zero {
		var z [512]byte
		ok = vs.EqBytes(d, z[:])
	}
	for i := range to {
		if to[i] == o {
			ok = vs.Or(ok, vs.EqBytes(d, frames[i][:]))
		}
	}
	return ok
}

// H_C27_churn: frames, replies, updates and sweeps at once.
func H_C27_churn() {
	vs.Bound("a goroutine submitting 2 frames, replies of the same (changed) and of a new node arriving, an update, a poll and a sweep that drops a silent node, all at one instant; up to 1 (thorough: 2) preemptions, races by happens-before; then data flows to every announced output")
	const fps = 1
	c := startCtrl(fps)
	old := peer{ip: [4]byte{2, 0, 0, 12}, sub: 2, outs: []uint8{5}}
	old.announce()
	vs.Advance(8 * time.Second)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1}}
	q := peer{ip: [4]byte{2, 0, 0, 11}, sub: 1, outs: []uint8{3}}
	p.announce()
	vs.Advance(time.Second - 1)
	vs.Settle()
	vs.ClearSent()
	due := vs.Clock() + 1 // the instant of the update
	vs.RaceDetect()
	vs.Schedule(vs.Tier(1, 2), vs.Tier(1, 2))
	vs.Coincide(1)
	f := [512]byte{3: 1, 100: vs.U8("f"), 511: 9}
	g := [512]byte{3: 2, 200: vs.U8("g"), 510: 8}
	p2 := p
	if vs.Choose("changed", 2) == 1 {
		p2.outs = []uint8{1, 2}
	}
	done := 0
	go func() {
		till(due)
		c.SendDMXToAddress(f, p.out(0))
		c.SendDMXToAddress(g, old.out(0))
		count(&done)
	}()
	go func() {
		till(due)
		vs.Inject(wireOf(p2.packet()), p.ip, 6454)
		vs.Inject(wireOf(q.packet()), q.ip, 6454)
		count(&done)
	}()
	vs.Advance(1)
	vs.Settle()
	vs.Assert(done == 2, "submitting a frame does not return")
	for _, d := range dmxSent() {
		whole := vs.Or(vs.EqBytes(d.data, f[:]), vs.EqBytes(d.data, g[:]), vs.EqBytes(d.data, make([]byte, 512)))
		vs.Assert(whole, "a packet carries something other than one whole submitted frame")
	}
	tables(c, []known{{p: p2}, {p: q}})
	vs.ClearSent()
	vs.Advance(time.Second)
	vs.Settle()
	n := 0
	for _, d := range dmxSent() {
		switch {
		case d.ip == p.ip && d.addr == p.out(0):
			vs.Assert(vs.EqBytes(d.data, f[:]), "a submitted frame is lost")
			n++
		case d.ip == p.ip && len(p2.outs) == 2 && d.addr == p2.out(1), d.ip == q.ip && d.addr == q.out(0):
			vs.Assert(vs.EqBytes(d.data, make([]byte, 512)), "an output nobody submitted to is not zero")
			n++
		default:
			vs.Assert(false, "a packet for an address nobody announces")
		}
	}
	vs.Assert(n == len(p2.outs)+1, "an announced output is not refreshed")
	vs.Reach("done")
	c.Stop()
}

// H_C27_flood: more packets to send than the queue holds, while frames are submitted.
func H_C27_flood() {
	vs.Bound("12 outputs and 3 submissions racing with an update whose packets overflow the send queue; 1 (thorough: 2) preemptions; no deadlock, every submission returns")
	const fps = 7
	c := startCtrl(fps)
	for i := 0; i < 3; i++ {
		peer{ip: [4]byte{2, 0, 0, byte(10 + i)}, sub: uint8(i), outs: []uint8{1, 2, 3, 4}}.announce()
	}
	vs.Advance(frame(fps) - 1)
	vs.Settle()
	vs.ClearSent()
	due := vs.Clock() + 1 // the instant of the update
	vs.RaceDetect()
	vs.Schedule(vs.Tier(1, 2), 1)
	vs.Coincide(1)
	done := 0
	for i := 0; i < 3; i++ {
		a := artnet.Address{SubUni: uint8(i)<<4 | 1}
		go func() {
			till(due)
			c.SendDMXToAddress([512]byte{1: 1}, a)
			count(&done)
		}()
	}
	vs.Advance(1)
	vs.Settle()
	vs.Reach("done")
	vs.Assert(done == 3, "submitting a frame does not return")
	vs.Advance(frame(fps))
	vs.Settle()
	var n [3]int
	for _, d := range dmxSent() {
		if d.addr.SubUni&15 == 1 && d.data[1] == 1 {
			n[d.addr.SubUni>>4]++
		}
	}
	vs.Assert(n == [3]int{1, 1, 1}, "a submitted frame is not sent exactly once")
	vs.Inject(pollDatagram(), otherIP, 6454)
	c.Stop()
	vs.Settle()
	vs.Assert(vs.Goroutines() == 0, "a stopped controller leaves goroutines running")
}

// H_C27_crowd: many known nodes.
func H_C27_crowd() {
	vs.Bound("9 known nodes of 1..4 outputs, a frame submitted to one of the first and one of the last, two replies (one of a new node, one changing the outputs) and an update or a sweep that drops one, at once; 1 (thorough: 2) preemptions, races by happens-before")
	const fps = 1
	c := startCtrl(fps)
	ps := crowd(10, false)
	for _, p := range ps[:9] {
		p.announce()
	}
	sweep := vs.Choose("sweep", 2) == 1
	if sweep {
		vs.Advance(4 * time.Second)
		for _, p := range ps[1:9] {
			p.announce()
		}
		vs.Advance(5*time.Second - 1)
	} else {
		vs.Advance(frame(fps) - 1)
	}
	vs.Settle()
	vs.ClearSent()
	due := vs.Clock() + 1
	vs.RaceDetect()
	vs.Schedule(vs.Tier(1, 2), 1)
	vs.Coincide(1)
	done := 0
	for _, a := range []artnet.Address{ps[1].out(0), ps[8].out(0)} {
		a := a
		go func() {
			till(due)
			c.SendDMXToAddress([512]byte{1: 1}, a)
			count(&done)
		}()
	}
	ps[5].outs = []uint8{2, 3}
	vs.Inject(wireOf(ps[9].packet()), ps[9].ip, 6454)
	vs.Inject(wireOf(ps[5].packet()), ps[5].ip, 6454)
	vs.Advance(1)
	vs.Settle()
	vs.Assert(done == 2, "submitting a frame does not return")
	vs.Advance(frame(fps))
	vs.Settle()
	var n [2]bool
	for _, d := range dmxSent() {
		n[0] = n[0] || d.addr == ps[1].out(0) && d.data[1] == 1
		n[1] = n[1] || d.addr == ps[8].out(0) && d.data[1] == 1
	}
	vs.Assert(n[0] && n[1], "a submitted frame is not sent")
	if sweep {
		ps = ps[1:]
	}
	var ks []known
	for _, p := range ps {
		ks = append(ks, known{p: p})
	}
	tables(c, ks)
	vs.Reach("done")
	c.Stop()
}

// H_C27_stop: frames submitted while the controller stops, and afterwards.
func H_C27_stop() {
	vs.Bound("2 goroutines submitting 1..2 frames each while an update with more packets than the queue holds runs and the controller is stopped, and 1 or 300 more submitted afterwards; 1 (thorough: 2) preemptions, races by happens-before")
	const fps = 7
	c := startCtrl(fps)
	ps := crowd(3, true)
	for _, p := range ps {
		p.announce()
	}
	vs.Advance(frame(fps) - 1)
	vs.Settle()
	due := vs.Clock() + 1
	vs.RaceDetect()
	vs.Schedule(vs.Tier(1, 2), 1)
	vs.Coincide(1)
	done := 0
	k := 1 + vs.Choose("frames", 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			till(due)
			for j := 0; j < k; j++ {
				c.SendDMXToAddress([512]byte{1: 1}, ps[i].out(j))
			}
			count(&done)
		}()
	}
	go func() {
		till(due)
		c.Stop()
		count(&done)
	}()
	vs.Advance(1)
	vs.Settle()
	vs.Assert(done == 3, "submitting a frame does not return while the controller is stopped")
	vs.Schedule(0, 0)
	vs.ClearSent()
	after := []int{1, 300}[vs.Choose("after", 2)]
	for i := 0; i < after; i++ {
		c.SendDMXToAddress([512]byte{1: 1}, ps[0].out(0))
	}
	vs.Advance(time.Second)
	vs.Settle()
	vs.Assert(len(vs.Sent()) == 0, "a frame submitted after the stop is sent")
	vs.Assert(vs.Goroutines() == 0, "a stopped controller leaves goroutines running")
	vs.Reach("done")
}

// H_C27_many: many frames between two updates.
func H_C27_many() {
	vs.Bound("300 (thorough: 1200) frames to 1..2 outputs by 1 or 3 goroutines between two updates, a known and an unknown address; any one goroutine running only when nothing else can")
	const fps = 7
	c := startCtrl(fps)
	p := peer{ip: [4]byte{2, 0, 0, 10}, outs: []uint8{1, 2}}
	p.announce()
	vs.Advance(frame(fps) + 1)
	vs.Settle()
	vs.ClearSent()
	vs.Starve()
	n, k := vs.Tier(300, 1200), 1+2*vs.Choose("goroutines", 2)
	unknown := vs.Choose("unknown", 2) == 1
	done := 0
	for g := 0; g < k; g++ {
		go func() {
			for i := 0; i < n/k; i++ {
				c.SendDMXToAddress([512]byte{1: byte(i), 2: byte(i >> 8)}, p.out(i%2))
				if unknown {
					c.SendDMXToAddress([512]byte{1: byte(i)}, artnet.Address{Net: 9})
				}
			}
			count(&done)
		}()
	}
	vs.Settle()
	vs.Assert(done == k, "submitting a frame does not return")
	vs.Advance(frame(fps))
	vs.Settle()
	out := dmxSent()
	vs.Assert(len(out) == 2, "submitted frames are not sent at the next update")
	for _, d := range out {
		last := n/k - 1
		if (d.addr == p.out(1)) != (last%2 == 1) {
			last--
		}
		vs.Assert(d.data[1] == byte(last) && d.data[2] == byte(last>>8), "not the latest frame is sent")
	}
	vs.Reach("done")
	c.Stop()
}

// H_C27_portless: nodes without outputs are no trouble.
func H_C27_portless() {
	vs.Bound("no node, one with only inputs, or one without ports, known for up to three updates; a frame submitted, then one for a node with an output")
	const fps = 7
	c := startCtrl(fps)
	p := peer{ip: [4]byte{2, 0, 0, 10}}
	switch vs.Choose("ports", 3) {
	case 0:
		p.ins = []uint8{1}
		p.announce()
	case 1:
		p.announce()
	}
	vs.RaceDetect()
	vs.Advance(frame(fps) * time.Duration(vs.Choose("updates", 3)))
	vs.Settle()
	vs.Schedule(1, 1)
	done := 0
	go func() {
		c.SendDMXToAddress([512]byte{1}, artnet.Address{SubUni: 1})
		count(&done)
	}()
	vs.Advance(frame(fps))
	vs.Settle()
	vs.Assert(done == 1, "submitting a frame does not return")
	vs.Assert(len(dmxSent()) == 0, "data is sent although no output is known")
	p.outs = []uint8{1}
	p.announce()
	c.SendDMXToAddress([512]byte{1: 7}, p.out(0))
	vs.Advance(frame(fps))
	vs.Settle()
	out := dmxSent()
	vs.Reach("done")
	vs.Assert(len(out) == 1 && out[0].addr == p.out(0) && out[0].data[1] == 7, "a submitted frame is not sent")
	c.Stop()
}
