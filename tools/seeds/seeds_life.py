import os, runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_net.py"))["HEAD"]
SEEDS = [
 dict(id="reply-cached", property="C29",
  edits=[("node.go", '''	p := ArtPollReplyFromConfig(n.Config)
	me, err := p.MarshalBinary()
	if err != nil {
		n.log.With(Fields{"err": err}).Error("error creating ArtPollReply packet for self")
		return
	}
''', '''	if n.reply == nil {
		b, err := ArtPollReplyFromConfig(n.Config).MarshalBinary()
		if err != nil {
			n.log.With(Fields{"err": err}).Error("error creating ArtPollReply packet for self")
			return
		}
		n.reply = b
	}
	me := n.reply
'''), ("node.go", "	callbacks map[code.OpCode]NodeCallbackFn\n}\n", "	callbacks map[code.OpCode]NodeCallbackFn\n\n	// reply is the node's own ArtPollReply packet\n	reply []byte\n}\n")],
  needs="a node that is stopped, reconfigured and started again",
  breaks="it goes on announcing the configuration of its first run",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b := listen(t, "127.0.0.9", 6454)
	defer b.Close()
	s := listen(t, "127.0.0.4", 6454)
	defer s.Close()
	n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 3), quiet(), artnet.NodeListenAddress(addr("127.0.0.3", 6454)), artnet.NodeBroadcastAddress(addr("127.0.0.9", 6454)))
	for oem := uint16(1); oem < 4; oem++ {
		n.Config.OEM = oem
		if err := n.Start(); err != nil {
			t.Fatal(err)
		}
		s.sendTo(poll(), "127.0.0.3", 6454)
		ps := b.recv(2*time.Second, code.OpPollReply, 1)
		n.Stop()
		if len(ps) != 1 || ps[0].(*packet.ArtPollReplyPacket).Oem != oem {
			t.Fatalf("no reply with OEM code %d", oem)
		}
		time.Sleep(100 * time.Millisecond)
	}
}
'''),
 dict(id="restart-keeps-tables", property="C29",
  edits=[("controller.go", '''	c.OutputAddress = make(map[Address]*ControlledNode)
	c.InputAddress = make(map[Address]*ControlledNode)
''', '''	if c.OutputAddress == nil {
		c.OutputAddress = make(map[Address]*ControlledNode)
		c.InputAddress = make(map[Address]*ControlledNode)
	}
''')],
  needs="a controller that is stopped while it knows nodes and started again",
  breaks="it sends data, forever, to outputs nobody has announced in this run",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := listen(t, "127.0.0.5", 6454)
	defer n.Close()
	c := startController(t)
	n.sendTo(reply("127.0.0.5", 1), "127.0.0.1", 6454)
	if len(n.recv(2*time.Second, code.OpDMX, 1)) != 1 {
		t.Fatal("not discovered")
	}
	c.Stop()
	n.recv(300*time.Millisecond, code.OpDMX, 1000)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	if len(n.recv(time.Second, code.OpDMX, 1)) != 0 {
		t.Fatal("data for an output that was not announced")
	}
	n.sendTo(reply("127.0.0.5", 1), "127.0.0.1", 6454)
	if len(n.recv(2*time.Second, code.OpDMX, 1)) != 1 {
		t.Fatal("not discovered again")
	}
}
'''),
 dict(id="shared-header", property="C30", pkg="./packet", race=True,
  edits=[("packet/packet.go", "	h := Header{}\n", "	h = Header{}\n"),
         ("packet/packet.go", "// Unmarshal will", "// h is the header of the packet being decoded\nvar h Header\n\n// Unmarshal will")],
  needs="two goroutines decoding packets at the same time",
  breaks="one decodes its datagram as the other's kind of packet, or fails",
  demo='''package packet_test

import (
	"sync"
	"testing"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for op, p := range map[code.OpCode]packet.ArtNetPacket{code.OpPoll: packet.NewArtPollPacket(), code.OpSync: packet.NewArtSyncPacket(), code.OpDMX: packet.NewArtDMXPacket()} {
		op := op
		b, err := p.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				q, err := packet.Unmarshal(b)
				if err != nil || q.GetOpCode() != op {
					t.Errorf("decoded as %v, %v", q, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id="shared-callbacks", property="C31",
  edits=[("node.go", '''	n.callbacks = map[code.OpCode]NodeCallbackFn{
		code.OpPoll:      n.handlePacketPoll,
		code.OpPollReply: n.handlePacketPollReply,
	}
''', '''	n.callbacks = requiredCallbacks
	n.callbacks[code.OpPoll] = n.handlePacketPoll
	n.callbacks[code.OpPollReply] = n.handlePacketPollReply
'''), ("node.go", "// NewNode return a Node\n", "// requiredCallbacks are the callbacks every node has\nvar requiredCallbacks = map[code.OpCode]NodeCallbackFn{}\n\n// NewNode return a Node\n")],
  needs="two nodes in one process",
  breaks="polls to the first node are handed to the second, which answers them",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b := listen(t, "127.0.0.9", 6454)
	defer b.Close()
	s := listen(t, "127.0.0.4", 6454)
	defer s.Close()
	for i, ip := range []string{"127.0.0.3", "127.0.0.7"} {
		n := artnet.NewNode("demo", code.StNode, net.ParseIP(ip), quiet(), artnet.NodeListenAddress(addr(ip, 6454)), artnet.NodeBroadcastAddress(addr("127.0.0.9", 6454)))
		n.Config.OEM = uint16(i + 1)
		if err := n.Start(); err != nil {
			t.Fatal(err)
		}
		defer n.Stop()
	}
	for i, ip := range []string{"127.0.0.3", "127.0.0.7"} {
		s.sendTo(poll(), ip, 6454)
		ps := b.recv(2*time.Second, code.OpPollReply, 1)
		if len(ps) != 1 || ps[0].(*packet.ArtPollReplyPacket).Oem != uint16(i+1) {
			t.Fatalf("node %d did not answer", i+1)
		}
	}
}
'''),
 dict(id="stop-clears-conn", property="C31", race=True,
  edits=[("node.go", '''			n.log.Printf("failed to close read socket: %v")
		}
''', '''			n.log.Printf("failed to close read socket: %v")
		}
		n.conn = nil
''')],
  needs="stopping a node while another of its goroutines reads or writes the socket",
  breaks="the connection is replaced under the reader's feet without synchronisation",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	s := listen(t, "127.0.0.4", 6454)
	defer s.Close()
	for i := 0; i < 100; i++ {
		n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 3), quiet(), artnet.NodeListenAddress(addr("127.0.0.3", 6454)), artnet.NodeBroadcastAddress(addr("127.0.0.9", 6454)))
		if err := n.Start(); err != nil {
			t.Fatal(err)
		}
		for j := 0; j < 20; j++ {
			s.sendTo(poll(), "127.0.0.3", 6454)
		}
		time.Sleep(time.Duration(i%10) * 50 * time.Microsecond)
		n.Stop()
		time.Sleep(time.Millisecond)
	}
}
'''),
 dict(id="callback-pool", property="C32",
  edits=[("node.go", "			go n.handlePacket(p)\n", "			sem <- struct{}{}\n			go func() {\n				n.handlePacket(p)\n				<-sem\n			}()\n"),
         ("node.go", "	// loop until shutdown\n	for {\n		select {\n		case payload := <-n.recvCh:", "	// do not let a flood of packets start any number of handlers\n	sem := make(chan struct{}, 32)\n\n	// loop until shutdown\n	for {\n		select {\n		case payload := <-n.recvCh:")],
  needs="32 packets whose callbacks have not returned yet",
  breaks="the node no longer answers polls or delivers anything until one of them returns",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b := listen(t, "127.0.0.9", 6454)
	defer b.Close()
	s := listen(t, "127.0.0.4", 6454)
	defer s.Close()
	n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 3), quiet(), artnet.NodeListenAddress(addr("127.0.0.3", 6454)), artnet.NodeBroadcastAddress(addr("127.0.0.9", 6454)))
	release := make(chan struct{})
	defer close(release)
	n.RegisterCallback(code.OpSync, func(packet.ArtNetPacket) { <-release })
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	p, err := packet.NewArtSyncPacket().MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 60; i++ {
		s.sendTo(p, "127.0.0.3", 6454)
		time.Sleep(time.Millisecond)
	}
	s.sendTo(poll(), "127.0.0.3", 6454)
	if len(b.recv(2*time.Second, code.OpPollReply, 1)) != 1 {
		t.Fatal("no reply while callbacks are busy")
	}
}
'''),
]
