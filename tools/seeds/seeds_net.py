HEAD = '''package artnet_test

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"
)

var _ = bytes.Equal
var _ = fmt.Sprint
var _ = runtime.NumGoroutine
var _ = strings.Contains
var _ sync.Mutex
var _ = code.OpDMX
var _ = time.Now
var _ = packet.ArtNetPort

// quiet is a logger that writes nothing
func quiet() artnet.Logger {
	l := logrus.New()
	l.Out = io.Discard
	return artnet.NewLogger(logrus.NewEntry(l))
}

func addr(ip string, port int) net.UDPAddr {
	return net.UDPAddr{IP: net.ParseIP(ip).To4(), Port: port}
}

// sock is one participant of the network
type sock struct {
	t *testing.T
	*net.UDPConn
}

func listen(t *testing.T, ip string, port int) sock {
	a := addr(ip, port)
	c, err := net.ListenUDP("udp4", &a)
	if err != nil {
		t.Fatal(err)
	}
	c.SetReadBuffer(4 << 20)
	return sock{t, c}
}

// sendTo sends b to ip:port
func (s sock) sendTo(b []byte, ip string, port int) {
	a := addr(ip, port)
	if _, err := s.WriteToUDP(b, &a); err != nil {
		s.t.Fatal(err)
	}
}

// recv returns the packets of the wanted kind received within d
func (s sock) recv(d time.Duration, op code.OpCode, max int) (ps []packet.ArtNetPacket) {
	s.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for len(ps) < max {
		n, err := s.Read(b)
		if err != nil {
			return
		}
		p, err := packet.Unmarshal(b[:n])
		if err != nil {
			s.t.Fatalf("malformed packet: %v", err)
		}
		if p.GetOpCode() == op {
			ps = append(ps, p)
		}
	}
	return
}

// reply returns the poll reply of a node at ip with the given outputs of net 0, sub-net 0
func reply(ip string, outs ...byte) []byte {
	p := packet.NewArtPollReplyPacket()
	p.Port = packet.ArtNetPort
	copy(p.IPAddress[:], net.ParseIP(ip).To4())
	p.NumPorts = uint16(len(outs))
	for i, o := range outs {
		p.PortTypes[i] = p.PortTypes[i].WithOutput(true)
		p.SwOut[i] = o
	}
	b, err := p.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

func poll() []byte {
	b, err := packet.NewArtPollPacket().MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

// startController starts a controller at 127.0.0.1:6454 that broadcasts to 127.0.0.9:6454
func startController(t *testing.T, opts ...artnet.Option) *artnet.Controller {
	opts = append([]artnet.Option{artnet.ListenAddress(addr("127.0.0.1", 6454)), artnet.BroadcastAddr(addr("127.0.0.9", 6454)), artnet.MaxFPS(100)}, opts...)
	c := artnet.NewController("demo", net.IPv4(127, 0, 0, 1).To4(), quiet(), opts...)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	return c
}

var _, _, _ = listen, poll, startController
'''
SEEDS = [
 dict(id="ip-16-byte-form", property="C14",
  edits=[("config.go", "copy(p.IPAddress[0:4], c.IP.To4())", "copy(p.IPAddress[0:4], c.IP)")],
  needs="a node configuration whose IPv4 address is in its 16-byte form, as net.ParseIP and net.IPv4 return it",
  breaks="the node announces the address 0.0.0.0",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	for _, ip := range []net.IP{net.ParseIP("10.1.2.3"), net.ParseIP("10.1.2.3").To4()} {
		p := artnet.ArtPollReplyFromConfig(artnet.NodeConfig{IP: ip})
		if c := artnet.ConfigFromArtPollReply(*p); !c.IP.Equal(ip) {
			t.Fatalf("%v announced as %v", ip, c.IP)
		}
	}
}
'''),
 dict(id="numports-low-byte", property="C15",
  edits=[("config.go", "i < int(p.NumPorts) && i < 4; i++", "i < int(uint8(p.NumPorts)) && i < 4; i++")],
  needs="a poll reply that announces 256 ports (or another multiple of 256 plus fewer than four)",
  breaks="its first four ports are not listed",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	p := packet.NewArtPollReplyPacket()
	p.NumPorts = 256
	for i := range p.PortTypes {
		p.PortTypes[i] = p.PortTypes[i].WithOutput(true)
	}
	if c := artnet.ConfigFromArtPollReply(*p); len(c.OutputPorts) != 4 {
		t.Fatalf("%d ports", len(c.OutputPorts))
	}
}
'''),
 dict(id="validate-last-port", property="C16",
  edits=[("config.go", "	for i := 0; i < 4; i++ {\n		if len(c.InputPorts) <= i", "	for i := 0; i < 3; i++ {\n		if len(c.InputPorts) <= i")],
  needs="a configuration with four inputs and four outputs whose fourth ports differ in protocol",
  breaks="a node with an invalid configuration starts",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 3), quiet(), artnet.NodeListenAddress(addr("127.0.0.3", 6454)))
	n.Config.InputPorts = make([]artnet.InputPort, 4)
	n.Config.OutputPorts = make([]artnet.OutputPort, 4)
	n.Config.OutputPorts[3].Type = n.Config.OutputPorts[3].Type.WithType("MIDI")
	if n.Start() == nil {
		n.Stop()
		t.Fatal("started")
	}
}
'''),
 dict(id="poll-burst-merged", property="C17",
  edits=[("node.go", "			// reply with pollReply\n", "			// reply with pollReply, one is enough for all polls that wait\n			for len(n.pollCh) > 0 {\n				<-n.pollCh\n			}\n")],
  needs="two polls that arrive so close together that the second waits while the first is answered",
  breaks="a burst of polls gets fewer replies than polls",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b := listen(t, "127.0.0.9", 6454)
	defer b.Close()
	n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 3), quiet(), artnet.NodeListenAddress(addr("127.0.0.3", 6454)), artnet.NodeBroadcastAddress(addr("127.0.0.9", 6454)))
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	s := listen(t, "127.0.0.4", 6454)
	defer s.Close()
	const polls = 200
	go func() {
		for i := 0; i < polls; i++ {
			s.sendTo(poll(), "127.0.0.3", 6454)
			if i%20 == 19 {
				time.Sleep(20 * time.Millisecond)
			}
		}
	}()
	if got := len(b.recv(3*time.Second, code.OpPollReply, polls)); got != polls {
		t.Fatalf("%d replies to %d polls", got, polls)
	}
}
'''),
 dict(id="shared-read-buffer", property="C18",
  edits=[("node.go", "				data:    make([]byte, num),\n			}\n			copy(payload.data, b)\n", "				data:    b[:num],\n			}\n")],
  needs="a datagram that arrives before the previous one has been decoded",
  breaks="a callback gets the bytes of a later datagram",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 3), quiet(), artnet.NodeListenAddress(addr("127.0.0.3", 6454)))
	var mu sync.Mutex
	seen := map[uint16]int{}
	n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
		d := p.(*packet.ArtDMXPacket)
		mu.Lock()
		seen[uint16(d.Data[0])<<8|uint16(d.Data[1])]++
		mu.Unlock()
	})
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	n.Connection().SetReadBuffer(16 << 20)
	s := listen(t, "127.0.0.4", 6454)
	defer s.Close()
	for i := 0; i < 3000; i++ {
		d := packet.NewArtDMXPacket()
		d.Data[0], d.Data[1] = byte(i>>8), byte(i)
		b, _ := d.MarshalBinary()
		s.sendTo(b, "127.0.0.3", 6454)
		if i%30 == 29 {
			time.Sleep(time.Millisecond)
		}
	}
	time.Sleep(500 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	for i, k := range seen {
		if k != 1 {
			t.Fatalf("datagram %d delivered %d times", i, k)
		}
	}
}
'''),
 dict(id="timeout-ends-reader", property="C19",
  edits=[("node.go", "				if err == io.EOF {\n", "				if e, ok := err.(net.Error); err == io.EOF || ok && e.Timeout() {\n")],
  needs="a read from the socket that times out",
  breaks="the node stops reading and never answers again",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b := listen(t, "127.0.0.9", 6454)
	defer b.Close()
	n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 3), quiet(), artnet.NodeListenAddress(addr("127.0.0.3", 6454)), artnet.NodeBroadcastAddress(addr("127.0.0.9", 6454)))
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	s := listen(t, "127.0.0.4", 6454)
	defer s.Close()
	n.Connection().SetReadDeadline(time.Now().Add(-time.Second))
	time.Sleep(50 * time.Millisecond)
	n.Connection().SetReadDeadline(time.Time{})
	s.sendTo(poll(), "127.0.0.3", 6454)
	if got := len(b.recv(2*time.Second, code.OpPollReply, 1)); got != 1 {
		t.Fatal("no reply after a read error")
	}
}
'''),
 dict(id="stop-leaks-replier", property="C20",
  edits=[("node.go", "			// TODO: if we are asked to send changes regularly, set the Ticker here\n\n		case <-n.shutdownCh:\n			return\n", "			// TODO: if we are asked to send changes regularly, set the Ticker here\n\n		case <-n.shutdownCh:\n			if len(n.pollCh) == 0 {\n				return\n			}\n			n.shutdownCh = nil\n")],
  needs="stopping a node while an ArtPoll waits for its reply",
  breaks="a goroutine outlives stop",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 300; i++ {
		n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 3), quiet(), artnet.NodeListenAddress(addr("127.0.0.3", 6454)), artnet.NodeBroadcastAddress(addr("127.0.0.9", 6454)))
		if err := n.Start(); err != nil {
			t.Fatal(err)
		}
		s := listen(t, "127.0.0.4", 6454)
		for j := 0; j < 40; j++ {
			s.sendTo(poll(), "127.0.0.3", 6454)
		}
		time.Sleep(time.Duration(i%10) * 20 * time.Microsecond)
		n.Stop()
		s.Close()
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatalf("%d goroutines left over", n-before)
	}
}
'''),
 dict(id="trailing-zeros-kept", property="C21",
  edits=[("controller.go", "	buf.Data = dmx\n", '	copy(buf.Data[:], bytes.TrimRight(dmx[:], "\\x00"))\n')],
  needs="a second frame that ends in zeros where the first had other values",
  breaks="channels faded out keep their old value",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := listen(t, "127.0.0.5", 6454)
	defer n.Close()
	c := startController(t)
	defer c.Stop()
	n.sendTo(reply("127.0.0.5", 1), "127.0.0.1", 6454)
	if len(n.recv(2*time.Second, code.OpDMX, 1)) != 1 {
		t.Fatal("not discovered")
	}
	c.SendDMXToAddress([512]byte{1, 2, 3}, artnet.Address{SubUni: 1})
	n.recv(600*time.Millisecond, code.OpDMX, 1000)
	c.SendDMXToAddress([512]byte{9}, artnet.Address{SubUni: 1})
	ps := n.recv(600*time.Millisecond, code.OpDMX, 1000)
	if len(ps) == 0 || ps[len(ps)-1].(*packet.ArtDMXPacket).Data != [512]byte{9} {
		t.Fatal("wrong frame")
	}
}
'''),
 dict(id="update-same-count", property="C22",
  edits=[("controller.go", '''			// remove references to this node from the output map
			for _, port := range c.Nodes[i].Node.OutputPorts {
				delete(c.OutputAddress, port.Address)
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				delete(c.InputAddress, port.Address)
			}
			c.Nodes[i].Node = cfg
''', '''			// remove references to this node from the output map
			if len(c.Nodes[i].Node.OutputPorts) > len(cfg.OutputPorts) {
				for _, port := range c.Nodes[i].Node.OutputPorts {
					delete(c.OutputAddress, port.Address)
				}
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				delete(c.InputAddress, port.Address)
			}
			c.Nodes[i].Node = cfg
''')],
  needs="a known node that announces another output address with no fewer outputs than before",
  breaks="the old address stays mapped to the node",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := listen(t, "127.0.0.5", 6454)
	defer n.Close()
	c := startController(t)
	defer c.Stop()
	n.sendTo(reply("127.0.0.5", 1), "127.0.0.1", 6454)
	if len(n.recv(2*time.Second, code.OpDMX, 1)) != 1 {
		t.Fatal("not discovered")
	}
	n.sendTo(reply("127.0.0.5", 2), "127.0.0.1", 6454)
	n.recv(300*time.Millisecond, code.OpDMX, 1000)
	for _, p := range n.recv(600*time.Millisecond, code.OpDMX, 1000) {
		if u := p.(*packet.ArtDMXPacket).SubUni; u != 2 {
			t.Fatalf("still sends universe %d", u)
		}
	}
}
'''),
 dict(id="gc-one-per-sweep", property="C23",
  edits=[("controller.go", "start:\n", ""),
         ("controller.go", "			goto start\n", "			break\n")],
  needs="two nodes that fall silent before the same sweep",
  breaks="only one of the expired nodes is dropped",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	a, b := listen(t, "127.0.0.5", 6454), listen(t, "127.0.0.6", 6454)
	defer a.Close()
	defer b.Close()
	c := startController(t)
	defer c.Stop()
	a.sendTo(reply("127.0.0.5", 1), "127.0.0.1", 6454)
	b.sendTo(reply("127.0.0.6", 2), "127.0.0.1", 6454)
	if len(a.recv(2*time.Second, code.OpDMX, 1)) != 1 || len(b.recv(2*time.Second, code.OpDMX, 1)) != 1 {
		t.Fatal("not discovered")
	}
	time.Sleep(9500 * time.Millisecond)
	// the sweep after 9 seconds must have dropped both
	a.recv(100*time.Millisecond, code.OpDMX, 10000)
	b.recv(100*time.Millisecond, code.OpDMX, 10000)
	if len(a.recv(600*time.Millisecond, code.OpDMX, 1)) != 0 || len(b.recv(600*time.Millisecond, code.OpDMX, 1)) != 0 {
		t.Fatal("a silent node still gets data")
	}
}
'''),
 dict(id="sequence-reset-on-reply", property="C24",
  edits=[("controller.go", "			c.Nodes[i].Node = cfg\n", "			c.Nodes[i].Node, c.Nodes[i].Sequence = cfg, 0\n")],
  needs="another poll reply of a known node between two packets sent to it",
  breaks="the sequence starts over",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := listen(t, "127.0.0.5", 6454)
	defer n.Close()
	c := startController(t)
	defer c.Stop()
	last := byte(0)
	for i := 0; i < 4; i++ {
		n.sendTo(reply("127.0.0.5", 1, 2), "127.0.0.1", 6454)
		for _, p := range n.recv(700*time.Millisecond, code.OpDMX, 1000) {
			if s := p.(*packet.ArtDMXPacket).Sequence; s != last+1 {
				t.Fatalf("sequence %d after %d", s, last)
			}
			last++
		}
	}
	if last < 4 {
		t.Fatal("too few packets")
	}
}
'''),
 dict(id="stale-only-if-new", property="C25",
  edits=[("controller.go", "	buf.Data = dmx\n	buf.Stale = true\n", "	buf.Stale = buf.Data != dmx\n	buf.Data = dmx\n")],
  needs="submitting the same new frame twice before the next update",
  breaks="the changed data is not sent at the next update but up to 250 ms later",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := listen(t, "127.0.0.5", 6454)
	defer n.Close()
	c := startController(t, artnet.MaxFPS(20))
	defer c.Stop()
	n.sendTo(reply("127.0.0.5", 1), "127.0.0.1", 6454)
	for i := 0; i < 12; i++ {
		if len(n.recv(2*time.Second, code.OpDMX, 1)) != 1 {
			t.Fatal("not refreshed")
		}
		n.recv(10*time.Millisecond, code.OpDMX, 1000)
		f := [512]byte{byte(i + 1)}
		c.SendDMXToAddress(f, artnet.Address{SubUni: 1})
		c.SendDMXToAddress(f, artnet.Address{SubUni: 1})
		if len(n.recv(150*time.Millisecond, code.OpDMX, 1)) != 1 {
			t.Fatal("changed data not sent at the next update")
		}
	}
}
'''),
 dict(id="no-poll-when-known", property="C26",
  edits=[("controller.go", "		case <-c.pollTicker.C:\n			// send ArtPollPacket\n", "		case <-c.pollTicker.C:\n			if len(c.OutputAddress) > 0 {\n				// nodes announce changes themselves\n				continue\n			}\n			// send ArtPollPacket\n")],
  needs="a poll that falls due while a node is known",
  breaks="the controller stops polling",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b, n := listen(t, "127.0.0.9", 6454), listen(t, "127.0.0.5", 6454)
	defer b.Close()
	defer n.Close()
	c := startController(t)
	defer c.Stop()
	n.sendTo(reply("127.0.0.5", 1), "127.0.0.1", 6454)
	if got := len(b.recv(7*time.Second, code.OpPoll, 3)); got != 3 {
		t.Fatalf("%d polls in 7 seconds", got)
	}
}
'''),
 dict(id="unlock-before-set", property="C27", race=True,
  edits=[("controller.go", '''	c.nodeLock.Lock()
	defer c.nodeLock.Unlock()

	var cn *ControlledNode
	var ok bool

	if cn, ok = c.OutputAddress[address]; !ok {
''', '''	var cn *ControlledNode
	var ok bool

	// the node's own lock protects its buffers
	c.nodeLock.Lock()
	cn, ok = c.OutputAddress[address]
	c.nodeLock.Unlock()
	if !ok {
''')],
  needs="a frame submitted while the update loop sends the same universe",
  breaks="the buffer is written under one lock and read under another: a data race that can lose a frame",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := listen(t, "127.0.0.5", 6454)
	defer n.Close()
	c := startController(t, artnet.MaxFPS(1000))
	n.sendTo(reply("127.0.0.5", 1), "127.0.0.1", 6454)
	if len(n.recv(2*time.Second, code.OpDMX, 1)) != 1 {
		t.Fatal("not discovered")
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5000; i++ {
				c.SendDMXToAddress([512]byte{byte(i)}, artnet.Address{SubUni: 1})
				if i%50 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	c.Stop()
}
'''),
 dict(id="fps-16-bits", property="C28",
  edits=[("options.go", "		c.maxFPS = fps\n", "		c.maxFPS = int(uint16(fps))\n")],
  needs="a frame rate limit that is a multiple of 65536 (others above it are used wrongly)",
  breaks="the update loop panics",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	c := startController(t, artnet.MaxFPS(65536))
	time.Sleep(50 * time.Millisecond)
	c.Stop()
}
'''),
]
