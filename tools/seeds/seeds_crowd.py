import runpy, os
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_net.py"))["HEAD"]
C, N = "controller.go", "node.go"
SEEDS = [
 dict(id="poll-256", property="C17",
  edits=[(N, "	var timer time.Ticker\n", "	var timer time.Ticker\n	var served uint8\n"),
         (N, "			n.log.With(nil).Debug(\"sending ArtPollReply\")\n", "			n.log.With(nil).Debug(\"sending ArtPollReply\")\n			if served++; served == 0 {\n				continue\n			}\n")],
  needs="256 polls in one life of the node",
  breaks="every 256th poll is not answered",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	n := artnet.NewNode("demo", code.StNode, net.IPv4(127, 0, 0, 1).To4(), quiet(),
		artnet.NodeListenAddress(addr("127.0.0.1", 6454)), artnet.NodeBroadcastAddress(addr("127.0.0.2", 6454)))
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	s := listen(t, "127.0.0.2", 6454)
	for i := 0; i < 300; i++ {
		s.sendTo(poll(), "127.0.0.1", 6454)
		if len(s.recv(3*time.Second, code.OpPollReply, 1)) != 1 {
			t.Fatalf("no reply to poll %d", i)
		}
	}
	n.Stop()
}
'''),
 dict(id="mac-is-node", property="C22",
  edits=[(C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) || (cfg.BindIndex > 1 && bytes.Equal(cfg.Ethernet, c.Nodes[i].Node.Ethernet)) {\n			// update")],
  needs="two nodes of the same MAC with different IPs, the later one with a bind index above 1",
  breaks="the second node replaces the first",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	c := startController(t)
	a, b := listen(t, "127.0.0.2", 6454), listen(t, "127.0.0.3", 6454)
	one, two := reply("127.0.0.2", 1), reply("127.0.0.3", 2)
	copy(one[201:207], []byte{1, 2, 3, 4, 5, 6})
	copy(two[201:207], []byte{1, 2, 3, 4, 5, 6})
	two[211] = 2
	a.sendTo(one, "127.0.0.1", 6454)
	if len(a.recv(2*time.Second, code.OpDMX, 1)) == 0 {
		t.Fatal("the first node gets no data")
	}
	b.sendTo(two, "127.0.0.1", 6454)
	if len(b.recv(2*time.Second, code.OpDMX, 1)) == 0 {
		t.Fatal("the second node gets no data")
	}
	a.recv(300*time.Millisecond, code.OpDMX, 1000)
	if len(a.recv(time.Second, code.OpDMX, 1)) == 0 {
		t.Fatal("the first node gets no data any more")
	}
	c.Stop()
}
'''),
 dict(id="sixteen-per-tick", property="C25",
  edits=[(C, "			for address, node := range c.OutputAddress {\n", "			sent := 0\n			for address, node := range c.OutputAddress {\n				if sent++; sent > 16 {\n					break\n				}\n")],
  needs="more than 16 known output universes",
  breaks="changed data of some universes is not sent at the next update",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	c := startController(t, artnet.MaxFPS(2))
	s := listen(t, "127.0.0.2", 6454)
	p := listen(t, "127.0.0.3", 6454)
	for i := byte(0); i < 12; i++ {
		r := reply("127.0.0.2", 1, 2, 3, 4)
		r[13], r[19] = 2+i, i // another address and sub-net
		p.sendTo(r, "127.0.0.1", 6454)
	}
	time.Sleep(1200 * time.Millisecond)
	if n := len(c.OutputAddress); n != 48 {
		t.Fatalf("%d universes known", n)
	}
	// every universe is refreshed at each update: the first node gets 4 packets each
	s.recv(100*time.Millisecond, code.OpDMX, 1000)
	n := len(s.recv(3*time.Second, code.OpDMX, 1000))
	if n < 20 {
		t.Fatalf("%d packets in six updates", n)
	}

	c.Stop()
}
'''),
 dict(id="ports-drop-data", property="C21",
  edits=[(C, "			c.Nodes[i].Node = cfg\n", "			if len(cfg.OutputPorts) != len(c.Nodes[i].Node.OutputPorts) {\n				// its universes are others now\n				c.Nodes[i].DMXBuffer = make(map[Address]*dmxBuffer)\n			}\n			c.Nodes[i].Node = cfg\n")],
  needs="a frame submitted before a node announces one output more or fewer",
  breaks="the data of the outputs it keeps is lost (all zero)",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	c := startController(t)
	s := listen(t, "127.0.0.2", 6454)
	s.sendTo(reply("127.0.0.2", 1), "127.0.0.1", 6454)
	if len(s.recv(2*time.Second, code.OpDMX, 1)) == 0 {
		t.Fatal("the node gets no data")
	}
	c.SendDMXToAddress([512]byte{7}, artnet.Address{SubUni: 1})
	time.Sleep(100 * time.Millisecond)
	s.sendTo(reply("127.0.0.2", 1, 2), "127.0.0.1", 6454)
	s.recv(400*time.Millisecond, code.OpDMX, 1000)
	for _, p := range s.recv(time.Second, code.OpDMX, 1000) {
		if d := p.(*packet.ArtDMXPacket); d.SubUni == 1 && d.Data[0] != 7 {
			t.Fatal("the data is gone")
		}
	}
	c.Stop()
}
'''),
 dict(id="renamed-restarts", property="C24",
  edits=[(C, "			c.Nodes[i].Node = cfg\n", "			if cfg.Description != c.Nodes[i].Node.Description {\n				c.Nodes[i].Sequence = 0\n			}\n			c.Nodes[i].Node = cfg\n")],
  needs="a node whose long name changes while it is known",
  breaks="its sequence numbers start at 1 again",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	c := startController(t)
	s := listen(t, "127.0.0.2", 6454)
	var last uint8
	for i := byte(0); i < 3; i++ {
		r := reply("127.0.0.2", 1)
		r[44] = 'a' + i
		s.sendTo(r, "127.0.0.1", 6454)
		for _, p := range s.recv(time.Second, code.OpDMX, 3) {
			d := p.(*packet.ArtDMXPacket)
			if d.Sequence != last+1 {
				t.Fatalf("sequence %d after %d", d.Sequence, last)
			}
			last = d.Sequence
		}
	}
	c.Stop()
}
'''),
 dict(id="crowd-lives-longer", property="C23",
  edits=[(C, "	staleAfter := 7 * time.Second\n", "	staleAfter := 7 * time.Second\n	if len(c.Nodes) > 3 {\n		staleAfter += pollInterval\n	}\n")],
  needs="four or more known nodes",
  breaks="silent nodes are kept for more than seven seconds",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	c := startController(t)
	time.Sleep(500 * time.Millisecond)
	s := listen(t, "127.0.0.2", 6454)
	for i := 0; i < 5; i++ {
		s.sendTo(reply(fmt.Sprintf("127.0.0.%d", 2+i), byte(i)), "127.0.0.1", 6454)
	}
	if len(s.recv(2*time.Second, code.OpDMX, 1)) == 0 {
		t.Fatal("the node gets no data")
	}
	time.Sleep(9500 * time.Millisecond)
	s.recv(200*time.Millisecond, code.OpDMX, 10000)
	if len(s.recv(time.Second, code.OpDMX, 1)) != 0 {
		t.Fatal("a silent node still gets data")
	}
	c.Stop()
}
'''),
]
