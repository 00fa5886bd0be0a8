//go:build go1.21

package h

import (
	"net"
	"strconv"

	"github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

// ---- C14 ----

// text is n arbitrary non-zero ASCII bytes.
func text(name string, n int) string {
	b := vs.BytesN(name, n)
	for i := range b {
		vs.Assume(vs.And(b[i] != 0, b[i] < 0x80))
	}
	return string(b)
}

// scalars gives a configuration arbitrary plain fields.
func scalars(c *artnet.NodeConfig) {
	c.OEM = vs.U16("oem")
	c.Version = vs.U16("version")
	c.BiosVersion = vs.U8("bios")
	c.Type = code.StyleCode(vs.U8("style"))
	vs.Assume(c.Type <= 6)
	c.BindIndex = vs.U8("bindindex")
	c.Status1 = code.Status1(vs.U8("status1"))
	c.Status2 = code.Status2(vs.U8("status2"))
	c.BaseAddress = artnet.Address{Net: vs.U8("net"), SubUni: vs.U8("subuni")}
	vs.Assume(c.BaseAddress.Net < 128)
}

// inNet: the address lies in the configuration's net and sub-net.
func inNet(name string, c artnet.NodeConfig) artnet.Address {
	return artnet.Address{Net: c.BaseAddress.Net, SubUni: c.BaseAddress.SubUni&0xf0 | vs.U8(name)&0x0f}
}

// docType is a port type of one of the six documented protocols, other bits arbitrary.
// Quick checks fix the protocol of the third and fourth port.
func docType(name string, i int) code.PortType {
	t := vs.U8(name)
	if i >= 2 && !vs.Thorough() {
		t = t&0xe0 | byte(i-2)
	}
	vs.Assume(t&0x1f < 6)
	return code.PortType(t)
}

func withPorts(c *artnet.NodeConfig, nIn, nOut int) {
	for i := 0; i < nOut; i++ {
		c.OutputPorts = append(c.OutputPorts, artnet.OutputPort{Address: inNet("out.addr", *c), Type: docType("out.type", i), Status: code.GoodOutput(vs.U8("out.status"))})
	}
	for i := 0; i < nIn; i++ {
		p := artnet.InputPort{Address: inNet("in.addr", *c), Type: docType("in.type", i), Status: code.GoodInput(vs.U8("in.status"))}
		if i < nOut {
			vs.Assume(p.Type&0x1f == c.OutputPorts[i].Type&0x1f)
		}
		c.InputPorts = append(c.InputPorts, p)
	}
}

// overWire announces a configuration and returns what a receiver makes of it.
func overWire(c artnet.NodeConfig) (artnet.NodeConfig, *packet.ArtPollReplyPacket) {
	b, err := artnet.ArtPollReplyFromConfig(c).MarshalBinary()
	vs.Assert(err == nil, "the poll reply cannot be encoded")
	p, err := packet.Unmarshal(b)
	vs.Assert(err == nil, "the poll reply is not accepted")
	r, ok := p.(*packet.ArtPollReplyPacket)
	vs.Assert(ok, "the poll reply is decoded as another kind")
	return artnet.ConfigFromArtPollReply(*r), r
}

func ip4(ip net.IP) [4]byte {
	var r [4]byte
	copy(r[:], ip.To4())
	return r
}

func sameScalars(c, d artnet.NodeConfig) {
	vs.Assert(c.OEM == d.OEM, "OEM")
	vs.Assert(c.Version == d.Version, "firmware version")
	vs.Assert(c.BiosVersion == d.BiosVersion, "BIOS version")
	vs.Assert(c.Type == d.Type, "style")
	vs.Assert(c.BindIndex == d.BindIndex, "bind index")
	vs.Assert(c.Status1 == d.Status1, "status1")
	vs.Assert(c.Status2 == d.Status2, "status2")
	vs.Assert(c.BaseAddress.Net == d.BaseAddress.Net, "base net")
	vs.Assert(c.BaseAddress.SubUni>>4 == d.BaseAddress.SubUni>>4, "base sub-net")
}

func samePorts(c, d artnet.NodeConfig) {
	vs.Assert(len(d.OutputPorts) == len(c.OutputPorts), "number of output ports")
	vs.Assert(len(d.InputPorts) == len(c.InputPorts), "number of input ports")
	for i, p := range c.OutputPorts {
		q := d.OutputPorts[i]
		vs.Assert(vs.Same(p.Address, q.Address), "output port address")
		vs.Assert(p.Type&0x1f == q.Type&0x1f, "output port protocol")
		vs.Assert(p.Status == q.Status, "output port status")
	}
	for i, p := range c.InputPorts {
		q := d.InputPorts[i]
		vs.Assert(vs.Same(p.Address, q.Address), "input port address")
		vs.Assert(p.Type&0x1f == q.Type&0x1f, "input port protocol")
		vs.Assert(p.Status == q.Status, "input port status")
	}
}

func H_C14_ports() {
	vs.Bound("configurations of 0..4 inputs and 0..4 outputs with arbitrary universes of the node's sub-net, documented protocols (quick: fixed for ports 3 and 4), statuses and scalar fields")
	var c artnet.NodeConfig
	scalars(&c)
	c.IP = net.IP(vs.BytesN("ip", 4))
	nIn, nOut := vs.Choose("inputs", 5), vs.Choose("outputs", 5)
	withPorts(&c, nIn, nOut)
	d, r := overWire(c)
	vs.Reach("received")
	most := nIn
	if nOut > most {
		most = nOut
	}
	vs.Assert(int(r.NumPorts) <= most, "the reply announces more ports than configured")
	sameScalars(c, d)
	samePorts(c, d)
	vs.Assert(vs.Same(ip4(d.IP), ip4(c.IP)), "IP")
}

// prefixOf: got is what a field of max bytes keeps of want.
func prefixOf(got, want string, max int) bool {
	if len(want) < max {
		return got == want
	}
	return got == want[:max]
}

func H_C14_text() {
	vs.Bound("manufacturer of 0..3, name of 0..20 and description of 0..66 arbitrary ASCII characters, one varied at a time")
	var c artnet.NodeConfig
	c.Manufacturer, c.Name, c.Description = "MF", "a name", "a description"
	switch vs.Choose("which", 3) {
	case 0:
		c.Manufacturer = text("man", vs.Choose("len", 4))
	case 1:
		c.Name = text("name", vs.Choose("len", 21))
	case 2:
		c.Description = text("desc", vs.Choose("len", 67))
	}
	d, _ := overWire(c)
	vs.Reach("received")
	m := c.Manufacturer
	if len(m) > 2 {
		m = m[:2]
	}
	vs.Assert(d.Manufacturer == m, "manufacturer")
	vs.Assert(prefixOf(d.Name, c.Name, 18), "name")
	vs.Assert(prefixOf(d.Description, c.Description, 64), "description")
}

func H_C14_identity() {
	vs.Bound("IPv4 addresses in 4 and 16 byte form or absent, MAC of 0 or 6 arbitrary bytes, 0..66 arbitrary report codes")
	var c artnet.NodeConfig
	scalars(&c)
	var ip, bind [4]byte
	switch vs.Choose("form", 3) {
	case 0:
		c.IP, c.BindIP = net.IP(vs.BytesN("ip", 4)), net.IP(vs.BytesN("bind", 4))
		copy(ip[:], c.IP)
		copy(bind[:], c.BindIP)
	case 1:
		x, y := vs.BytesN("ip", 4), vs.BytesN("bind", 4)
		c.IP, c.BindIP = net.IPv4(x[0], x[1], x[2], x[3]), net.IPv4(y[0], y[1], y[2], y[3])
		copy(ip[:], x)
		copy(bind[:], y)
	}
	var mac [6]byte
	if vs.Choose("mac", 2) == 1 {
		c.Ethernet = net.HardwareAddr(vs.BytesN("mac", 6))
		copy(mac[:], c.Ethernet)
	}
	n := vs.Choose("reports", 67)
	for i := 0; i < n; i++ {
		c.Report = append(c.Report, code.NodeReportCode(vs.U8("report")))
	}
	d, _ := overWire(c)
	vs.Reach("received")
	sameScalars(c, d)
	vs.Assert(vs.Same(ip4(d.IP), ip), "IP")
	vs.Assert(vs.Same(ip4(d.BindIP), bind), "bind IP")
	var dm [6]byte
	copy(dm[:], d.Ethernet)
	vs.Assert(len(d.Ethernet) <= 6 && vs.Same(dm, mac), "MAC")
	for i := 0; i < 64; i++ {
		var x, y code.NodeReportCode
		if i < len(c.Report) {
			x = c.Report[i]
		}
		if i < len(d.Report) {
			y = d.Report[i]
		}
		vs.Assert(x == y, "report codes")
	}
	vs.Assert(len(d.Report) <= 64, "number of report codes")
	samePorts(c, d)
}

// ---- C15 ----

func H_C15_ports() {
	vs.Bound("all poll replies: port count 0..65535, arbitrary types, switches, statuses and scalar fields; names concrete")
	var r packet.ArtPollReplyPacket
	r.NumPorts = vs.U16("ports")
	r.NetSwitch, r.SubSwitch = vs.U8("net"), vs.U8("sub")
	vs.Fill("type", &r.PortTypes)
	vs.Fill("in", &r.SwIn)
	vs.Fill("out", &r.SwOut)
	vs.Fill("goodin", &r.GoodInput)
	vs.Fill("goodout", &r.GoodOutput)
	vs.Fill("status2", &r.Status2)
	vs.Fill("bindindex", &r.BindIndex)
	vs.Fill("style", &r.Style)
	copy(r.ShortName[:], "name")
	c := artnet.ConfigFromArtPollReply(r)
	vs.Reach("derived")
	ni, no := 0, 0
	for i := 0; i < 4 && i < int(r.NumPorts); i++ {
		if r.PortTypes[i]&0x80 != 0 {
			vs.Assert(len(c.OutputPorts) > no, "an output port is missing")
			p := c.OutputPorts[no]
			no++
			vs.Assert(p.Address.Net == r.NetSwitch, "output net")
			vs.Assert(p.Address.SubUni == r.SubSwitch<<4|r.SwOut[i]&0x0f, "output universe")
			vs.Assert(p.Type == r.PortTypes[i], "output type")
			vs.Assert(p.Status == r.GoodOutput[i], "output status")
		}
		if r.PortTypes[i]&0x40 != 0 {
			vs.Assert(len(c.InputPorts) > ni, "an input port is missing")
			p := c.InputPorts[ni]
			ni++
			vs.Assert(p.Address.Net == r.NetSwitch, "input net")
			vs.Assert(p.Address.SubUni == r.SubSwitch<<4|r.SwIn[i]&0x0f, "input universe")
			vs.Assert(p.Type == r.PortTypes[i], "input type")
			vs.Assert(p.Status == r.GoodInput[i], "input status")
		}
	}
	vs.Assert(len(c.OutputPorts) == no, "an output port too many")
	vs.Assert(len(c.InputPorts) == ni, "an input port too many")
}

// H_C15_forms: the address forms agree with the Port-Address.
func H_C15_forms() {
	vs.Bound("all addresses")
	a := artnet.Address{Net: vs.U8("net"), SubUni: vs.U8("subuni")}
	vs.Assert(a.Integer() == int(a.Net)<<8|int(a.SubUni), "integer form of an address")
	want := strconv.Itoa(int(a.Net)) + ":" + strconv.Itoa(int(a.SubUni>>4)) + "." + strconv.Itoa(int(a.SubUni&0x0f))
	vs.Assert(a.String() == want, "text form of an address")
	vs.Reach("done")
}
