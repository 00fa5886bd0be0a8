HEAD = '''package packet_test

import (
	"bytes"
	"testing"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

var _ = bytes.Equal
var _ = code.OpDMX
var _ packet.ArtNetPacket

func header(op uint16, hi, lo byte) []byte {
	return []byte{'A', 'r', 't', '-', 'N', 'e', 't', 0, byte(op), byte(op >> 8), hi, lo}
}

func dmx(length int, present int) []byte {
	b := append(header(0x5000, 0, 14), 1, 2, 3, 4, byte(length>>8), byte(length))
	for i := 0; i < present; i++ {
		b = append(b, byte(i+1))
	}
	return b
}

var _ = dmx
'''
P = "./packet"
SEEDS = [
 dict(id="dmx-len-514", property="C01", pkg=P,
  edits=[("packet/artdmx.go", "l > 512 ||", "l > len(p.Data)+2 ||")],
  needs="an ArtDMX datagram that announces exactly 514 channels and carries them",
  breaks="decoding slices the 512-byte channel array with 514 and panics",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	if _, err := packet.Unmarshal(dmx(514, 514)); err == nil {
		t.Fatal("accepted 514 channels")
	}
}
'''),
 dict(id="version-high-byte", property="C02", pkg=P,
  edits=[("packet/header.go", "if p.Version[1] < version.Bytes()[1] {",
          "if p.Version[0] == version.Bytes()[0] && p.Version[1] < version.Bytes()[1] {")],
  needs="a protocol revision whose high byte is not zero and whose low byte is below 14",
  breaks="packets with an incompatible revision low byte are accepted",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b := append(header(0x5200, 1, 3), 0, 0)
	if _, err := packet.Unmarshal(b); err == nil {
		t.Fatal("accepted revision low byte 3")
	}
	b[11] = 14
	if _, err := packet.Unmarshal(b); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id="timesync-as-timecode", property="C03", pkg=P,
  edits=[("packet/packet.go", "case code.OpTimeCode:", "case code.OpTimeCode, code.OpTimeSync:"),
         ("packet/packet.go", "		code.OpTimeSync,\n", ""),
         ("packet/arttimecode.go", "if p.OpCode != code.OpTimeCode {", "if p.OpCode != code.OpTimeCode && p.OpCode != code.OpTimeSync {")],
  needs="a datagram with the unimplemented opcode OpTimeSync, at least 19 bytes long; two sites cooperate",
  breaks="an unimplemented opcode is decoded as another packet kind",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b := append(header(0x9800, 0, 14), make([]byte, 30)...)
	if p, err := packet.Unmarshal(b); err == nil {
		t.Fatalf("OpTimeSync decoded as %T", p)
	}
}
'''),
 dict(id="nzs-zero-length", property="C04", pkg=P,
  edits=[("packet/artnzs.go", "	p.Header.finish()\n", "	p.Header.finish()\n	if p.Length&0x1ff == 0 {\n		p.Length = uint16(len(p.Data))\n	}\n")],
  needs="an ArtNzs packet whose length field is 0",
  breaks="the length does not survive encoding and decoding",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	for _, l := range []uint16{0, 1, 511, 512} {
		p := packet.NewArtNzsPacket()
		p.StartCode, p.Length = 0x17, l
		b, err := p.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		q, err := packet.Unmarshal(b)
		if err != nil {
			t.Fatal(err)
		}
		if got := q.(*packet.ArtNzsPacket).Length; got != l {
			t.Fatalf("length %d became %d", l, got)
		}
	}
}
'''),
 dict(id="finish-keeps-version", property="C05", pkg=P,
  edits=[("packet/header.go", "	p.Version = version.Bytes()\n", "	if p.Version == [2]byte{} {\n		p.Version = version.Bytes()\n	}\n")],
  needs="encoding a packet whose header already carries another version, such as one decoded from a newer device",
  breaks="the encoded packet does not carry protocol version 0,14",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	p, err := packet.Unmarshal(append(header(0x5200, 0, 99), 0, 0))
	if err != nil {
		t.Fatal(err)
	}
	b, err := p.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	if b[10] != 0 || b[11] != 14 {
		t.Fatalf("version % x on the wire", b[10:12])
	}
}
'''),
 dict(id="address-mask-switches", property="C06", pkg=P,
  edits=[("packet/artaddress.go", "		return errInvalidOpCode\n	}\n	return nil\n", "		return errInvalidOpCode\n	}\n	for i := range p.SwOut {\n		// the low nibble holds the switch\n		p.SwIn[i] &= 0x0f\n		p.SwOut[i] &= 0x0f\n	}\n	return nil\n")],
  needs="an ArtAddress datagram with the high bit (program this switch) of a port switch set",
  breaks="the decoded switch bytes are not those on the wire",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	p := packet.NewArtAddressPacket()
	p.SwOut[2] = 0x87
	b, err := p.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	q, err := packet.Unmarshal(b)
	if err != nil {
		t.Fatal(err)
	}
	if n := q.(*packet.ArtAddressPacket).SwOut[2]; n != 0x87 {
		t.Fatalf("0x87 read as %#x", n)
	}
}
'''),
 dict(id="marshal-pool", property="C07", pkg=P,
  edits=[("packet/header.go", '	"fmt"\n', '	"fmt"\n	"sync"\n'),
         ("packet/header.go", "func marshalPacket(", "// buffers recycles the encoders' buffers\nvar buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc marshalPacket("),
         ("packet/header.go", "	var buf bytes.Buffer\n	if err := binary.Write(&buf,", "	buf := buffers.Get().(*bytes.Buffer)\n	defer buffers.Put(buf)\n	buf.Reset()\n	if err := binary.Write(buf,")],
  needs="keeping the bytes of one encoding while another packet is encoded",
  breaks="the bytes returned earlier are overwritten by a later encoding",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	a, b := packet.NewArtDMXPacket(), packet.NewArtDMXPacket()
	a.Data[0], b.Data[0] = 1, 2
	for i := 0; i < 100; i++ {
		x, _ := a.MarshalBinary()
		keep := append([]byte{}, x...)
		for j := 0; j < 10; j++ {
			if _, err := b.MarshalBinary(); err != nil {
				t.Fatal(err)
			}
		}
		if !bytes.Equal(x, keep) {
			t.Fatal("bytes changed by a later encoding")
		}
	}
}
'''),
 dict(id="dmx-truncated", property="C08", pkg=P,
  edits=[("packet/artdmx.go", "	if len(b) < l+18 || l < 2", "	if len(b) < l+18 && len(b) > 18+l/2 {\n		// be lenient with frames cut off by the network\n		l = len(b) - 18\n	}\n	if len(b) < l+18 || l < 2")],
  needs="a datagram that carries an even number of channels, fewer than it announces but more than half",
  breaks="a truncated ArtDMX packet is accepted",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	if _, err := packet.Unmarshal(dmx(100, 80)); err == nil {
		t.Fatal("accepted 80 of 100 channels")
	}
	if _, err := packet.Unmarshal(dmx(100, 100)); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id="pollreply-short", property="C09", pkg=P,
  edits=[("packet/artpollreply.go", "	return unmarshalPacket(p, b)\n", "	if len(b) >= 213 && len(b) < 239 {\n		// some devices leave out the filler\n		b = append(append(make([]byte, 0, 239), b...), make([]byte, 239-len(b))...)\n	}\n	return unmarshalPacket(p, b)\n")],
  needs="a poll reply datagram of 213 to 238 bytes",
  breaks="a poll reply shorter than 239 bytes is accepted",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	p := packet.NewArtPollReplyPacket()
	p.Port = packet.ArtNetPort
	b, err := p.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	for l := 0; l < 239; l++ {
		if _, err := packet.Unmarshal(b[:l:l]); err == nil {
			t.Fatalf("accepted %d bytes", l)
		}
	}
}
'''),
 dict(id="dmx-mask-net", property="C10", pkg=P,
  edits=[("packet/artdmx.go", "	p.Net = b[15]\n", "	if b[15] > 0x7f {\n		// only 7 bits are part of the Port-Address, take the others as the spare bits they are\n		defer func(n byte) { b[15] = n &^ 0x80 }(b[15])\n	}\n	p.Net = b[15]\n")],
  needs="an ArtDMX datagram with the top bit of its net byte set",
  breaks="decoding modifies the caller's buffer",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	b := dmx(4, 4)
	b[15] = 0x85
	keep := append([]byte{}, b...)
	if _, err := packet.Unmarshal(b); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b, keep) {
		t.Fatal("decoding changed the input")
	}
}
'''),
 dict(id="dhcp-implies-capable", property="C11", pkg=P,
  edits=[("packet/code/status2.go", "		return s | (1 << 1)\n", "		return s | (1 << 1) | (1 << 2)\n")],
  needs="switching DHCP on for a status byte whose DHCP-capable flag is off",
  breaks="setting one flag changes another",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	if s := code.Status2(0x21).WithDHCP(true); s != 0x23 {
		t.Fatalf("got %#x", uint8(s))
	}
}
'''),
 dict(id="porttype-unknown", property="C12", pkg=P,
  edits=[("packet/code/porttype.go", "	return s\n}\n\n// Type returns", "	return s &^ 0x1f\n}\n\n// Type returns")],
  needs="setting an undocumented protocol on a port type that already has one",
  breaks="the protocol is reset to DMX512 where nothing should change",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	if s := code.PortType(0x83).WithType("RDM"); s != 0x83 {
		t.Fatalf("got %#x", uint8(s))
	}
}
'''),
 dict(id="report-string", property="C13", pkg=P,
  edits=[("packet/code/nodereportcode_string.go", "if i >= NodeReportCode(len(_NodeReportCode_index)-1) {", "if int(i) >= len(_NodeReportCode_index) {")],
  needs="rendering the single undefined report code 17",
  breaks="turning a code into text panics",
  demo=HEAD + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 256; i++ {
		_ = code.NodeReportCode(i).String()
	}
}
'''),
]
