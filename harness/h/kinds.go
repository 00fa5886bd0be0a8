//go:build go1.21

// Package h holds the harnesses. H_<property>_<name> functions are run symbolically by the
// engine and natively when a counterexample or a sampled path is replayed.
package h

import (
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

// The packet kinds, with opcode and wire size as Art-Net defines them.
const (
	kAddress = iota
	kCommand
	kDiag
	kDMX
	kIPProg
	kIPProgReply
	kNzs
	kPoll
	kPollReply
	kSync
	kTimeCode
	kTrigger
	nKinds
)

var kindOp = [nKinds]uint16{0x6000, 0x2400, 0x2300, 0x5000, 0xf800, 0xf900, 0x5100, 0x2000, 0x2100, 0x5200, 0x9700, 0x9900}
var kindSize = [nKinds]int{107, 528, 530, 530, 34, 34, 530, 14, 239, 14, 19, 530}

var artnetID = [8]byte{'A', 'r', 't', '-', 'N', 'e', 't', 0}

// fresh makes an empty packet of the kind, with the constructor or as a plain value.
func fresh(k int, ctor bool) packet.ArtNetPacket {
	if ctor {
		switch k {
		case kAddress:
			return packet.NewArtAddressPacket()
		case kCommand:
			return packet.NewArtCommandPacket()
		case kDiag:
			return packet.NewArtDiagDataPacket()
		case kDMX:
			return packet.NewArtDMXPacket()
		case kIPProg:
			return packet.NewArtIPProgPacket()
		case kIPProgReply:
			return packet.NewArtIPProgReplyPacket()
		case kNzs:
			return packet.NewArtNzsPacket()
		case kPoll:
			return packet.NewArtPollPacket()
		case kPollReply:
			return packet.NewArtPollReplyPacket()
		case kSync:
			return packet.NewArtSyncPacket()
		case kTimeCode:
			return packet.NewArtTimeCodePacket()
		default:
			return packet.NewArtTriggerPacket()
		}
	}
	switch k {
	case kAddress:
		return &packet.ArtAddressPacket{}
	case kCommand:
		return &packet.ArtCommandPacket{}
	case kDiag:
		return &packet.ArtDiagDataPacket{}
	case kDMX:
		return &packet.ArtDMXPacket{}
	case kIPProg:
		return &packet.ArtIPProgPacket{}
	case kIPProgReply:
		return &packet.ArtIPProgReplyPacket{}
	case kNzs:
		return &packet.ArtNzsPacket{}
	case kPoll:
		return &packet.ArtPollPacket{}
	case kPollReply:
		return &packet.ArtPollReplyPacket{}
	case kSync:
		return &packet.ArtSyncPacket{}
	case kTimeCode:
		return &packet.ArtTimeCodePacket{}
	default:
		return &packet.ArtTriggerPacket{}
	}
}

// kindOf tells the dynamic type of a packet (-1: none of the known ones).
func kindOf(p packet.ArtNetPacket) int {
	switch p.(type) {
	case *packet.ArtAddressPacket:
		return kAddress
	case *packet.ArtCommandPacket:
		return kCommand
	case *packet.ArtDiagDataPacket:
		return kDiag
	case *packet.ArtDMXPacket:
		return kDMX
	case *packet.ArtIPProgPacket:
		return kIPProg
	case *packet.ArtIPProgReplyPacket:
		return kIPProgReply
	case *packet.ArtNzsPacket:
		return kNzs
	case *packet.ArtPollPacket:
		return kPoll
	case *packet.ArtPollReplyPacket:
		return kPollReply
	case *packet.ArtSyncPacket:
		return kSync
	case *packet.ArtTimeCodePacket:
		return kTimeCode
	case *packet.ArtTriggerPacket:
		return kTrigger
	}
	return -1
}

// head is the mutable view of a packet's header.
type head struct {
	id  [8]byte
	op  code.OpCode
	ver [2]byte
}

func headOf(p packet.ArtNetPacket) (h head) {
	switch q := p.(type) {
	case *packet.ArtPollReplyPacket:
		return head{q.ID, q.OpCode, [2]byte{}}
	default:
		x := hdr(p)
		return head{x.ID, x.OpCode, x.Version}
	}
}

func setHead(p packet.ArtNetPacket, h head) {
	switch q := p.(type) {
	case *packet.ArtPollReplyPacket:
		q.ID, q.OpCode = h.id, h.op
	default:
		x := hdr(p)
		x.ID, x.OpCode, x.Version = h.id, h.op, h.ver
	}
}

func hdr(p packet.ArtNetPacket) *packet.Header {
	switch q := p.(type) {
	case *packet.ArtAddressPacket:
		return &q.Header
	case *packet.ArtCommandPacket:
		return &q.Header
	case *packet.ArtDiagDataPacket:
		return &q.Header
	case *packet.ArtDMXPacket:
		return &q.Header
	case *packet.ArtIPProgPacket:
		return &q.Header
	case *packet.ArtIPProgReplyPacket:
		return &q.Header
	case *packet.ArtNzsPacket:
		return &q.Header
	case *packet.ArtPollPacket:
		return &q.Header
	case *packet.ArtSyncPacket:
		return &q.Header
	case *packet.ArtTimeCodePacket:
		return &q.Header
	case *packet.ArtTriggerPacket:
		return &q.Header
	}
	return nil
}

// clone copies a packet.
func clone(p packet.ArtNetPacket) packet.ArtNetPacket {
	switch q := p.(type) {
	case *packet.ArtAddressPacket:
		c := *q
		return &c
	case *packet.ArtCommandPacket:
		c := *q
		return &c
	case *packet.ArtDiagDataPacket:
		c := *q
		return &c
	case *packet.ArtDMXPacket:
		c := *q
		return &c
	case *packet.ArtIPProgPacket:
		c := *q
		return &c
	case *packet.ArtIPProgReplyPacket:
		c := *q
		return &c
	case *packet.ArtNzsPacket:
		c := *q
		return &c
	case *packet.ArtPollPacket:
		c := *q
		return &c
	case *packet.ArtPollReplyPacket:
		c := *q
		return &c
	case *packet.ArtSyncPacket:
		c := *q
		return &c
	case *packet.ArtTimeCodePacket:
		c := *q
		return &c
	case *packet.ArtTriggerPacket:
		c := *q
		return &c
	}
	return nil
}

// fillFields gives every field of the packet, the header included, an arbitrary value.
func fillFields(name string, p packet.ArtNetPacket) {
	switch q := p.(type) {
	case *packet.ArtAddressPacket:
		vs.Fill(name, q)
	case *packet.ArtCommandPacket:
		vs.Fill(name, q)
	case *packet.ArtDiagDataPacket:
		vs.Fill(name, q)
	case *packet.ArtDMXPacket:
		vs.Fill(name, q)
	case *packet.ArtIPProgPacket:
		vs.Fill(name, q)
	case *packet.ArtIPProgReplyPacket:
		vs.Fill(name, q)
	case *packet.ArtNzsPacket:
		vs.Fill(name, q)
	case *packet.ArtPollPacket:
		vs.Fill(name, q)
	case *packet.ArtPollReplyPacket:
		vs.Fill(name, q)
	case *packet.ArtSyncPacket:
		vs.Fill(name, q)
	case *packet.ArtTimeCodePacket:
		vs.Fill(name, q)
	case *packet.ArtTriggerPacket:
		vs.Fill(name, q)
	}
}

// wb builds a wire image.
type wb struct {
	b []byte
	n int
}

func (w *wb) u8(v uint8)  { w.b[w.n] = v; w.n++ }
func (w *wb) be(v uint16) { w.u8(uint8(v >> 8)); w.u8(uint8(v)) }
func (w *wb) le(v uint16) { w.u8(uint8(v)); w.u8(uint8(v >> 8)) }
func (w *wb) bs(v []byte) { w.n += copy(w.b[w.n:], v) }
func (w *wb) zero(n int)  { w.n += n }
func (w *wb) at(off int) { // the field list and the Art-Net offsets agree
	if w.n != off {
		panic("harness: wrong offset")
	}
}

// wireOf is the Art-Net wire image of a packet's data fields with a proper header,
// written from the protocol's field lists and not from the library's encoder.
func wireOf(p packet.ArtNetPacket) []byte {
	k := kindOf(p)
	w := &wb{b: make([]byte, kindSize[k])}
	w.bs(artnetID[:])
	w.le(kindOp[k])
	if k != kPollReply {
		w.u8(0)
		w.u8(14)
		w.at(12)
	}
	switch q := p.(type) {
	case *packet.ArtAddressPacket:
		w.u8(q.NetSwitch)
		w.u8(q.BindIndex)
		w.bs(q.ShortName[:])
		w.at(32)
		w.bs(q.LongName[:])
		w.at(96)
		w.bs(q.SwIn[:])
		w.bs(q.SwOut[:])
		w.u8(q.SubSwitch)
		w.u8(q.SwVideo)
		w.u8(q.Command)
	case *packet.ArtCommandPacket:
		w.u8(0xff)
		w.u8(0xff)
		w.be(q.Length)
		w.at(16)
		w.bs(q.Data[:])
	case *packet.ArtDiagDataPacket:
		w.zero(1)
		w.u8(uint8(q.Priority))
		w.zero(2)
		w.be(q.Length)
		w.at(18)
		w.bs(q.Data[:])
	case *packet.ArtDMXPacket:
		w.u8(q.Sequence)
		w.u8(q.Physical)
		w.u8(q.SubUni)
		w.u8(q.Net)
		w.be(512)
		w.at(18)
		w.bs(q.Data[:])
	case *packet.ArtIPProgPacket:
		w.zero(2)
		w.u8(q.Command)
		w.zero(1)
		w.at(16)
		w.bs(q.ProgIP[:])
		w.bs(q.ProgSubNet[:])
		w.bs(q.ProgPort[:])
		w.at(26)
		w.zero(8)
	case *packet.ArtIPProgReplyPacket:
		w.zero(4)
		w.bs(q.ProgIP[:])
		w.bs(q.ProgSubNet[:])
		w.bs(q.ProgPort[:])
		w.at(26)
		w.u8(q.Status)
		w.zero(7)
	case *packet.ArtNzsPacket:
		w.u8(q.Sequence)
		w.u8(q.StartCode)
		w.u8(q.SubUni)
		w.u8(q.Net)
		w.be(q.Length)
		w.at(18)
		w.bs(q.Data[:])
	case *packet.ArtPollPacket:
		w.u8(uint8(q.TalkToMe))
		w.u8(uint8(q.Priority))
	case *packet.ArtPollReplyPacket:
		w.bs(q.IPAddress[:])
		w.le(q.Port)
		w.be(q.VersionInfo)
		w.at(18)
		w.u8(q.NetSwitch)
		w.u8(q.SubSwitch)
		w.be(q.Oem)
		w.u8(q.UBEAVersion)
		w.u8(uint8(q.Status1))
		w.bs(q.ESTAmanufacturer[:])
		w.at(26)
		w.bs(q.ShortName[:])
		w.bs(q.LongName[:])
		w.at(108)
		for i := 0; i < 64; i++ {
			w.u8(uint8(q.NodeReport[i]))
		}
		w.be(q.NumPorts)
		w.at(174)
		for i := 0; i < 4; i++ {
			w.u8(uint8(q.PortTypes[i]))
		}
		for i := 0; i < 4; i++ {
			w.u8(uint8(q.GoodInput[i]))
		}
		for i := 0; i < 4; i++ {
			w.u8(uint8(q.GoodOutput[i]))
		}
		w.bs(q.SwIn[:])
		w.bs(q.SwOut[:])
		w.at(194)
		w.u8(q.SwVideo)
		w.u8(uint8(q.SwMacro))
		w.u8(uint8(q.SwRemote))
		w.zero(3)
		w.at(200)
		w.u8(uint8(q.Style))
		w.bs(q.Macaddress[:])
		w.bs(q.BindIP[:])
		w.u8(q.BindIndex)
		w.u8(uint8(q.Status2))
		w.at(213)
		w.zero(26)
	case *packet.ArtSyncPacket:
		w.zero(2)
	case *packet.ArtTimeCodePacket:
		w.zero(2)
		w.u8(q.Frames)
		w.u8(q.Seconds)
		w.u8(q.Minutes)
		w.u8(q.Hours)
		w.u8(q.Type)
	case *packet.ArtTriggerPacket:
		w.zero(2)
		w.be(q.Oem)
		w.u8(q.Key)
		w.u8(q.SubKey)
		w.at(18)
		w.bs(q.Data[:])
	}
	w.at(kindSize[k])
	return w.b
}

// sameData: all data fields of two packets of one kind agree (headers aside).
func sameData(a, b packet.ArtNetPacket) bool {
	x, y := clone(a), clone(b)
	setHead(x, head{})
	setHead(y, head{})
	switch q := x.(type) {
	case *packet.ArtAddressPacket:
		return vs.Same(*q, *y.(*packet.ArtAddressPacket))
	case *packet.ArtCommandPacket:
		return vs.Same(*q, *y.(*packet.ArtCommandPacket))
	case *packet.ArtDiagDataPacket:
		return vs.Same(*q, *y.(*packet.ArtDiagDataPacket))
	case *packet.ArtDMXPacket:
		return vs.Same(*q, *y.(*packet.ArtDMXPacket))
	case *packet.ArtIPProgPacket:
		return vs.Same(*q, *y.(*packet.ArtIPProgPacket))
	case *packet.ArtIPProgReplyPacket:
		return vs.Same(*q, *y.(*packet.ArtIPProgReplyPacket))
	case *packet.ArtNzsPacket:
		return vs.Same(*q, *y.(*packet.ArtNzsPacket))
	case *packet.ArtPollPacket:
		return vs.Same(*q, *y.(*packet.ArtPollPacket))
	case *packet.ArtPollReplyPacket:
		return vs.Same(*q, *y.(*packet.ArtPollReplyPacket))
	case *packet.ArtSyncPacket:
		return vs.Same(*q, *y.(*packet.ArtSyncPacket))
	case *packet.ArtTimeCodePacket:
		return vs.Same(*q, *y.(*packet.ArtTimeCodePacket))
	case *packet.ArtTriggerPacket:
		return vs.Same(*q, *y.(*packet.ArtTriggerPacket))
	}
	return false
}

// carriable restricts a packet to values its kind can carry.
func carriable(p packet.ArtNetPacket) {
	switch q := p.(type) {
	case *packet.ArtCommandPacket:
		vs.Assume(q.Length <= 512)
	case *packet.ArtDiagDataPacket:
		vs.Assume(q.Length <= 512)
	case *packet.ArtNzsPacket:
		vs.Assume(q.Length <= 512)
	case *packet.ArtPollReplyPacket:
		vs.Assume(q.Port == 6454)
		vs.Assume(uint8(q.Style) <= 6)
	}
}

// normal is the packet as it must come back from the wire: an ArtDMX packet carries all
// its channels, an ArtCommand the wildcard manufacturer.
func normal(p packet.ArtNetPacket) packet.ArtNetPacket {
	c := clone(p)
	switch q := c.(type) {
	case *packet.ArtDMXPacket:
		q.Length = 512
	case *packet.ArtCommandPacket:
		q.ESTAmanufacturer = [2]byte{0xff, 0xff}
	}
	return c
}

// wireOp is the opcode in a datagram of at least 10 bytes.
func wireOp(b []byte) uint16 { return uint16(b[8]) | uint16(b[9])<<8 }

// goodHead: the datagram has at least n bytes, the identifier, the opcode and (unless a
// poll reply) a version of at least 14. One formula, no forks; n is at least 12.
func goodHead(b []byte, op uint16) bool {
	if len(b) < 12 {
		return false
	}
	ok := vs.And(b[0] == 'A', b[1] == 'r', b[2] == 't', b[3] == '-', b[4] == 'N', b[5] == 'e', b[6] == 't', b[7] == 0,
		b[8] == byte(op), b[9] == byte(op>>8))
	if op != 0x2100 {
		ok = vs.And(ok, b[11] >= 14)
	}
	return ok
}
