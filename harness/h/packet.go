//go:build go1.21

package h

import (
	"github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

// maxLen is the largest UDP payload over IPv4.
const maxLen = 65507

// dgram is an arbitrary datagram of lo..maxLen bytes (common sizes apart from the rest).
func dgram(lo int) []byte {
	if vs.Choose("long", 2) == 0 {
		return vs.Bytes("b", lo, 600)
	}
	return vs.Bytes("b", 601, maxLen)
}

// prior decodes, or does not, some well-formed packet of kind k (any kind if k < 0) before
// the one a check is about: what was decoded earlier must not matter.
func prior(k int) {
	if vs.Choose("prior", 2) == 0 {
		return
	}
	if k < 0 {
		k = vs.Choose("priorkind", nKinds)
	}
	w := wireOf(anyPacket("prior", k))
	_, err := packet.Unmarshal(w)
	vs.Assert(err == nil, "a well-formed datagram is rejected")
}

// ---- C01 ----

func H_C01_generic() {
	vs.Bound("datagrams of 0..65507 bytes, every byte arbitrary, through packet.Unmarshal")
	b := dgram(0)
	p, err := packet.Unmarshal(b)
	vs.Observe("ok", err == nil)
	if err == nil {
		vs.Reach("accepted")
		vs.Assert(p != nil, "the generic decoder reported success with a nil packet")
		vs.Assert(kindOf(p) >= 0, "the generic decoder returned an unknown packet type")
	} else {
		vs.Reach("rejected")
	}
}

func H_C01_kinds() {
	vs.Bound("datagrams of 0..65507 bytes, every byte arbitrary, through each of the 12 UnmarshalBinary methods")
	k := vs.Choose("kind", nKinds)
	b := dgram(0)
	p := fresh(k, vs.Choose("ctor", 2) == 1)
	err := p.UnmarshalBinary(b)
	vs.Observe("ok", err == nil)
	if err == nil {
		vs.Reach("accepted")
	} else {
		vs.Reach("rejected")
	}
}

// ---- C02 ----

func H_C02_generic() {
	vs.Bound("datagrams of 0..65507 bytes, through packet.Unmarshal, first or after a well-formed packet of any kind")
	prior(-1)
	b := dgram(0)
	p, err := packet.Unmarshal(b)
	if err != nil {
		return
	}
	vs.Reach("accepted")
	k := kindOf(p)
	vs.Assert(k >= 0, "accepted into an unknown packet type")
	vs.Assert(goodHead(b, kindOp[k]), "accepted a datagram without the proper identifier, opcode or version")
}

func H_C02_kinds() {
	vs.Bound("datagrams of 0..65507 bytes, through each of the 12 UnmarshalBinary methods")
	k := vs.Choose("kind", nKinds)
	prior(k)
	b := dgram(0)
	p := fresh(k, false)
	err := p.UnmarshalBinary(b)
	vs.Observe("ok", err == nil)
	if err != nil {
		return
	}
	vs.Reach("accepted")
	vs.Assert(goodHead(b, kindOp[k]), "accepted a datagram without the proper identifier, opcode or version")
	vs.Assert(uint16(p.GetOpCode()) == kindOp[k], "the decoded packet reports another kind's opcode")
}

// ---- C03 ----

func H_C03_select() {
	vs.Bound("datagrams of 0..65507 bytes, every opcode")
	b := dgram(0)
	p, err := packet.Unmarshal(b)
	if err != nil {
		return
	}
	vs.Reach("accepted")
	k := kindOf(p)
	vs.Assert(k >= 0, "accepted into an unknown packet type")
	vs.Assert(wireOp(b) == kindOp[k], "the packet kind is not the one the wire opcode designates")
	vs.Assert(uint16(p.GetOpCode()) == wireOp(b), "the reported opcode is not the one on the wire")
}

// Every implemented opcode is decodable: the wire image of any packet is accepted.
func H_C03_implemented() {
	vs.Bound("the wire image of every packet of every kind, every version with a low byte of at least 14, with 0..60000 trailing bytes")
	k := vs.Choose("kind", nKinds)
	p := fresh(k, false)
	fillFields("p", p)
	carriable(p)
	w := wireOf(p)
	if k != kPollReply {
		w[10], w[11] = vs.U8("verhi"), vs.U8("verlo")
		vs.Assume(w[11] >= 14)
	}
	w = append(w, vs.Bytes("tail", 0, 60000)...)
	q, err := packet.Unmarshal(w)
	vs.Assert(err == nil, "a well-formed datagram of an implemented kind is rejected")
	vs.Assert(q != nil && kindOf(q) == k, "a well-formed datagram decodes to another kind")
	vs.Reach("accepted")
}

// Opcodes without an implementation are always rejected.
func H_C03_rejected() {
	vs.Bound("datagrams of exactly 1000 bytes with a valid identifier and version, all opcodes")
	b := vs.BytesN("b", 1000)
	copy(b, artnetID[:])
	op := wireOp(b)
	known := false
	for i := 0; i < nKinds; i++ {
		known = vs.Or(known, op == kindOp[i])
	}
	vs.Assume(!known)
	p, err := packet.Unmarshal(b)
	vs.Assert(err != nil, "a datagram with an unimplemented opcode is accepted")
	vs.Assert(p == nil || err != nil, "a packet without an error for an unimplemented opcode")
	vs.Reach("rejected")
}

// ---- C04 ----

func H_C04_roundtrip() {
	vs.Bound("all field values of all 12 kinds (announced lengths up to 512, poll-reply port 6454 and known style); no loop or size bound beyond the packets' own sizes")
	k := vs.Choose("kind", nKinds)
	p := fresh(k, vs.Choose("ctor", 2) == 1)
	h := headOf(p)
	fillFields("p", p)
	setHead(p, h)
	carriable(p)
	want := normal(p)
	b, err := p.MarshalBinary()
	vs.Assert(err == nil, "encoding fails")
	vs.Observe("bytes", b)
	q, err := packet.Unmarshal(b)
	vs.Assert(err == nil, "the encoded packet is not decodable")
	vs.Assert(q != nil && kindOf(q) == k, "the encoded packet decodes to another kind")
	vs.Assert(sameData(q, want), "a field differs after encoding and decoding")
	vs.Reach("done")
}

// Re-encoding a decoded packet gives the same packet again.
func H_C04_redecode() {
	vs.Bound("packets that were themselves decoded from arbitrary well-formed datagrams")
	k := vs.Choose("kind", nKinds)
	o := fresh(k, false)
	fillFields("p", o)
	carriable(o)
	p, err := packet.Unmarshal(wireOf(o))
	vs.Assert(err == nil, "a well-formed datagram is rejected")
	want := normal(p)
	b, err := p.MarshalBinary()
	vs.Assert(err == nil, "encoding a decoded packet fails")
	q, err := packet.Unmarshal(b)
	vs.Assert(err == nil, "a decoded packet is not decodable after encoding it again")
	vs.Assert(q != nil && kindOf(q) == k, "a decoded packet decodes to another kind after encoding it again")
	vs.Assert(sameData(q, want), "a field differs after decoding, encoding and decoding")
	vs.Reach("done")
}

// ---- C05 ----

func H_C05_layout() {
	vs.Bound("all field values of all 12 kinds (announced lengths up to 512), all prior header contents")
	k := vs.Choose("kind", nKinds)
	p := fresh(k, vs.Choose("ctor", 2) == 1)
	fillFields("p", p)
	switch q := p.(type) {
	case *packet.ArtCommandPacket:
		vs.Assume(q.Length <= 512)
	case *packet.ArtDiagDataPacket:
		vs.Assume(q.Length <= 512)
	case *packet.ArtNzsPacket:
		vs.Assume(q.Length <= 512)
	}
	want := wireOf(p)
	b, err := p.MarshalBinary()
	vs.Assert(err == nil, "encoding fails")
	vs.Observe("bytes", b)
	vs.Assert(len(b) == kindSize[k], "the encoded packet does not have its kind's size")
	for i := 0; i < 12; i++ {
		vs.Assert(b[i] == want[i], "a header byte is not what Art-Net prescribes")
	}
	vs.Assert(vs.EqBytes(b, want), "the encoded bytes are not the Art-Net layout")
	vs.Reach("done")
}

// ---- C06 ----

func H_C06_fields() {
	vs.Bound("accepted datagrams of 12..65507 bytes, generic decoder")
	k := vs.Choose("kind", nKinds)
	b := dgram(12)
	copy(b, artnetID[:])
	b[8], b[9] = byte(kindOp[k]), byte(kindOp[k]>>8)
	p, err := packet.Unmarshal(b)
	if err != nil {
		return
	}
	vs.Reach("accepted")
	vs.Assert(kindOf(p) == k, "the packet has another kind")
	checkFields(k, p, b)
}

// The kind's own decoder, into a fresh packet.
func H_C06_kinds() {
	vs.Bound("accepted datagrams of 12..65507 bytes, kind-specific decoders into fresh packets")
	k := vs.Choose("kind", nKinds)
	b := dgram(12)
	copy(b, artnetID[:])
	b[8], b[9] = byte(kindOp[k]), byte(kindOp[k]>>8)
	p := fresh(k, false)
	if p.UnmarshalBinary(b) != nil {
		return
	}
	vs.Reach("accepted")
	checkFields(k, p, b)
}

// Two datagrams one after the other: neither influences what the other decodes to.
func H_C06_twice() {
	vs.Bound("two accepted ArtDMX datagrams of 18..560 arbitrary bytes, or two well-formed packets of any kinds with arbitrary contents, through the generic decoder")
	k1, k2 := kDMX, kDMX
	var b1, b2 []byte
	if vs.Choose("dmx", 2) == 1 {
		b1, b2 = vs.Bytes("b1", 18, 560), vs.Bytes("b2", 18, 560)
		copy(b1, artnetID[:])
		copy(b2, artnetID[:])
		b1[8], b1[9], b2[8], b2[9] = 0, 0x50, 0, 0x50
	} else {
		k1 = vs.Choose("kind", nKinds)
		k2 = k1
		if vs.Thorough() {
			k2 = vs.Choose("kind2", nKinds)
		}
		b1, b2 = wireOf(anyPacket("p1", k1)), wireOf(anyPacket("p2", k2))
	}
	p1, err := packet.Unmarshal(b1)
	if err != nil {
		return
	}
	p2, err := packet.Unmarshal(b2)
	if err != nil {
		return
	}
	vs.Reach("accepted")
	checkFields(k1, p1, b1)
	checkFields(k2, p2, b2)
}

func checkFields(k int, p packet.ArtNetPacket, b []byte) {
	h := headOf(p)
	vs.Assert(h.id == artnetID, "the identifier field differs from the wire")
	vs.Assert(uint16(h.op) == kindOp[k], "the opcode field differs from the wire")
	if k != kPollReply {
		vs.Assert(h.ver[0] == b[10] && h.ver[1] == b[11], "the version field differs from the wire")
	}
	if k == kDMX {
		q := p.(*packet.ArtDMXPacket)
		vs.Assert(len(b) >= 18, "an ArtDMX datagram shorter than its header is accepted")
		n := int(uint16(b[16])<<8 | uint16(b[17]))
		vs.Assert(vs.And(q.Sequence == b[12], q.Physical == b[13], q.SubUni == b[14], q.Net == b[15], int(q.Length) == n),
			"an ArtDMX field differs from the wire")
		vs.Assert(n <= 512 && len(b) >= 18+n, "an ArtDMX datagram with missing channels is accepted")
		ok := true
		for i := 0; i < 512; i++ {
			in := i < n
			ok = vs.And(ok, vs.Imp(in, q.Data[i] == vs.Peek(b, 18+i)), vs.Imp(!in, q.Data[i] == 0))
		}
		vs.Assert(ok, "an ArtDMX channel differs from the wire")
		return
	}
	vs.Assert(len(b) >= kindSize[k], "a datagram shorter than the packet is accepted")
	w := append([]byte{}, b[:kindSize[k]]...)
	// what the wire says, with filler zeroed, header normalised, the reply port in LE order
	w[10], w[11] = pick(k == kPollReply, w[10], 0), pick(k == kPollReply, w[11], 14)
	for _, z := range fillers(k) {
		for i := z[0]; i < z[1]; i++ {
			w[i] = 0
		}
	}
	if k == kPollReply {
		// the port is accepted in either byte order and always reported as 6454
		w[14], w[15] = 0x36, 0x19
	}
	vs.Assert(vs.EqBytes(wireOf(p), w), "a decoded field differs from the wire bytes")
}

func pick(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

func fillers(k int) [][2]int {
	switch k {
	case kDiag:
		return [][2]int{{12, 13}, {14, 16}}
	case kIPProg:
		return [][2]int{{12, 14}, {15, 16}, {26, 34}}
	case kIPProgReply:
		return [][2]int{{12, 16}, {27, 34}}
	case kPollReply:
		return [][2]int{{197, 200}, {213, 239}}
	case kSync, kTimeCode, kTrigger:
		return [][2]int{{12, 14}}
	}
	return nil
}

// ---- C07 ----

func H_C07_repeat() {
	vs.Bound("all field values of all 12 kinds, three encodings, a change of every field in between")
	k := vs.Choose("kind", nKinds)
	p := fresh(k, vs.Choose("ctor", 2) == 1)
	fillFields("p", p)
	switch q := p.(type) {
	case *packet.ArtCommandPacket:
		vs.Assume(q.Length <= 512)
	case *packet.ArtDiagDataPacket:
		vs.Assume(q.Length <= 512)
	case *packet.ArtNzsPacket:
		vs.Assume(q.Length <= 512)
	}
	// headers a caller can have: untouched, or the proper one
	zero := vs.Choose("zerohead", 2) == 1
	h0 := head{}
	if !zero {
		h0 = head{artnetID, code.OpCode(kindOp[k]), [2]byte{0, 14}}
	}
	setHead(p, h0)
	before := clone(p)
	b1, err := p.MarshalBinary()
	vs.Assert(err == nil, "encoding fails")
	vs.Assert(sameData(p, before), "encoding changed a data field of the packet")
	h := headOf(p)
	vs.Assert(h.op == h0.op || uint16(h.op) == kindOp[k], "encoding changed the packet's opcode to something else")
	vs.Assert(h.id == h0.id || h.id == artnetID, "encoding changed the packet's identifier to something else")
	vs.Assert(h.ver == h0.ver || h.ver == [2]byte{0, 14} || k == kPollReply, "encoding changed the packet's version to something else")
	vs.Assert(uint16(p.GetOpCode()) == uint16(h.op), "GetOpCode disagrees with the opcode field")
	keep := append([]byte{}, b1...)
	b2, err := p.MarshalBinary()
	vs.Assert(err == nil, "encoding again fails")
	vs.Assert(vs.EqBytes(b2, keep), "encoding the same packet again gives other bytes")
	vs.Assert(vs.EqBytes(b1, keep), "encoding again changed the bytes returned before")
	vs.Assert(sameData(p, before), "encoding again changed a data field of the packet")
	fillFields("r", p)
	_, _ = p.MarshalBinary()
	vs.Assert(vs.EqBytes(b1, keep) && vs.EqBytes(b2, keep), "changing the packet changed bytes returned before")
	vs.Reach("done")
}

// Encoding one packet does not influence the encoding of another one.
func H_C07_independent() {
	vs.Bound("two packets of every kind, arbitrary fields, encoded alternately")
	k := vs.Choose("kind", nKinds)
	p, q := fresh(k, true), fresh(k, true)
	hp := headOf(p)
	fillFields("p", p)
	fillFields("q", q)
	setHead(p, hp)
	setHead(q, hp)
	carriable(p)
	carriable(q)
	b1, err := p.MarshalBinary()
	vs.Assert(err == nil, "encoding fails")
	keep := append([]byte{}, b1...)
	b2, err := q.MarshalBinary()
	vs.Assert(err == nil, "encoding fails")
	vs.Assert(vs.EqBytes(b1, keep), "encoding another packet changed the bytes returned before")
	for i := range b2 {
		b2[i] ^= 0xff
	}
	vs.Assert(vs.EqBytes(b1, keep), "two encodings share memory")
	b3, err := p.MarshalBinary()
	vs.Assert(err == nil, "encoding again fails")
	vs.Assert(vs.EqBytes(b3, keep), "encoding the same packet again gives other bytes")
	vs.Reach("done")
}

// ---- C08 ----

func H_C08_dmx() {
	vs.Bound("ArtDMX datagrams of 0..65507 bytes, every announced length 0..65535; generic and own decoder, first or after a well-formed ArtDMX")
	prior(kDMX)
	b := dgram(18)
	copy(b, artnetID[:])
	b[8], b[9] = 0x00, 0x50
	vs.Assume(b[11] >= 14)
	var p *packet.ArtDMXPacket
	var err error
	if vs.Choose("generic", 2) == 1 {
		var q packet.ArtNetPacket
		q, err = packet.Unmarshal(b)
		if err == nil {
			p = q.(*packet.ArtDMXPacket)
		}
	} else {
		p = &packet.ArtDMXPacket{}
		err = p.UnmarshalBinary(b)
	}
	n := int(uint16(b[16])<<8 | uint16(b[17]))
	good := vs.And(n >= 2, n <= 512, n%2 == 0, len(b) >= 18+n)
	vs.Assert((err == nil) == good, "an ArtDMX datagram is accepted although its length is wrong, or rejected although it is right")
	if err != nil {
		vs.Reach("rejected")
		return
	}
	vs.Reach("accepted")
	vs.Assert(int(p.Length) == n, "the reported length is not the announced one")
	ok := true
	for i := 0; i < 512; i++ {
		ok = vs.And(ok, vs.Imp(i < n, p.Data[i] == vs.Peek(b, 18+i)))
	}
	vs.Assert(ok, "a channel differs from the datagram")
}

// A datagram in the front part of a larger buffer, as a receiver has it: what lies behind
// its end does not count.
func H_C08_spare() {
	vs.Bound("ArtDMX, ArtNzs and poll-reply datagrams of 18..560 bytes in a buffer of 560 arbitrary bytes; generic and own decoder")
	full := vs.BytesN("b", 560)
	n := vs.Int("n", 18, 560)
	k := []int{kDMX, kNzs, kPollReply}[vs.Choose("kind", 3)]
	copy(full, artnetID[:])
	full[8], full[9] = byte(kindOp[k]), byte(kindOp[k]>>8)
	vs.Assume(k == kPollReply || full[11] >= 14)
	b := full[:n]
	keep := append([]byte{}, full...)
	var err error
	if vs.Choose("generic", 2) == 1 {
		_, err = packet.Unmarshal(b)
	} else {
		err = fresh(k, false).UnmarshalBinary(b)
	}
	vs.Assert(vs.EqBytes(full, keep), "decoding changed the caller's buffer")
	switch k {
	case kDMX:
		l := int(uint16(b[16])<<8 | uint16(b[17]))
		vs.Assert((err == nil) == vs.And(l >= 2, l <= 512, l%2 == 0, n >= 18+l), "an ArtDMX datagram is accepted although its length is wrong, or rejected although it is right")
	case kNzs:
		vs.Assert(vs.Imp(n < kindSize[k], err != nil), "a datagram shorter than the packet is accepted")
	case kPollReply:
		vs.Assert(vs.Imp(n < kindSize[k], err != nil), "a datagram shorter than the packet is accepted")
	}
	if err == nil {
		vs.Reach("accepted")
	} else {
		vs.Reach("rejected")
	}
}

// Datagrams too short for the ArtDMX header.
func H_C08_short() {
	vs.Bound("ArtDMX datagrams of 0..17 bytes")
	b := vs.Bytes("b", 0, 17)
	_, err := packet.Unmarshal(b)
	vs.Assert(vs.Imp(dmxHead(b), err != nil), "an ArtDMX datagram shorter than its header is accepted")
	p := &packet.ArtDMXPacket{}
	vs.Assert(p.UnmarshalBinary(b) != nil, "an ArtDMX datagram shorter than its header is accepted")
	vs.Reach("done")
}

func dmxHead(b []byte) bool { return len(b) >= 10 && b[8] == 0 && b[9] == 0x50 }

func H_C08_others() {
	vs.Bound("ArtNzs, ArtCommand and ArtDiagData datagrams of 0..65507 bytes, every announced length, first or after a well-formed one")
	k := [...]int{kNzs, kCommand, kDiag}[vs.Choose("kind", 3)]
	prior(k)
	b := dgram(12)
	copy(b, artnetID[:])
	b[8], b[9] = byte(kindOp[k]), byte(kindOp[k]>>8)
	p, err := packet.Unmarshal(b)
	if err != nil {
		return
	}
	vs.Reach("accepted")
	switch q := p.(type) {
	case *packet.ArtNzsPacket:
		vs.Assert(q.Length <= 512, "an accepted ArtNzs announces more than 512 bytes")
	case *packet.ArtCommandPacket:
		vs.Assert(q.Length <= 512, "an accepted ArtCommand announces more than 512 bytes")
	case *packet.ArtDiagDataPacket:
		vs.Assert(q.Length <= 512, "an accepted ArtDiagData announces more than 512 bytes")
	}
}

// ---- C09 ----

func H_C09_exact() {
	vs.Bound("poll-reply datagrams of 12..65507 bytes, all ports and styles; generic and own decoder, first or after a well-formed one")
	prior(kPollReply)
	b := dgram(12)
	copy(b, artnetID[:])
	b[8], b[9] = 0x00, 0x21
	var p *packet.ArtPollReplyPacket
	var err error
	if vs.Choose("generic", 2) == 1 {
		var q packet.ArtNetPacket
		q, err = packet.Unmarshal(b)
		if err == nil {
			p = q.(*packet.ArtPollReplyPacket)
		}
	} else {
		p = packet.NewArtPollReplyPacket()
		err = p.UnmarshalBinary(b)
	}
	good := false
	if len(b) >= 239 {
		good = vs.And(vs.Or(vs.And(b[14] == 0x36, b[15] == 0x19), vs.And(b[14] == 0x19, b[15] == 0x36)), b[200] <= 6)
	}
	vs.Assert((err == nil) == good, "a poll reply is accepted although malformed, or rejected although well formed")
	if err == nil {
		vs.Reach("accepted")
		vs.Assert(p.Port == 6454, "an accepted poll reply does not report port 6454")
	} else {
		vs.Reach("rejected")
	}
}

// ---- C10 ----

func H_C10_generic() {
	vs.Bound("datagrams of 12..65507 bytes of every kind, then an arbitrary overwrite of the whole buffer")
	k := vs.Choose("kind", nKinds)
	b := dgram(12)
	copy(b, artnetID[:])
	b[8], b[9] = byte(kindOp[k]), byte(kindOp[k]>>8)
	keep := append([]byte{}, b...)
	p, err := packet.Unmarshal(b)
	vs.Assert(vs.EqBytes(b, keep), "decoding changed the caller's bytes")
	if err != nil {
		return
	}
	vs.Reach("accepted")
	before := clone(p)
	h := headOf(p)
	x := vs.BytesN("x", maxLen)
	copy(b, x)
	vs.Assert(sameData(p, before) && headOf(p) == h, "overwriting the buffer changed the decoded packet")
}

func H_C10_kinds() {
	vs.Bound("datagrams of 0..65507 bytes through each kind's own decoder, then an arbitrary overwrite")
	k := vs.Choose("kind", nKinds)
	b := dgram(0)
	keep := append([]byte{}, b...)
	p := fresh(k, false)
	err := p.UnmarshalBinary(b)
	vs.Assert(vs.EqBytes(b, keep), "decoding changed the caller's bytes")
	if err != nil {
		return
	}
	vs.Reach("accepted")
	before := clone(p)
	copy(b, vs.BytesN("x", maxLen))
	vs.Assert(sameData(p, before), "overwriting the buffer changed the decoded packet")
}

func H_C10_config() {
	vs.Bound("poll replies of 239..250 bytes with concrete zero-terminated names, then an arbitrary overwrite of the buffer and of the packet; numbers of ports 0 or 2 (thorough: 0..5)")
	b := vs.BytesN("b", 239)
	copy(b, artnetID[:])
	b[8], b[9] = 0x00, 0x21
	copy(b[26:], "short\x00")
	copy(b[44:], "long\x00")
	b[24], b[25] = 'E', 0
	b[172] = 0
	b[173] = byte(vs.Choose("ports", vs.Tier(2, 6)))
	if b[173] == 1 && !vs.Thorough() {
		b[173] = 2
	}
	p, err := packet.Unmarshal(b)
	if err != nil {
		return
	}
	r := p.(*packet.ArtPollReplyPacket)
	c := artnet.ConfigFromArtPollReply(*r)
	vs.Reach("accepted")
	d := snapConfig(c)
	copy(b, vs.BytesN("x", 239))
	fillFields("y", r)
	vs.Assert(vs.EqBytes(d, snapConfig(c)), "overwriting the buffer changed the derived configuration")
}

// snapConfig lists everything in a configuration as bytes.
func snapConfig(c artnet.NodeConfig) []byte {
	var o []byte
	o = append(o, byte(c.OEM>>8), byte(c.OEM), byte(c.Version>>8), byte(c.Version), c.BiosVersion, byte(c.Type), c.BindIndex,
		c.BaseAddress.Net, c.BaseAddress.SubUni, byte(c.Status1), byte(c.Status2))
	o = append(o, byte(len(c.IP)))
	o = append(o, c.IP...)
	o = append(o, byte(len(c.BindIP)))
	o = append(o, c.BindIP...)
	o = append(o, byte(len(c.Ethernet)))
	o = append(o, c.Ethernet...)
	o = append(o, c.Manufacturer...)
	o = append(o, 0)
	o = append(o, c.Name...)
	o = append(o, 0)
	o = append(o, c.Description...)
	o = append(o, 0, byte(len(c.Report)), byte(len(c.InputPorts)), byte(len(c.OutputPorts)))
	for _, r := range c.Report {
		o = append(o, byte(r))
	}
	for _, p := range c.InputPorts {
		o = append(o, p.Address.Net, p.Address.SubUni, byte(p.Type), byte(p.Status))
	}
	for _, p := range c.OutputPorts {
		o = append(o, p.Address.Net, p.Address.SubUni, byte(p.Type), byte(p.Status))
	}
	return o
}
