//go:build go1.21

package h

import (
	"strconv"
	"strings"

	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

// ---- C11 ----

func H_C11_flags() {
	vs.Bound("every flag of the eight status byte types, every prior byte value, on and off")
	f := flags[vs.Choose("flag", len(flags))]
	v := vs.U8("v")
	on := vs.Bool("on")
	bit := byte(1) << f.bit
	vs.Assert(f.get(v) == (v&bit != 0), "a flag is not read at its own bit")
	want := v &^ bit
	if on {
		want = v | bit
	}
	got := f.set(v, on)
	vs.Reach("set")
	vs.Assert(got&bit == want&bit, "switching a flag has no effect on its bit")
	vs.Assert(f.get(got) == on, "a flag does not read back what was set")
	vs.Assert(got&f.used == want&f.used, "switching a flag changes other bits")
	vs.Assert(f.set(got, on)&f.used == want&f.used, "switching a flag twice differs from once")
}

// H_C11_sequence: any history of switches leaves the byte as the last switch of each flag says.
func H_C11_sequence() {
	vs.Bound("histories of 2 (thorough: 3) switches of flags of one byte")
	t := vs.Choose("type", nFlagTypes)
	v := vs.U8("v")
	want := v
	var used byte
	for _, f := range flags {
		if f.typ == t {
			used = f.used
		}
	}
	n := vs.Tier(2, 3)
	for s := 0; s < n; s++ {
		i := vs.U8("which")
		on := vs.Bool("on")
		k := uint8(0)
		got, exp := v, want
		for _, f := range flags {
			if f.typ != t {
				continue
			}
			hit := i == k
			k++
			// no fork: select with masks
			m := mask8(hit)
			got = got&^m | f.set(v, on)&m
			exp = exp&^m | (want&^(1<<f.bit)|mask8(on)&(1<<f.bit))&m
		}
		v, want = got, exp
	}
	vs.Reach("done")
	vs.Assert(v&used == want&used, "a history of switches leaves another byte")
	for _, f := range flags {
		if f.typ == t {
			vs.Assert(f.get(v) == (want>>f.bit&1 == 1), "a flag reads differently after a history of switches")
		}
	}
}

func mask8(b bool) byte {
	if b {
		return 0xff
	}
	return 0
}

// ---- C12 ----

var protocols = []string{"DMX512", "MIDI", "Avab", "Colortran CMX", "ADB 62.5", "Art-Net"}
var authorities = []string{"unknown", "front", "net", "unused"}
var indicators = []string{"unknown", "locate", "mute", "normal"}

type enum struct {
	names []string
	shift uint
	mask  byte
	set   func(byte, string) byte
	get   func(byte) string
}

var enums = []enum{
	{protocols, 0, 0x1f, func(v byte, s string) byte { return byte(code.PortType(v).WithType(s)) }, func(v byte) string { return code.PortType(v).Type() }},
	{authorities, 4, 0x30, func(v byte, s string) byte { return byte(code.Status1(v).WithPortAddr(s)) }, func(v byte) string { return code.Status1(v).PortAddr() }},
	{indicators, 6, 0xc0, func(v byte, s string) byte { return byte(code.Status1(v).WithIndicator(s)) }, func(v byte) string { return code.Status1(v).Indicator() }},
}

func H_C12_set() {
	vs.Bound("three sub-fields, every documented value, every prior byte value")
	e := enums[vs.Choose("field", len(enums))]
	i := vs.Choose("value", 6)
	vs.Assume(i < len(e.names))
	v := vs.U8("v")
	got := e.set(v, e.names[i])
	vs.Reach("set")
	vs.Assert(got&e.mask == byte(i)<<e.shift, "a sub-field value is not stored with its Art-Net code")
	vs.Assert(got&^e.mask == v&^e.mask, "setting a sub-field changes other bits")
	vs.Assert(e.get(got) == e.names[i], "a sub-field does not read back what was set")
}

func H_C12_read() {
	vs.Bound("every byte value: the reader reports a documented value exactly for its code")
	e := enums[vs.Choose("field", len(enums))]
	v := vs.U8("v")
	got := e.get(v)
	vs.Reach("read")
	c := int(v&e.mask) >> e.shift
	for i, n := range e.names {
		vs.Assert((got == n) == (c == i), "a code reads as another sub-field value")
	}
}

func H_C12_unknown() {
	vs.Bound("undocumented values: any text of 0..8 (thorough: ..14) bytes that is not one of the documented values")
	e := enums[vs.Choose("field", len(enums))]
	n := vs.Choose("len", vs.Tier(9, 15))
	s := string(vs.BytesN("s", n))
	for _, x := range e.names {
		vs.Assume(s != x)
	}
	v := vs.U8("v")
	vs.Reach("unknown")
	vs.Assert(e.set(v, s) == v, "setting an undocumented value changes the byte")
}

// ---- C13 ----

// opcodes are the opcodes Art-Net 4 defines and the library names.
var opcodes = []uint16{
	0x2000, 0x2100, 0x2300, 0x2400, 0x5000, 0x5100, 0x5200, 0x6000, 0x7000, 0x8000, 0x8100, 0x8200, 0x8300, 0x8400,
	0x9000, 0x9100, 0x9200, 0x9300, 0x9700, 0x9800, 0x9900, 0x9a00, 0x9b00, 0xa010, 0xa020, 0xa040,
	0xf000, 0xf100, 0xf200, 0xf300, 0xf400, 0xf500, 0xf600, 0xf800, 0xf900,
}

func definedOp(v uint16) bool {
	ok := false
	for _, o := range opcodes {
		ok = vs.Or(ok, v == o)
	}
	return ok
}

func H_C13_opcode_valid() {
	vs.Bound("all 65536 opcodes")
	v := vs.U16("v")
	vs.Assert(code.ValidOp(code.OpCode(v)) == definedOp(v), "opcode validity")
	vs.Reach("done")
}

// numbered: the text contains the number, in decimal or hexadecimal.
func numbered(s string, v int) bool {
	return strings.Contains(s, strconv.Itoa(v)) || strings.Contains(strings.ToLower(s), strconv.FormatInt(int64(v), 16))
}

func H_C13_opcode_undefined() {
	vs.Bound("all opcodes that are not defined")
	v := vs.U16("v")
	vs.Assume(!definedOp(v))
	s := code.OpCode(v).String()
	vs.Reach("text")
	vs.Assert(numbered(s, int(v)), "an undefined opcode is not rendered with its number")
}

func H_C13_opcode_names() {
	vs.Bound("all pairs of defined opcodes")
	a := opcodes[vs.Choose("a", len(opcodes))]
	b := vs.U16("b")
	vs.Assume(vs.And(definedOp(b), a != b))
	s, t := code.OpCode(a).String(), code.OpCode(b).String()
	vs.Reach("names")
	vs.Assert(s != t, "two opcodes have the same name")
	vs.Assert(s != "" && t != "", "an opcode has no name")
	vs.Assert(!numbered(s, int(a)), "a defined opcode is rendered as a number")
}

func H_C13_style() {
	vs.Bound("all pairs of style bytes")
	a, b := vs.U8("a"), vs.U8("b")
	vs.Assert(code.ValidStyle(code.StyleCode(a)) == (a <= 6), "style validity")
	s := code.StyleCode(a).String()
	vs.Reach("text")
	if a > 6 {
		vs.Assert(numbered(s, int(a)), "an undefined style is not rendered with its number")
		return
	}
	vs.Assert(s != "" && !numbered(s, int(a)), "a style has no name")
	vs.Assume(b < a)
	vs.Assert(s != code.StyleCode(b).String(), "two styles have the same name")
}

func H_C13_report() {
	vs.Bound("all pairs of report code bytes")
	a, b := vs.U8("a"), vs.U8("b")
	s := code.NodeReportCode(a).String()
	vs.Reach("text")
	if a > 0x10 {
		vs.Assert(numbered(s, int(a)), "an undefined report code is not rendered with its number")
		return
	}
	vs.Assert(s != "", "a report code has no name")
	vs.Assume(b < a)
	vs.Assert(s != code.NodeReportCode(b).String(), "two report codes have the same name")
}

func definedPrio(v uint8) bool {
	return vs.Or(v == 0, v == 0x10, v == 0x40, v == 0x80, v == 0xe0, v == 0xf0)
}

func H_C13_priority() {
	vs.Bound("all pairs of priority bytes")
	a, b := vs.U8("a"), vs.U8("b")
	s := code.PriorityCode(a).String()
	vs.Reach("text")
	if !definedPrio(a) {
		vs.Assert(numbered(s, int(a)), "an undefined priority is not rendered with its number")
		return
	}
	vs.Assert(s != "" && !strings.Contains(s, "("), "a priority has no name")
	vs.Assume(vs.And(definedPrio(b), b < a))
	vs.Assert(s != code.PriorityCode(b).String(), "two priorities have the same name")
}

func H_C13_flagtext() {
	vs.Bound("all values of the eight status byte types")
	t := vs.Choose("type", nFlagTypes)
	v := vs.U8("v")
	s := flagText(t, v)
	vs.Reach("text")
	for _, f := range flags {
		if f.typ == t {
			on := strings.Contains(s, f.label+"yes") || strings.Contains(s, f.label+"on")
			off := strings.Contains(s, f.label+"no") || strings.Contains(s, f.label+"off")
			set := v&(1<<f.bit) != 0
			vs.Assert(on == set && off != set, "the text of "+f.name+" does not show the flag")
		}
	}
	if t == tPortType && v&0x1f < 6 {
		vs.Assert(strings.Contains(s, "Type: "+protocols[v&0x1f]), "the text does not show the port's protocol")
	}
	if t == tStatus1 {
		vs.Assert(strings.Contains(s, "PortAddr: "+authorities[v>>4&3]), "the text does not show the programming authority")
		vs.Assert(strings.Contains(s, "Indicator: "+indicators[v>>6]), "the text does not show the indicator state")
	}
}
