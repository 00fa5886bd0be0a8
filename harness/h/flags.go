//go:build go1.21

package h

import "github.com/jsimonetti/go-artnet/packet/code"

// The flags of the status bytes: where Art-Net puts each one, which bits of its byte mean
// anything at all, and how the library sets, reads and prints it.
type flag struct {
	typ   int
	name  string
	bit   uint
	used  byte
	label string
	set   func(byte, bool) byte
	get   func(byte) bool
}

const (
	tGoodInput = iota
	tGoodOutput
	tPortType
	tStatus1
	tStatus2
	tSwMacro
	tSwRemote
	tTalkToMe
)

var flags = []flag{
	{tGoodInput, "GoodInput.Receive", 2, 0xfc, "ReceiveErrors: ",
		func(v byte, on bool) byte { return byte(code.GoodInput(v).WithReceive(on)) },
		func(v byte) bool { return code.GoodInput(v).Receive() }},
	{tGoodInput, "GoodInput.Disabled", 3, 0xfc, "Disabled: ",
		func(v byte, on bool) byte { return byte(code.GoodInput(v).WithDisabled(on)) },
		func(v byte) bool { return code.GoodInput(v).Disabled() }},
	{tGoodInput, "GoodInput.Text", 4, 0xfc, "DMX512Text: ",
		func(v byte, on bool) byte { return byte(code.GoodInput(v).WithText(on)) },
		func(v byte) bool { return code.GoodInput(v).Text() }},
	{tGoodInput, "GoodInput.SIP", 5, 0xfc, "DMX512SIP: ",
		func(v byte, on bool) byte { return byte(code.GoodInput(v).WithSIP(on)) },
		func(v byte) bool { return code.GoodInput(v).SIP() }},
	{tGoodInput, "GoodInput.Test", 6, 0xfc, "DMX512Test: ",
		func(v byte, on bool) byte { return byte(code.GoodInput(v).WithTest(on)) },
		func(v byte) bool { return code.GoodInput(v).Test() }},
	{tGoodInput, "GoodInput.Data", 7, 0xfc, "DataReceived: ",
		func(v byte, on bool) byte { return byte(code.GoodInput(v).WithData(on)) },
		func(v byte) bool { return code.GoodInput(v).Data() }},
	{tGoodOutput, "GoodOutput.ACN", 0, 0xff, "OutputACN: ",
		func(v byte, on bool) byte { return byte(code.GoodOutput(v).WithACN(on)) },
		func(v byte) bool { return code.GoodOutput(v).ACN() }},
	{tGoodOutput, "GoodOutput.LTP", 1, 0xff, "LTPMergeMode: ",
		func(v byte, on bool) byte { return byte(code.GoodOutput(v).WithLTP(on)) },
		func(v byte) bool { return code.GoodOutput(v).LTP() }},
	{tGoodOutput, "GoodOutput.Output", 2, 0xff, "OutputShort: ",
		func(v byte, on bool) byte { return byte(code.GoodOutput(v).WithOutput(on)) },
		func(v byte) bool { return code.GoodOutput(v).Output() }},
	{tGoodOutput, "GoodOutput.Merging", 3, 0xff, "Merging: ",
		func(v byte, on bool) byte { return byte(code.GoodOutput(v).WithMerging(on)) },
		func(v byte) bool { return code.GoodOutput(v).Merging() }},
	{tGoodOutput, "GoodOutput.Text", 4, 0xff, "DMX512Text: ",
		func(v byte, on bool) byte { return byte(code.GoodOutput(v).WithText(on)) },
		func(v byte) bool { return code.GoodOutput(v).Text() }},
	{tGoodOutput, "GoodOutput.SIP", 5, 0xff, "DMX512SIP: ",
		func(v byte, on bool) byte { return byte(code.GoodOutput(v).WithSIP(on)) },
		func(v byte) bool { return code.GoodOutput(v).SIP() }},
	{tGoodOutput, "GoodOutput.Test", 6, 0xff, "DMX512Test: ",
		func(v byte, on bool) byte { return byte(code.GoodOutput(v).WithTest(on)) },
		func(v byte) bool { return code.GoodOutput(v).Test() }},
	{tGoodOutput, "GoodOutput.Data", 7, 0xff, "DataSending: ",
		func(v byte, on bool) byte { return byte(code.GoodOutput(v).WithData(on)) },
		func(v byte) bool { return code.GoodOutput(v).Data() }},
	{tPortType, "PortType.Input", 6, 0xdf, "Input: ",
		func(v byte, on bool) byte { return byte(code.PortType(v).WithInput(on)) },
		func(v byte) bool { return code.PortType(v).Input() }},
	{tPortType, "PortType.Output", 7, 0xdf, "Output: ",
		func(v byte, on bool) byte { return byte(code.PortType(v).WithOutput(on)) },
		func(v byte) bool { return code.PortType(v).Output() }},
	{tStatus1, "Status1.UBEA", 0, 0xf7, "UBEA: ",
		func(v byte, on bool) byte { return byte(code.Status1(v).WithUBEA(on)) },
		func(v byte) bool { return code.Status1(v).UBEA() }},
	{tStatus1, "Status1.RDM", 1, 0xf7, "RDM: ",
		func(v byte, on bool) byte { return byte(code.Status1(v).WithRDM(on)) },
		func(v byte) bool { return code.Status1(v).RDM() }},
	{tStatus1, "Status1.BootROM", 2, 0xf7, "BootRom: ",
		func(v byte, on bool) byte { return byte(code.Status1(v).WithBootROM(on)) },
		func(v byte) bool { return code.Status1(v).BootROM() }},
	{tStatus2, "Status2.Browser", 0, 0x3f, "Browser: ",
		func(v byte, on bool) byte { return byte(code.Status2(v).WithBrowser(on)) },
		func(v byte) bool { return code.Status2(v).Browser() }},
	{tStatus2, "Status2.DHCP", 1, 0x3f, "DHCP: ",
		func(v byte, on bool) byte { return byte(code.Status2(v).WithDHCP(on)) },
		func(v byte) bool { return code.Status2(v).DHCP() }},
	{tStatus2, "Status2.DHCPCapable", 2, 0x3f, "DHCPCapable: ",
		func(v byte, on bool) byte { return byte(code.Status2(v).WithDHCPCapable(on)) },
		func(v byte) bool { return code.Status2(v).DHCPCapable() }},
	{tStatus2, "Status2.Port15", 3, 0x3f, "Port 15bit: ",
		func(v byte, on bool) byte { return byte(code.Status2(v).WithPort15(on)) },
		func(v byte) bool { return code.Status2(v).Port15() }},
	{tStatus2, "Status2.Switch", 4, 0x3f, "CanSwitch: ",
		func(v byte, on bool) byte { return byte(code.Status2(v).WithSwitch(on)) },
		func(v byte) bool { return code.Status2(v).Switch() }},
	{tStatus2, "Status2.Squawk", 5, 0x3f, "Squawking: ",
		func(v byte, on bool) byte { return byte(code.Status2(v).WithSquawk(on)) },
		func(v byte) bool { return code.Status2(v).Squawk() }},
	{tSwMacro, "SwMacro.Macro1", 0, 0xff, "Macro1: ",
		func(v byte, on bool) byte { return byte(code.SwMacro(v).WithMacro1(on)) },
		func(v byte) bool { return code.SwMacro(v).Macro1() }},
	{tSwMacro, "SwMacro.Macro2", 1, 0xff, "Macro2: ",
		func(v byte, on bool) byte { return byte(code.SwMacro(v).WithMacro2(on)) },
		func(v byte) bool { return code.SwMacro(v).Macro2() }},
	{tSwMacro, "SwMacro.Macro3", 2, 0xff, "Macro3: ",
		func(v byte, on bool) byte { return byte(code.SwMacro(v).WithMacro3(on)) },
		func(v byte) bool { return code.SwMacro(v).Macro3() }},
	{tSwMacro, "SwMacro.Macro4", 3, 0xff, "Macro4: ",
		func(v byte, on bool) byte { return byte(code.SwMacro(v).WithMacro4(on)) },
		func(v byte) bool { return code.SwMacro(v).Macro4() }},
	{tSwMacro, "SwMacro.Macro5", 4, 0xff, "Macro5: ",
		func(v byte, on bool) byte { return byte(code.SwMacro(v).WithMacro5(on)) },
		func(v byte) bool { return code.SwMacro(v).Macro5() }},
	{tSwMacro, "SwMacro.Macro6", 5, 0xff, "Macro6: ",
		func(v byte, on bool) byte { return byte(code.SwMacro(v).WithMacro6(on)) },
		func(v byte) bool { return code.SwMacro(v).Macro6() }},
	{tSwMacro, "SwMacro.Macro7", 6, 0xff, "Macro7: ",
		func(v byte, on bool) byte { return byte(code.SwMacro(v).WithMacro7(on)) },
		func(v byte) bool { return code.SwMacro(v).Macro7() }},
	{tSwMacro, "SwMacro.Macro8", 7, 0xff, "Macro8: ",
		func(v byte, on bool) byte { return byte(code.SwMacro(v).WithMacro8(on)) },
		func(v byte) bool { return code.SwMacro(v).Macro8() }},
	{tSwRemote, "SwRemote.Remote1", 0, 0xff, "Remote1: ",
		func(v byte, on bool) byte { return byte(code.SwRemote(v).WithRemote1(on)) },
		func(v byte) bool { return code.SwRemote(v).Remote1() }},
	{tSwRemote, "SwRemote.Remote2", 1, 0xff, "Remote2: ",
		func(v byte, on bool) byte { return byte(code.SwRemote(v).WithRemote2(on)) },
		func(v byte) bool { return code.SwRemote(v).Remote2() }},
	{tSwRemote, "SwRemote.Remote3", 2, 0xff, "Remote3: ",
		func(v byte, on bool) byte { return byte(code.SwRemote(v).WithRemote3(on)) },
		func(v byte) bool { return code.SwRemote(v).Remote3() }},
	{tSwRemote, "SwRemote.Remote4", 3, 0xff, "Remote4: ",
		func(v byte, on bool) byte { return byte(code.SwRemote(v).WithRemote4(on)) },
		func(v byte) bool { return code.SwRemote(v).Remote4() }},
	{tSwRemote, "SwRemote.Remote5", 4, 0xff, "Remote5: ",
		func(v byte, on bool) byte { return byte(code.SwRemote(v).WithRemote5(on)) },
		func(v byte) bool { return code.SwRemote(v).Remote5() }},
	{tSwRemote, "SwRemote.Remote6", 5, 0xff, "Remote6: ",
		func(v byte, on bool) byte { return byte(code.SwRemote(v).WithRemote6(on)) },
		func(v byte) bool { return code.SwRemote(v).Remote6() }},
	{tSwRemote, "SwRemote.Remote7", 6, 0xff, "Remote7: ",
		func(v byte, on bool) byte { return byte(code.SwRemote(v).WithRemote7(on)) },
		func(v byte) bool { return code.SwRemote(v).Remote7() }},
	{tSwRemote, "SwRemote.Remote8", 7, 0xff, "Remote8: ",
		func(v byte, on bool) byte { return byte(code.SwRemote(v).WithRemote8(on)) },
		func(v byte) bool { return code.SwRemote(v).Remote8() }},
	{tTalkToMe, "TalkToMe.ReplyOnChange", 1, 0x1e, "ReplyOnChange: ",
		func(v byte, on bool) byte { return byte(code.TalkToMe(v).WithReplyOnChange(on)) },
		func(v byte) bool { return code.TalkToMe(v).ReplyOnChange() }},
	{tTalkToMe, "TalkToMe.Diagnostics", 2, 0x1e, "Diagnostics: ",
		func(v byte, on bool) byte { return byte(code.TalkToMe(v).WithDiagnostics(on)) },
		func(v byte) bool { return code.TalkToMe(v).Diagnostics() }},
	{tTalkToMe, "TalkToMe.DiagUnicast", 3, 0x1e, "as unicast: ",
		func(v byte, on bool) byte { return byte(code.TalkToMe(v).WithDiagUnicast(on)) },
		func(v byte) bool { return code.TalkToMe(v).DiagUnicast() }},
	{tTalkToMe, "TalkToMe.VLC", 4, 0x1e, "VLC: ",
		func(v byte, on bool) byte { return byte(code.TalkToMe(v).WithVLC(on)) },
		func(v byte) bool { return code.TalkToMe(v).VLC() }},
}

// flagText is the text of a status byte.
func flagText(t int, v byte) string {
	switch t {
	case tGoodInput:
		return code.GoodInput(v).String()
	case tGoodOutput:
		return code.GoodOutput(v).String()
	case tPortType:
		return code.PortType(v).String()
	case tStatus1:
		return code.Status1(v).String()
	case tStatus2:
		return code.Status2(v).String()
	case tSwMacro:
		return code.SwMacro(v).String()
	case tSwRemote:
		return code.SwRemote(v).String()
	case tTalkToMe:
		return code.TalkToMe(v).String()
	}
	return ""
}

const nFlagTypes = 8
