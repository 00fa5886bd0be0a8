#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit titles and statements)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Decoding untrusted datagrams never crashes",
  "For every byte sequence, of any length and content, decoding it (with the generic decoder or with any packet kind's own decoder, into a fresh packet) returns normally: it never panics and never fails to terminate. When the generic decoder reports success the packet it returns is non-nil.",
  ["inputs"],"all datagrams of 0..N bytes, every byte arbitrary, through every decoding entry point",
  "Tests decode about a dozen captured packets; truncation points, odd lengths and hostile length fields are never sampled.",
  ["packet/packet.go","packet/header.go","packet/artdmx.go","packet/artpollreply.go"],
  [("length checks before indexing","packet/header.go Header.unmarshal, packet/artdmx.go UnmarshalBinary"),("binary.Read short-read errors","packet/header.go unmarshalPacket")],
  ["packet.Unmarshal","(*Art*Packet).UnmarshalBinary"])
p("C02","Only genuine Art-Net headers are accepted",
  "A decoder (generic or kind-specific) accepts a datagram only if it starts with the 8-byte identifier \"Art-Net\\0\", carries the opcode of the packet kind being produced and, for every kind except ArtPollReply (which has no version field), a protocol revision low byte of at least 14. Every other datagram is rejected with an error.",
  ["inputs"],"all datagrams of 0..N bytes, all decoders",
  "Tests try 13 headers, all through the generic path and none with a damaged identifier byte or a kind/opcode mismatch.",
  ["packet/header.go","packet/packet.go","packet/artdmx.go","packet/artpollreply.go"],
  [("header validation","packet/header.go Header.validate"),("per-kind opcode check","packet/art*.go validate")],
  ["packet.Unmarshal","(*Art*Packet).UnmarshalBinary"])
p("C03","The wire opcode alone selects the packet kind",
  "The generic decoder interprets bytes 8 and 9 as a little-endian opcode: on success the returned packet is of exactly the kind that opcode designates and reports that opcode. Opcodes the library does not implement or does not know are always rejected, and every implemented opcode is decodable by the generic decoder when the rest of the datagram is well formed.",
  ["inputs"],"all 65536 opcodes, all well-formed and malformed remainders within the length bound",
  "Tests exercise 3 of 65536 opcodes through the generic decoder.",
  ["packet/packet.go","packet/header.go","packet/code/opcode.go"],
  [("opcode switch","packet/packet.go Unmarshal"),("opcode byte swap","packet/header.go swapOpCode")],
  ["packet.Unmarshal","ArtNetPacket.GetOpCode"])
p("C04","Encode then decode returns the same packet",
  "For every packet kind and every value of its fields that the kind can carry, encoding the packet and decoding the bytes with the generic decoder succeeds and yields the same kind with every data field unchanged (an ArtDMX packet always carries its full 512 channels, so its length field reads 512; an ArtCommand always carries the wildcard manufacturer code). This holds for packets made by the constructors or as plain values, without the caller having to fill in any header field.",
  ["inputs"],"all field values of all 12 packet kinds (length fields at most 512, poll-reply port 6454 and a known style)",
  "Only ArtPoll, ArtPollReply and ArtDMX have tests, each with a handful of fixed values; nine kinds have none.",
  ["packet/header.go","packet/art*.go"],
  [("marshalPacket/unmarshalPacket","packet/header.go"),("finish/validate pairs","packet/art*.go")],
  ["MarshalBinary","packet.Unmarshal"])
p("C05","Encoded packets follow the Art-Net wire layout",
  "Every encoded packet has the fixed size of its kind, starts with the identifier, the little-endian opcode and (except ArtPollReply) protocol version 0,14, and carries each field at its Art-Net offset in its Art-Net byte order, with filler and spare bytes zero. This holds whatever values the caller's header fields had before encoding.",
  ["inputs"],"all field values of all 12 packet kinds, arbitrary prior header contents",
  "A symmetric mistake in encoder and decoder survives every round-trip test; byte-exact tests exist for three kinds and few values.",
  ["packet/header.go","packet/art*.go","version/version.go"],
  [("struct field order written big-endian","packet/header.go marshalPacket"),("finish","packet/art*.go")],
  ["MarshalBinary output bytes"])
p("C06","Decoded fields are exactly the wire bytes",
  "When a datagram is accepted, every field of the resulting packet equals the bytes at that field's Art-Net offset in that field's byte order, irrespective of filler bytes and of any bytes after the end of the packet. ArtDMX channels beyond the announced length read as zero when decoded generically.",
  ["inputs"],"all accepted datagrams within the length bound, for all 12 kinds",
  "Tests check three kinds with fixed bytes; offsets and byte orders of the other nine are never checked.",
  ["packet/header.go","packet/artdmx.go","packet/art*.go"],
  [("binary.Read in struct order","packet/header.go unmarshalPacket"),("explicit offsets","packet/artdmx.go UnmarshalBinary")],
  ["packet.Unmarshal"])
p("C07","Encoding is repeatable and does not alter the packet",
  "Encoding the same packet value repeatedly yields identical bytes every time, and encoding leaves the data fields, the port and the opcode the caller sees unchanged (a zero header may be left zero or filled in with the kind's proper opcode, identifier and version, never anything else). The bytes returned by one encoding are not changed by later encodings or by later changes to the packet.",
  ["inputs","histories"],"all field values of all 12 kinds, sequences of encodings of one packet",
  "Tests marshal each value once.",
  ["packet/header.go","packet/art*.go"],
  [("finish on a copy","packet/header.go marshalPacket, packet/art*.go MarshalBinary")],
  ["MarshalBinary","GetOpCode"])
p("C08","DMX payload lengths are enforced exactly",
  "An ArtDMX datagram with a valid header is accepted if and only if its announced length is an even number from 2 to 512 and that many channel bytes are really present; the accepted packet reports that length and exactly those channel bytes. For ArtNzs, ArtCommand and ArtDiagData an accepted packet never announces more than 512 data bytes.",
  ["inputs"],"all announced lengths 0..65535 against all datagram lengths within the bound",
  "Tests use 3 length/size combinations.",
  ["packet/artdmx.go","packet/artnzs.go","packet/artcommand.go","packet/artdiagdata.go"],
  [("length guard","packet/artdmx.go UnmarshalBinary"),("length validation","packet/art{nzs,command,diagdata}.go validate")],
  ["packet.Unmarshal","(*ArtDMXPacket).UnmarshalBinary"])
p("C09","Poll replies are accepted exactly when well formed",
  "An ArtPollReply datagram with a valid identifier and opcode is accepted if and only if it is at least 239 bytes long, its port field is 6454 in either byte order and its style is one of the seven known ones. An accepted reply always reports port 6454.",
  ["inputs"],"all poll-reply datagrams within the length bound, all port and style values",
  "Tests cover 5 replies; no rejected port or style value and no truncated reply is tried.",
  ["packet/artpollreply.go","packet/code/stylecode.go"],
  [("validate","packet/artpollreply.go"),("ValidStyle","packet/code/stylecode.go")],
  ["packet.Unmarshal","(*ArtPollReplyPacket).UnmarshalBinary"])
p("C10","Decoding neither changes nor keeps the input buffer",
  "Decoding a datagram never modifies the caller's bytes, and a decoded packet (and a node configuration derived from a decoded poll reply) does not change when the caller later overwrites or reuses the buffer.",
  ["inputs","histories"],"all datagrams within the bound followed by an arbitrary overwrite of the buffer",
  "No test reuses a buffer.",
  ["packet/header.go","packet/artdmx.go","config.go"],
  [("array fields copied by value","packet/*.go"),("copy","packet/artdmx.go UnmarshalBinary")],
  ["packet.Unmarshal","ConfigFromArtPollReply"])
p("C11","Status flags read back what was set",
  "For every status/flag byte type and every prior value, switching a flag on or off makes its reader report exactly that, switching it off really clears it, and no other flag or sub-field of the byte changes. Each flag occupies the bit position Art-Net assigns to it.",
  ["inputs"],"all 256 prior values x both settings x every flag of every flag type",
  "Flags are only ever set from the zero value in tests; clearing is never observed.",
  ["packet/code/goodinput.go","packet/code/goodoutput.go","packet/code/porttype.go","packet/code/status1.go","packet/code/status2.go","packet/code/swmacro.go","packet/code/swremote.go","packet/code/talktome.go"],
  [("With*/reader pairs","packet/code/*.go")],["code.* With*/reader methods"])
p("C12","Enumerated sub-fields read back what was set",
  "For every prior byte value, setting a port's protocol, the port-address programming authority or the indicator state to any documented value makes its reader report that value and leaves all other bits unchanged; setting an undocumented value changes nothing. The values use the bit positions and codes Art-Net assigns.",
  ["inputs"],"all 256 prior values x all documented values of each enumerated sub-field",
  "Tests only set \"DMX512\" and \"unknown\", which are both encoded as zero.",
  ["packet/code/porttype.go","packet/code/status1.go"],
  [("WithType/Type, WithPortAddr/PortAddr, WithIndicator/Indicator","packet/code/porttype.go, packet/code/status1.go")],["code.PortType","code.Status1"])
p("C13","Codes, validity predicates and names agree",
  "Turning any value of any code type into text never panics; an opcode or style is reported valid if and only if it is one of the defined ones, every defined code has its own distinct name, and any undefined value is rendered with its number. The text of a flag byte shows a flag as set exactly when that flag is set.",
  ["inputs"],"all values of all code types (8 and 16 bit)",
  "No test exists for any of these functions.",
  ["packet/code/*.go"],[("name tables and index bounds","packet/code/*_string.go, packet/code/stylecode.go"),("ValidOp, ValidStyle","packet/code/opcode.go, packet/code/stylecode.go")],["String()","code.ValidOp","code.ValidStyle"])
p("C14","A node is discovered exactly as it is configured",
  "For every valid node configuration whose ports lie in its own net and sub-net, building its poll reply, sending it over the wire and turning the received reply back into a configuration preserves OEM, versions, style, ASCII manufacturer/name/description up to the field sizes, report codes, MAC, IPv4 addresses, bind index, status bytes, base net and sub-net, and every input and output port with its address, protocol and status. The reply never announces more ports than configured.",
  ["inputs","configurations"],"all configurations with 0..4 input and 0..4 output ports of the documented protocols, all scalar field values",
  "The configuration conversion has no enabled test.",
  ["config.go","packet/artpollreply.go"],[("ArtPollReplyFromConfig / ConfigFromArtPollReply","config.go"),("PortTypes, NumberOfPorts","config.go")],["ArtPollReplyFromConfig","ConfigFromArtPollReply","packet.Unmarshal"])
p("C15","Discovered port addresses follow the Port-Address rule",
  "For every poll reply, the derived configuration lists, in port order, an output (input) port for exactly those of the first min(announced count, 4) ports that are flagged as output (input). Each port's address has the reply's net switch as net and, as low byte, the sub-switch in the high nibble combined with that port's output (input) switch in the low nibble, and carries that port's type and status. The integer form of an address is 256 times the net plus the low byte, its text form net:sub-net.universe.",
  ["inputs"],"all poll replies: any announced port count 0..65535, any port types, switches and statuses",
  "The only test of the conversion is commented out.",
  ["config.go"],[("port loop","config.go ConfigFromArtPollReply")],["ConfigFromArtPollReply"])
p("C16","Starting validates the configuration first",
  "Starting a node whose configuration has more than four input or more than four output ports, or an input and an output of the same index with different protocols, returns an error without opening a socket or starting to answer. Every other configuration starts.",
  ["configurations"],"all configurations with 0..6 input and output ports and arbitrary port types",
  "No test starts a node.",
  ["node.go","config.go"],[("validate before listen","node.go Start, config.go validate")],["Node.Start"])
p("C17","Every poll from another host gets one faithful reply",
  "A running node answers each well-formed ArtPoll datagram from another address with exactly one ArtPollReply that carries the node's configured identity, sent to the configured broadcast address; datagrams from its own address, malformed datagrams and other packets cause no transmission. This holds for every sequence of datagrams.",
  ["inputs","histories"],"all sequences of up to K datagrams with arbitrary content and sources, settled one after the other",
  "No test runs a node against traffic.",
  ["node.go","config.go"],[("pollReplyLoop, recvLoop","node.go")],["datagrams written by the node"])
p("C18","Callbacks get each matching packet once, intact",
  "Each well-formed datagram received from another address is delivered exactly once to the callback registered for its opcode, and to no other callback, as a packet equal to what decoding that datagram yields; it stays intact while later datagrams arrive. Registering or removing callbacks has an effect before start and none while the node runs; the latest registration before start wins.",
  ["inputs","histories"],"all sequences of up to K datagrams, arbitrary opcodes and contents, arbitrary registration sequences before and after start",
  "No test registers a callback.",
  ["node.go"],[("handlePacket and the callback table","node.go"),("copy of the receive buffer","node.go recvLoop"),("isShutdown guard","node.go RegisterCallback/DeregisterCallback")],["RegisterCallback","DeregisterCallback","callback invocations"])
p("C19","No traffic or socket error crashes or wedges a node",
  "Whatever sequence of datagrams, read errors and write errors the network produces, a running node does not panic and still answers the next valid ArtPoll once the network works again.",
  ["inputs","fault_sequences"],"all sequences of up to K events: arbitrary datagram, read error, failing writes",
  "No test runs a node; socket errors cannot be provoked by ordinary tests.",
  ["node.go"],[("error handling in recvLoop and sendLoop","node.go")],["panics","replies to a later poll"])
p("C20","Stopping is clean in every state",
  "Stopping a running node or controller returns, ends every goroutine it started, closes its socket, and nothing is transmitted after stop has returned, whatever traffic, callbacks or pending work is in flight and however goroutines interleave. Stopping one that was never started, failed to start or is already stopped does nothing and does not panic.",
  ["schedules","histories"],"all lifecycle sequences of bounded length and all bounded interleavings of stop with in-flight work",
  "Lifecycle code is untested and depends on the schedule.",
  ["node.go","controller.go"],[("shutdownCh, shutdown flag","node.go Stop"),("select on shutdown in every loop","node.go, controller.go")],["goroutines after Stop","writes after Stop","panics"])
p("C21","DMX data reaches exactly the right node, unaltered",
  "After a frame is submitted for an address that a live node announced as an output, the next update sends one ArtDMX packet to that node's announced IP on port 6454 carrying that address and exactly the most recently submitted 512 channels; no other node gets it and no other universe's data changes. A frame for an address that no live node announced as an output causes no transmission.",
  ["inputs","histories"],"all histories of up to K poll replies, frames and updates with arbitrary addresses, IPs and channel values (no two live nodes announcing the same output address)",
  "No controller test exists.",
  ["controller.go"],[("SendDMXToAddress, setDMXBuffer, dmxUpdate, dmxUpdateLoop","controller.go"),("OutputAddress map","controller.go")],["datagrams written by the controller"])
p("C22","The routing tables mirror what live nodes announce",
  "After any history of poll replies and expiries, the controller knows exactly one node per announced IP with that IP's latest configuration, and its output and input address tables map exactly the addresses those nodes currently announce, each to its announcer (where several of them announce one address, to the one that replied last; it passes to another announcer when that one gives it up or expires). Replies from devices that are neither nodes nor controllers with outputs change nothing.",
  ["histories","inputs"],"all histories of up to K poll replies and sweeps from up to 3 nodes with arbitrary port sets",
  "No controller test exists.",
  ["controller.go"],[("updateNode, gcNode","controller.go")],["Controller.Nodes","Controller.OutputAddress","Controller.InputAddress"])
p("C23","Nodes expire when silent and only then",
  "At each periodic sweep exactly those nodes whose last poll reply is more than seven seconds old are dropped, together with their addresses; nodes heard from within seven seconds are kept. A dropped node that replies again is known again and gets data again.",
  ["histories","inputs"],"all reply times (symbolic instants) of up to 3 nodes over several sweeps",
  "Timing behaviour is not tested.",
  ["controller.go"],[("gcNode","controller.go"),("LastSeen","controller.go updateNode")],["Controller.Nodes","Controller.OutputAddress","datagrams after expiry"])
p("C24","DMX sequence numbers run 1..255 without gaps",
  "The sequence numbers of successive ArtDMX packets sent to one node each follow their predecessor by one in the cycle 1, 2, ..., 255, 1 and are never 0, for any number of packets and universes. Sequence numbers of different nodes are independent.",
  ["histories"],"every current sequence value (one inductive step from an arbitrary number) and short histories from a fresh node",
  "The wrap-around after 255 packets is never reached by a test.",
  ["controller.go"],[("Sequence increment","controller.go dmxUpdate")],["Sequence field of transmitted ArtDMX packets"])
p("C25","Every known universe is refreshed, within the rate limit",
  "Each output universe of a live node is sent at its first update after discovery (all channels zero until data is submitted) and from then on again no later than the first update more than 250 ms after its previous packet; changed data is sent at the next update. No universe is sent more than once per update tick and update ticks are one configured frame interval apart.",
  ["histories","inputs","configurations"],"all submission times (symbolic instants) over several update ticks, frame rates 1..1000",
  "No test runs the update loop.",
  ["controller.go","options.go"],[("dmxUpdateLoop, forceUpdate","controller.go"),("MaxFPS","options.go")],["times and contents of transmitted ArtDMX packets"])
p("C26","A controller polls on schedule and answers itself",
  "A running controller broadcasts a well-formed ArtPoll to its configured broadcast address at start and every three seconds thereafter until stopped, and follows each with its own ArtPollReply announcing the style controller. Nothing else is sent while no nodes are known.",
  ["histories","configurations"],"all instants within a bounded virtual time span, arbitrary broadcast addresses, arbitrary poll replies meanwhile",
  "No controller test exists.",
  ["controller.go","node.go"],[("pollLoop, pollTicker","controller.go"),("pollReplyLoop","node.go")],["datagrams written by the controller"])
p("C27","Concurrent controller use is race- and deadlock-free",
  "Submitting frames from several goroutines while replies arrive, updates run, sweeps happen or the controller is stopped neither races on shared state nor deadlocks, and afterwards each universe holds some whole submitted frame (never a mixture). This holds for every interleaving.",
  ["schedules"],"all interleavings up to a preemption bound of 2 submitters, a poll reply, an update tick, a sweep and a stop",
  "No test runs two of these activities together; ordinary tests sample one schedule.",
  ["controller.go"],[("nodeLock mutexes","controller.go")],["happens-before of memory accesses","progress","transmitted data"])
p("C28","Options take effect and cannot make a controller crash",
  "For every frame-rate limit, starting a controller created with it never panics: a rate from 1 to 1000000000 is used as given and any other value is refused and leaves the default in force. Listen and broadcast address options are the addresses actually used for listening and broadcasting.",
  ["configurations"],"all int frame rates, arbitrary listen and broadcast addresses",
  "No option is tested.",
  ["options.go","controller.go","node.go"],[("MaxFPS, BroadcastAddr, ListenAddress, ListenIP, Node* options","options.go")],["panics","update interval","socket and destination addresses"])
p("C29","A stopped node or controller can be started again",
  "Once a node or controller has been stopped and its goroutines have ended, starting it again succeeds and it behaves as at its first start. A node answers every poll once with its present configuration and uses the callbacks registered before the start. A controller polls at once and then on schedule, knows no node until one replies, sends an announced output as zeros first and numbers a node's packets from 1 again. A failed start in between changes nothing about that, and stopping is as clean as the first time.",
  ["histories","schedules","fault_sequences"],"all lifecycles of up to 3 runs with symbolic configurations, callbacks changed in between, failed starts, replies, frames, sweeps and pauses; stop interleaved with in-flight work in a second run",
  "No test starts anything twice.",
  ["node.go","controller.go"],[("Start: channels, shutdown flag, tables made anew","node.go, controller.go"),("stop","node.go")],["datagrams in later runs","callbacks","Controller.Nodes and address tables","goroutines"])
p("C30","Codec and conversions are safe for concurrent use",
  "Packets can be encoded and decoded, configurations converted and codes turned into text by several goroutines at once: no call writes memory another call reads or writes, and each gives the result it gives when used alone. This includes encoding one packet, or decoding one buffer, in several goroutines; two decodings never share the packet they return.",
  ["schedules","inputs"],"all pairs of concurrent calls, all packet kinds with arbitrary contents, happens-before over every memory access",
  "Tests call the codec from one goroutine.",
  ["packet/packet.go","packet/header.go","packet/art*.go","config.go"],[("no package-level mutable state","packet, packet/code, config.go")],["happens-before of memory accesses","results of the calls"])
p("C31","A running node is race-free and nodes are independent",
  "While a node runs, arriving packets, read errors, replies and callbacks do not race with each other or with another goroutine calling Stop, RegisterCallback, DeregisterCallback or the node's accessors; every such call returns and each packet is still handled exactly once unless the node is being stopped. Two nodes, or two controllers, in one process share nothing: each answers with its own identity to its own broadcast address, calls its own callbacks or sends its own frames with its own sequence numbers, and stopping one leaves the other running.",
  ["schedules"],"all interleavings up to a preemption bound of two packets or faults with one concurrent call, in node and controller style",
  "No test calls a node's methods while packets arrive.",
  ["node.go"],[("shutdownLock, callbacks map, channels","node.go")],["happens-before of memory accesses","datagrams","callbacks","progress"])
p("C32","Callbacks may block or use the node they belong to",
  "A callback may take any time: while any number of callbacks are blocked, a running node still answers polls and delivers every further packet once, to other callbacks and to the blocked one. A callback may wait for another packet's callback, change the packet it was given, ask for the connection, try to register or remove callbacks, or stop its node, without a deadlock and without any other packet being lost or repeated.",
  ["schedules","histories"],"all interleavings up to a preemption bound of up to 40 blocked callbacks with polls, further packets and faults; callbacks re-entering each method",
  "No test registers a callback.",
  ["node.go"],[("one goroutine per packet (handlePacket)","node.go recvLoop"),("isShutdown without holding the lock during callbacks","node.go")],["datagrams","callback invocations","progress"])
import glob,os
KINDS="address command diagdata dmx ipprog ipprogreply nzs poll pollreply sync timecode trigger".split()
CODES=[os.path.relpath(f,"/repo") for f in sorted(glob.glob("/repo/packet/code/*.go")) if not f.endswith("_test.go") and not f.endswith("doc.go")]
for x in P:
    out=[]
    for f in x["anchors"]["files"]:
        if f=="packet/art*.go": out+=["packet/art%s.go"%k for k in KINDS]
        elif f=="packet/code/*.go": out+=CODES
        else: out.append(f)
    x["anchors"]["files"]=list(dict.fromkeys(out))
    assert len(x["title"])<=80,x["title"]
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
