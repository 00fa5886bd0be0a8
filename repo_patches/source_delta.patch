From 5622a8eab3e6d0ae2635108859270ee575e7dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:03 +0000
Subject: [PATCH 01/20] fix: set the OpCode of every packet kind when
 marshalling

ArtAddress, ArtCommand, ArtDiagData, ArtIpProg, ArtIpProgReply, ArtNzs, ArtSync,
ArtTimeCode and ArtTrigger were sent with whatever OpCode the caller left in the
header, usually zero, and could not be decoded again.
---
 packet/artaddress.go     | 1 +
 packet/artcommand.go     | 1 +
 packet/artdiagdata.go    | 1 +
 packet/artipprog.go      | 1 +
 packet/artipprogreply.go | 1 +
 packet/artnzs.go         | 1 +
 packet/artsync.go        | 1 +
 packet/arttimecode.go    | 1 +
 packet/arttrigger.go     | 1 +
 9 files changed, 9 insertions(+)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 7b831f9..056d3bc 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -99,5 +99,6 @@ func (p *ArtAddressPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtAddressPacket) finish() {
+	p.OpCode = code.OpAddress
 	p.Header.finish()
 }
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 49b5816..4a69ecb 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -83,6 +83,7 @@ func (p *ArtCommandPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtCommandPacket) finish() {
+	p.OpCode = code.OpCommand
 	p.Header.finish()
 	p.ESTAmanufacturer = [2]byte{0xff, 0xff}
 }
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 5997e43..1150bbe 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -70,5 +70,6 @@ func (p *ArtDiagDataPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtDiagDataPacket) finish() {
+	p.OpCode = code.OpDiagData
 	p.Header.finish()
 }
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 17916e9..5701d08 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -78,5 +78,6 @@ func (p *ArtIPProgPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgPacket) finish() {
+	p.OpCode = code.OpIPProg
 	p.Header.finish()
 }
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 7b08b8c..6fdb3c6 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -74,5 +74,6 @@ func (p *ArtIPProgReplyPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgReplyPacket) finish() {
+	p.OpCode = code.OpIPProgReply
 	p.Header.finish()
 }
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 8a568b4..fbae5c6 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -78,5 +78,6 @@ func (p *ArtNzsPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtNzsPacket) finish() {
+	p.OpCode = code.OpNzs
 	p.Header.finish()
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index 88ee754..ab6e4cd 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -61,5 +61,6 @@ func (p *ArtSyncPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtSyncPacket) finish() {
+	p.OpCode = code.OpSync
 	p.Header.finish()
 }
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 57dd624..054e6a7 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -75,5 +75,6 @@ func (p *ArtTimeCodePacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTimeCodePacket) finish() {
+	p.OpCode = code.OpTimeCode
 	p.Header.finish()
 }
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index 7c5c045..a966212 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -96,5 +96,6 @@ func (p *ArtTriggerPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTriggerPacket) finish() {
+	p.OpCode = code.OpTrigger
 	p.Header.finish()
 }
-- 
2.43.0


From aa86a4d63529fc19228eff1a5f874e25c1bcfb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:35 +0000
Subject: [PATCH 02/20] fix: do not alter a packet when marshalling it

MarshalBinary byte-swapped the OpCode (and an ArtPollReply's Port) in the caller's
packet, so a second MarshalBinary sent a wrong port and GetOpCode returned garbage.
Finish and write a copy instead.
---
 packet/artaddress.go     | 3 ++-
 packet/artcommand.go     | 3 ++-
 packet/artdiagdata.go    | 3 ++-
 packet/artdmx.go         | 3 ++-
 packet/artipprog.go      | 3 ++-
 packet/artipprogreply.go | 3 ++-
 packet/artnzs.go         | 3 ++-
 packet/artpoll.go        | 3 ++-
 packet/artpollreply.go   | 3 ++-
 packet/artsync.go        | 3 ++-
 packet/arttimecode.go    | 3 ++-
 packet/arttrigger.go     | 3 ++-
 12 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 056d3bc..d8ef23d 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -78,7 +78,8 @@ func NewArtAddressPacket() *ArtAddressPacket {
 
 // MarshalBinary marshals an ArtAddressPacket into a byte slice.
 func (p *ArtAddressPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtAddressPacket.
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 4a69ecb..a68f972 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -59,7 +59,8 @@ func NewArtCommandPacket() *ArtCommandPacket {
 
 // MarshalBinary marshals an ArtCommandPacket into a byte slice.
 func (p *ArtCommandPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtCommandPacket.
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 1150bbe..c0731b0 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -49,7 +49,8 @@ func NewArtDiagDataPacket() *ArtDiagDataPacket {
 
 // MarshalBinary marshals an ArtDiagDataPacket into a byte slice.
 func (p *ArtDiagDataPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtDiagDataPacket.
diff --git a/packet/artdmx.go b/packet/artdmx.go
index 7714760..fe948c0 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -72,7 +72,8 @@ func NewArtDMXPacket() *ArtDMXPacket {
 
 // MarshalBinary marshals an ArtDMXPacket into a byte slice.
 func (p *ArtDMXPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtDMXPacket.
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 5701d08..468f018 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -57,7 +57,8 @@ func NewArtIPProgPacket() *ArtIPProgPacket {
 
 // MarshalBinary marshals an ArtIPProgPacket into a byte slice.
 func (p *ArtIPProgPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtIPProgPacket.
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 6fdb3c6..a84cd36 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -53,7 +53,8 @@ func NewArtIPProgReplyPacket() *ArtIPProgReplyPacket {
 
 // MarshalBinary marshals an ArtIPProgReplyPacket into a byte slice.
 func (p *ArtIPProgReplyPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtIPProgReplyPacket.
diff --git a/packet/artnzs.go b/packet/artnzs.go
index fbae5c6..1222fbe 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -57,7 +57,8 @@ func NewArtNzsPacket() *ArtNzsPacket {
 
 // MarshalBinary marshals an ArtNzsPacket into a byte slice.
 func (p *ArtNzsPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtNzsPacket.
diff --git a/packet/artpoll.go b/packet/artpoll.go
index d860119..01c9ceb 100644
--- a/packet/artpoll.go
+++ b/packet/artpoll.go
@@ -54,7 +54,8 @@ func NewArtPollPacket() *ArtPollPacket {
 
 // MarshalBinary marshals an ArtPollPacket into a byte slice.
 func (p *ArtPollPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtPollPacket.
diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 220c25e..da0006b 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -146,7 +146,8 @@ func (p *ArtPollReplyPacket) GetOpCode() code.OpCode {
 
 // MarshalBinary marshals an ArtPollReplyPacket into a byte slice.
 func (p *ArtPollReplyPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtPollReplyPacket.
diff --git a/packet/artsync.go b/packet/artsync.go
index ab6e4cd..d76b638 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -40,7 +40,8 @@ func NewArtSyncPacket() *ArtSyncPacket {
 
 // MarshalBinary marshals an ArtSyncPacket into a byte slice.
 func (p *ArtSyncPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtSyncPacket.
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 054e6a7..3867e98 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -54,7 +54,8 @@ func NewArtTimeCodePacket() *ArtTimeCodePacket {
 
 // MarshalBinary marshals an ArtTimeCodePacket into a byte slice.
 func (p *ArtTimeCodePacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtTimeCodePacket.
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index a966212..94a099f 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -75,7 +75,8 @@ func NewArtTriggerPacket() *ArtTriggerPacket {
 
 // MarshalBinary marshals an ArtTriggerPacket into a byte slice.
 func (p *ArtTriggerPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	c := *p
+	return marshalPacket(&c)
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtTriggerPacket.
-- 
2.43.0


From 92dac7876f5a6cfac8f323474b303500c38e4582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:36 +0000
Subject: [PATCH 03/20] fix: reject other OpCodes in
 ArtDMXPacket.UnmarshalBinary

---
 packet/artdmx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index fe948c0..3e7f111 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -85,6 +85,9 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if err := p.Header.unmarshal(b[:12]); err != nil {
 		return err
 	}
+	if p.OpCode != code.OpDMX {
+		return errInvalidOpCode
+	}
 
 	p.Sequence = b[12]
 	p.Physical = b[13]
-- 
2.43.0


From bee9a3697f199023759f1a81362eae45d72fded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:37 +0000
Subject: [PATCH 04/20] fix: check the Art-Net ID in
 ArtPollReplyPacket.UnmarshalBinary

---
 packet/artpollreply.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index da0006b..3d7c373 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -160,6 +160,10 @@ func (p *ArtPollReplyPacket) validate() error {
 	// ArtPollReply is a packer not using the standard header, so we need to do
 	// some extra things here that are normally done in the header validate
 
+	if p.ID != ArtNet {
+		return errInvalidPacket
+	}
+
 	// swap endianness
 	p.OpCode = code.OpCode(swapUint16(uint16(p.OpCode)))
 	if p.OpCode != code.OpPollReply {
-- 
2.43.0


From d9877bd5263499f7689890264010fb842d59a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:38 +0000
Subject: [PATCH 05/20] fix: reject ArtNzs, ArtCommand and ArtDiagData longer
 than their data

The announced Length was not checked against the 512 data bytes a packet can carry,
so p.Data[:p.Length] of a received packet could panic.
---
 packet/artcommand.go  | 3 +++
 packet/artdiagdata.go | 3 +++
 packet/artnzs.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/packet/artcommand.go b/packet/artcommand.go
index a68f972..66b1273 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -76,6 +76,9 @@ func (p *ArtCommandPacket) validate() error {
 	if p.OpCode != code.OpCommand {
 		return errInvalidOpCode
 	}
+	if int(p.Length) > len(p.Data) {
+		return errInvalidPacket
+	}
 	if p.ESTAmanufacturer != [2]byte{0xff, 0xff} {
 		return errInvalidPacket
 	}
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index c0731b0..55ee03c 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -66,6 +66,9 @@ func (p *ArtDiagDataPacket) validate() error {
 	if p.OpCode != code.OpDiagData {
 		return errInvalidOpCode
 	}
+	if int(p.Length) > len(p.Data) {
+		return errInvalidPacket
+	}
 	return nil
 }
 
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 1222fbe..20f560b 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -74,6 +74,9 @@ func (p *ArtNzsPacket) validate() error {
 	if p.OpCode != code.OpNzs {
 		return errInvalidOpCode
 	}
+	if int(p.Length) > len(p.Data) {
+		return errInvalidPacket
+	}
 	return nil
 }
 
-- 
2.43.0


From a804e20fc17398b421d2adcba6222a732a1e47d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:39 +0000
Subject: [PATCH 06/20] fix: clear status flags when they are disabled

The WithX(false) methods of the status codes left a flag that was set untouched.
---
 packet/code/goodinput.go  | 12 ++++++------
 packet/code/goodoutput.go | 16 ++++++++--------
 packet/code/porttype.go   |  4 ++--
 packet/code/status1.go    |  6 +++---
 packet/code/status2.go    | 12 ++++++------
 packet/code/swmacro.go    | 16 ++++++++--------
 packet/code/swremote.go   | 16 ++++++++--------
 packet/code/talktome.go   |  8 ++++----
 8 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/packet/code/goodinput.go b/packet/code/goodinput.go
index 85af466..499cb5d 100644
--- a/packet/code/goodinput.go
+++ b/packet/code/goodinput.go
@@ -8,7 +8,7 @@ func (s GoodInput) WithReceive(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Receive indicates if Receive errors detected
@@ -21,7 +21,7 @@ func (s GoodInput) WithDisabled(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Disabled indicates Input is disabled
@@ -34,7 +34,7 @@ func (s GoodInput) WithText(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -47,7 +47,7 @@ func (s GoodInput) WithSIP(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -60,7 +60,7 @@ func (s GoodInput) WithTest(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -73,7 +73,7 @@ func (s GoodInput) WithData(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data received
diff --git a/packet/code/goodoutput.go b/packet/code/goodoutput.go
index 0b7841e..da15831 100644
--- a/packet/code/goodoutput.go
+++ b/packet/code/goodoutput.go
@@ -8,7 +8,7 @@ func (s GoodOutput) WithACN(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // ACN indicates Output is selected to transmit sACN
@@ -21,7 +21,7 @@ func (s GoodOutput) WithLTP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // LTP indicates Merge Mode is LTP
@@ -34,7 +34,7 @@ func (s GoodOutput) WithOutput(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Output indicates DMX output short detected on power up
@@ -47,7 +47,7 @@ func (s GoodOutput) WithMerging(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Merging indicates Output is merging ArtNet data
@@ -60,7 +60,7 @@ func (s GoodOutput) WithText(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -73,7 +73,7 @@ func (s GoodOutput) WithSIP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -86,7 +86,7 @@ func (s GoodOutput) WithTest(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -99,7 +99,7 @@ func (s GoodOutput) WithData(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data transmitted
diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 6b42aff..8b1924b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -10,7 +10,7 @@ func (s PortType) WithInput(enable bool) PortType {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Input indicates channel can input from the Art-Net Network
@@ -23,7 +23,7 @@ func (s PortType) WithOutput(enable bool) PortType {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Output indicates channel can output onto the Art-Net Network
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 32c08ca..6144e67 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -10,7 +10,7 @@ func (s Status1) WithUBEA(enable bool) Status1 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // UBEA returns the status of the bit 0
@@ -25,7 +25,7 @@ func (s Status1) WithRDM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // RDM returns the status of the bit 1
@@ -41,7 +41,7 @@ func (s Status1) WithBootROM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // BootROM returns the status of the bit 2
diff --git a/packet/code/status2.go b/packet/code/status2.go
index 35220c5..d33a8b4 100644
--- a/packet/code/status2.go
+++ b/packet/code/status2.go
@@ -8,7 +8,7 @@ func (s Status2) WithBrowser(enable bool) Status2 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Browser indicates if product supports web browser configuration
@@ -21,7 +21,7 @@ func (s Status2) WithDHCP(enable bool) Status2 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // DHCP indicates if product IP is DHCP configured
@@ -34,7 +34,7 @@ func (s Status2) WithDHCPCapable(enable bool) Status2 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // DHCPCapable indicates if product is capable of DHCP
@@ -47,7 +47,7 @@ func (s Status2) WithPort15(enable bool) Status2 {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Port15 indicates if product supports 15 bit Port-Address (Art-Net 3 or 4)
@@ -60,7 +60,7 @@ func (s Status2) WithSwitch(enable bool) Status2 {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Switch indicates if product is able to switch between Art-Net and sACN
@@ -73,7 +73,7 @@ func (s Status2) WithSquawk(enable bool) Status2 {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Squawk indicates if product is squawking
diff --git a/packet/code/swmacro.go b/packet/code/swmacro.go
index 4e47a95..93c3027 100644
--- a/packet/code/swmacro.go
+++ b/packet/code/swmacro.go
@@ -12,7 +12,7 @@ func (s SwMacro) WithMacro1(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Macro1 indicates Macro 1 active
@@ -25,7 +25,7 @@ func (s SwMacro) WithMacro2(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Macro2 indicates Macro 2 active
@@ -38,7 +38,7 @@ func (s SwMacro) WithMacro3(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Macro3 indicates Macro 3 active
@@ -51,7 +51,7 @@ func (s SwMacro) WithMacro4(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Macro4 indicates Macro 4 active
@@ -64,7 +64,7 @@ func (s SwMacro) WithMacro5(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Macro5 indicates Macro 5 active
@@ -77,7 +77,7 @@ func (s SwMacro) WithMacro6(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Macro6 indicates Macro 6 active
@@ -90,7 +90,7 @@ func (s SwMacro) WithMacro7(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Macro7 indicates Macro 7 active
@@ -103,7 +103,7 @@ func (s SwMacro) WithMacro8(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Macro8 indicates Macro 8 active
diff --git a/packet/code/swremote.go b/packet/code/swremote.go
index 801ad95..d504604 100644
--- a/packet/code/swremote.go
+++ b/packet/code/swremote.go
@@ -12,7 +12,7 @@ func (s SwRemote) WithRemote1(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Remote1 indicates Remote 1 active
@@ -25,7 +25,7 @@ func (s SwRemote) WithRemote2(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Remote2 indicates Remote 2 active
@@ -38,7 +38,7 @@ func (s SwRemote) WithRemote3(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Remote3 indicates Remote 3 active
@@ -51,7 +51,7 @@ func (s SwRemote) WithRemote4(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Remote4 indicates Remote 4 active
@@ -64,7 +64,7 @@ func (s SwRemote) WithRemote5(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Remote5 indicates Remote 5 active
@@ -77,7 +77,7 @@ func (s SwRemote) WithRemote6(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Remote6 indicates Remote 6 active
@@ -90,7 +90,7 @@ func (s SwRemote) WithRemote7(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Remote7 indicates Remote 7 active
@@ -103,7 +103,7 @@ func (s SwRemote) WithRemote8(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Remote8 indicates Remote 8 active
diff --git a/packet/code/talktome.go b/packet/code/talktome.go
index fa95164..27ecc34 100644
--- a/packet/code/talktome.go
+++ b/packet/code/talktome.go
@@ -10,7 +10,7 @@ func (t TalkToMe) WithReplyOnChange(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 1)
 	}
-	return t | (0 << 1)
+	return t &^ (1 << 1)
 }
 
 // ReplyOnChange returns the status of the bit 1
@@ -23,7 +23,7 @@ func (t TalkToMe) WithDiagnostics(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 2)
 	}
-	return t | (0 << 2)
+	return t &^ (1 << 2)
 }
 
 // Diagnostics returns the stats of the bit 2
@@ -36,7 +36,7 @@ func (t TalkToMe) WithDiagUnicast(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 3)
 	}
-	return t | (0 << 3)
+	return t &^ (1 << 3)
 }
 
 // DiagUnicast returns the stats of the bit 3
@@ -49,7 +49,7 @@ func (t TalkToMe) WithVLC(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 4)
 	}
-	return t | (0 << 4)
+	return t &^ (1 << 4)
 }
 
 // VLC returns the stats of the bit 4
-- 
2.43.0


From 5bf0882c7c776972ac121f74940dc9e1adcdf3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:40 +0000
Subject: [PATCH 07/20] fix: read and write the enumerated status fields at
 their own bits

Status1.PortAddr and Indicator read bits 4-3 and 6-5 instead of 5-4 and 7-6, Indicator
called mute "mutenet", and setting a field or a port's type did not clear the old value.
---
 packet/code/porttype.go | 12 ++++++------
 packet/code/status1.go  | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 8b1924b..3a8993b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -36,17 +36,17 @@ func (s PortType) Output() bool {
 func (s PortType) WithType(v string) PortType {
 	switch v {
 	case "DMX512":
-		return s | 0x00
+		return s&^0x1f | 0x00
 	case "MIDI":
-		return s | 0x01
+		return s&^0x1f | 0x01
 	case "Avab":
-		return s | 0x02
+		return s&^0x1f | 0x02
 	case "Colortran CMX":
-		return s | 0x03
+		return s&^0x1f | 0x03
 	case "ADB 62.5":
-		return s | 0x04
+		return s&^0x1f | 0x04
 	case "Art-Net":
-		return s | 0x05
+		return s&^0x1f | 0x05
 	}
 	return s
 }
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 6144e67..64b5f01 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -57,13 +57,13 @@ func (s Status1) BootROM() bool {
 func (s Status1) WithPortAddr(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 4)
+		return s&^(3<<4) | (0 << 4)
 	case "front":
-		return s | (1 << 4)
+		return s&^(3<<4) | (1 << 4)
 	case "net":
-		return s | (2 << 4)
+		return s&^(3<<4) | (2 << 4)
 	case "unused":
-		return s | (3 << 4)
+		return s&^(3<<4) | (3 << 4)
 	}
 	return s
 }
@@ -74,7 +74,7 @@ func (s Status1) WithPortAddr(v string) Status1 {
 // "net":     All or part of Port-Address programmed by networkor Web browser.
 // "unused":  Not used.
 func (s Status1) PortAddr() string {
-	switch (s & (8 + 16)) >> 4 {
+	switch (s & (16 + 32)) >> 4 {
 	case 0:
 		return "unknown"
 	case 1:
@@ -95,13 +95,13 @@ func (s Status1) PortAddr() string {
 func (s Status1) WithIndicator(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 6)
+		return s&^(3<<6) | (0 << 6)
 	case "locate":
-		return s | (1 << 6)
+		return s&^(3<<6) | (1 << 6)
 	case "mute":
-		return s | (2 << 6)
+		return s&^(3<<6) | (2 << 6)
 	case "normal":
-		return s | (3 << 6)
+		return s&^(3<<6) | (3 << 6)
 	}
 	return s
 }
@@ -112,13 +112,13 @@ func (s Status1) WithIndicator(v string) Status1 {
 // "mute":    Indicators in Mute Mode.
 // "normal":  Indicators in Normal Mode.
 func (s Status1) Indicator() string {
-	switch (s & (32 + 64)) >> 6 {
+	switch (s & (64 + 128)) >> 6 {
 	case 0:
 		return "unknown"
 	case 1:
 		return "locate"
 	case 2:
-		return "mutenet"
+		return "mute"
 	case 3:
 		return "normal"
 	}
-- 
2.43.0


From 13fec58187eda7085e5adc286f1c21e959aa7256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:16 +0000
Subject: [PATCH 08/20] fix: put the sub-net in the high nibble of the
 Port-Address

SubSwitch carries bits 7-4 of the Port-Address in its bottom four bits, but was used
as bits 3-0, so every node outside sub-net 0 was known under the wrong addresses.
---
 config.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index c9bcb3e..e1e1008 100644
--- a/config.go
+++ b/config.go
@@ -77,7 +77,7 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		Status1:     c.Status1,
 		Status2:     c.Status2,
 		NetSwitch:   c.BaseAddress.Net,
-		SubSwitch:   c.BaseAddress.SubUni,
+		SubSwitch:   c.BaseAddress.SubUni >> 4,
 		NumPorts:    c.NumberOfPorts(),
 		PortTypes:   c.PortTypes(),
 	}
@@ -171,7 +171,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 		Status2:      p.Status2,
 		BaseAddress: Address{
 			Net:    p.NetSwitch,
-			SubUni: p.SubSwitch,
+			SubUni: p.SubSwitch << 4,
 		},
 	}
 
@@ -180,7 +180,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodOutput[i],
@@ -190,7 +190,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodInput[i],
-- 
2.43.0


From dfaf5ad487c4aeb7adc1fd44b191495512f040aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:17 +0000
Subject: [PATCH 09/20] fix: announce the ports' universes and status in
 ArtPollReplyFromConfig

SwIn, SwOut, GoodInput and GoodOutput were left zero, so every port of a node was
announced at universe 0 with no status.
---
 config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/config.go b/config.go
index e1e1008..d518964 100644
--- a/config.go
+++ b/config.go
@@ -90,6 +90,15 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
 
+	for i := 0; i < len(c.InputPorts) && i < 4; i++ {
+		p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f
+		p.GoodInput[i] = c.InputPorts[i].Status
+	}
+	for i := 0; i < len(c.OutputPorts) && i < 4; i++ {
+		p.SwOut[i] = c.OutputPorts[i].Address.SubUni & 0x0f
+		p.GoodOutput[i] = c.OutputPorts[i].Status
+	}
+
 	return p
 }
 
-- 
2.43.0


From 82284636c96280c77b924fcfc1642c752627e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:09 +0000
Subject: [PATCH 10/20] fix: check for a read error before using the sender's
 address

ReadFromUDP returns a nil address with an error, so any read error crashed the node.
---
 node.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index 6766063..05c00da 100644
--- a/node.go
+++ b/node.go
@@ -218,12 +218,6 @@ func (n *Node) recvLoop() {
 				return
 			}
 
-			if n.localAddr.IP.Equal(from.IP) {
-				// this was sent by me, so we ignore it
-				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
-				continue
-			}
-
 			if err != nil {
 				if err == io.EOF {
 					return
@@ -233,6 +227,12 @@ func (n *Node) recvLoop() {
 				continue
 			}
 
+			if n.localAddr.IP.Equal(from.IP) {
+				// this was sent by me, so we ignore it
+				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
+				continue
+			}
+
 			n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("received packet")
 			payload := netPayload{
 				address: *from,
-- 
2.43.0


From 6c5ed4c82e14c4b4cc19bca29ad5d8e43b577400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:33 +0000
Subject: [PATCH 11/20] fix: make Stop safe when a node or controller is not
 running

Stopping twice, before Start or after a failed Start closed a closed or nil channel or
used a nil ticker, and panicked. A failed Start also left the node marked as running.
---
 controller.go | 11 +++++------
 node.go       | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/controller.go b/controller.go
index b51f94c..95ca8e2 100644
--- a/controller.go
+++ b/controller.go
@@ -137,14 +137,13 @@ func (c *Controller) Start() error {
 
 // Stop will stop this controller
 func (c *Controller) Stop() {
-	c.pollTicker.Stop()
-	c.gcTicker.Stop()
-	c.cNode.Stop()
-
-	select {
-	case <-c.cNode.shutdownCh:
+	if !c.cNode.stop() {
+		// never started, failed to start or already stopped
+		return
 	}
 
+	c.pollTicker.Stop()
+	c.gcTicker.Stop()
 	close(c.shutdownCh)
 }
 
diff --git a/node.go b/node.go
index 05c00da..4055430 100644
--- a/node.go
+++ b/node.go
@@ -95,7 +95,16 @@ func (n *Node) Connection() *net.UDPConn {
 
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
+	n.stop()
+}
+
+// stop stops the node and reports whether it was running
+func (n *Node) stop() bool {
 	n.shutdownLock.Lock()
+	if n.shutdown {
+		n.shutdownLock.Unlock()
+		return false
+	}
 	n.shutdown = true
 	n.shutdownLock.Unlock()
 	close(n.shutdownCh)
@@ -104,6 +113,7 @@ func (n *Node) Stop() {
 			n.log.Printf("failed to close read socket: %v")
 		}
 	}
+	return true
 }
 
 func (n *Node) isShutdown() bool {
@@ -124,7 +134,6 @@ func (n *Node) Start() error {
 	n.pollCh = make(chan packet.ArtPollPacket, 10)
 	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
 	n.shutdownCh = make(chan struct{})
-	n.shutdown = false
 
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
@@ -134,6 +143,10 @@ func (n *Node) Start() error {
 	}
 	n.conn = c.(*net.UDPConn)
 
+	n.shutdownLock.Lock()
+	n.shutdown = false
+	n.shutdownLock.Unlock()
+
 	go n.pollReplyLoop()
 	go n.recvLoop()
 	go n.sendLoop()
-- 
2.43.0


From e4426e03a8b5bb3d96d7cff3772fc8efc1a7859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:34 +0000
Subject: [PATCH 12/20] fix: forget the error of an earlier Start when starting
 again

Controller.Start returns the node's shutdownErr, so once listening had failed every
later Start reported that error although the controller was running.
---
 node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node.go b/node.go
index 4055430..2f5ffab 100644
--- a/node.go
+++ b/node.go
@@ -134,6 +134,7 @@ func (n *Node) Start() error {
 	n.pollCh = make(chan packet.ArtPollPacket, 10)
 	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
 	n.shutdownCh = make(chan struct{})
+	n.shutdownErr = nil
 
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
-- 
2.43.0


From c06c5e10bd22aec2b3ff10154794d4cadbcadc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:35 +0000
Subject: [PATCH 13/20] fix: end all goroutines of a node or controller on Stop

Goroutines blocked on a full or abandoned channel stayed blocked forever after Stop; the
DMX update loop did so holding the lock SendDMXToAddress needs. Its ticker leaked too.
---
 controller.go | 17 +++++++++--------
 node.go       | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/controller.go b/controller.go
index 95ca8e2..f2254a5 100644
--- a/controller.go
+++ b/controller.go
@@ -162,22 +162,22 @@ func (c *Controller) pollLoop() {
 	}
 
 	// send ArtPollPacket
-	c.cNode.sendCh <- netPayload{
+	c.cNode.send(netPayload{
 		address: c.broadcastAddr,
 		data:    b,
-	}
-	c.cNode.pollCh <- packet.ArtPollPacket{}
+	})
+	c.cNode.poll(packet.ArtPollPacket{})
 
 	// loop until shutdown
 	for {
 		select {
 		case <-c.pollTicker.C:
 			// send ArtPollPacket
-			c.cNode.sendCh <- netPayload{
+			c.cNode.send(netPayload{
 				address: c.broadcastAddr,
 				data:    b,
-			}
-			c.cNode.pollCh <- packet.ArtPollPacket{}
+			})
+			c.cNode.poll(packet.ArtPollPacket{})
 
 		case <-c.gcTicker.C:
 			// clean up old nodes
@@ -234,6 +234,7 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 func (c *Controller) dmxUpdateLoop() {
 	fpsInterval := time.Duration(c.maxFPS)
 	ticker := time.NewTicker(time.Second / fpsInterval)
+	defer ticker.Stop()
 
 	forceUpdate := 250 * time.Millisecond
 
@@ -246,10 +247,10 @@ func (c *Controller) dmxUpdateLoop() {
 		node.DMXBuffer[address].LastUpdate = now
 		node.DMXBuffer[address].Stale = false
 
-		c.cNode.sendCh <- netPayload{
+		c.cNode.send(netPayload{
 			address: node.UDPAddress,
 			data:    b,
-		}
+		})
 		return nil
 	}
 
diff --git a/node.go b/node.go
index 2f5ffab..5a8eeef 100644
--- a/node.go
+++ b/node.go
@@ -179,10 +179,10 @@ func (n *Node) pollReplyLoop() {
 			// reply with pollReply
 			n.log.With(nil).Debug("sending ArtPollReply")
 
-			n.sendCh <- netPayload{
+			n.send(netPayload{
 				address: n.broadcastAddr,
 				data:    me,
-			}
+			})
 
 			// TODO: if we are asked to send changes regularly, set the Ticker here
 
@@ -192,6 +192,14 @@ func (n *Node) pollReplyLoop() {
 	}
 }
 
+// send queues a packet for the sendLoop unless the node is shutting down
+func (n *Node) send(payload netPayload) {
+	select {
+	case n.sendCh <- payload:
+	case <-n.shutdownCh:
+	}
+}
+
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
 	// loop until shutdown
@@ -254,7 +262,11 @@ func (n *Node) recvLoop() {
 				data:    make([]byte, num),
 			}
 			copy(payload.data, b)
-			n.recvCh <- payload
+			select {
+			case n.recvCh <- payload:
+			case <-n.shutdownCh:
+				return
+			}
 		}
 	}()
 
@@ -302,7 +314,15 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
-	n.pollCh <- *poll
+	n.poll(*poll)
+}
+
+// poll asks the pollReplyLoop for a reply unless the node is shutting down
+func (n *Node) poll(p packet.ArtPollPacket) {
+	select {
+	case n.pollCh <- p:
+	case <-n.shutdownCh:
+	}
 }
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
@@ -314,7 +334,10 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
-		n.pollReplyCh <- *pollReply
+		select {
+		case n.pollReplyCh <- *pollReply:
+		case <-n.shutdownCh:
+		}
 	}
 }
 
-- 
2.43.0


From 7b4d59b74abb43091875e05052a075837dc69333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:16 +0000
Subject: [PATCH 14/20] fix: skip sequence number 0, which disables
 resequencing

---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index f2254a5..bcf418c 100644
--- a/controller.go
+++ b/controller.go
@@ -67,6 +67,10 @@ func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {
 	}
 
 	cn.Sequence++
+	if cn.Sequence == 0 {
+		// 0 would disable resequencing, so wrap around to 1
+		cn.Sequence = 1
+	}
 	p := &packet.ArtDMXPacket{
 		Sequence: cn.Sequence,
 		SubUni:   address.SubUni,
-- 
2.43.0


From 013eca6ac8f27e3c325b9b3ed1e2b6521843be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:17 +0000
Subject: [PATCH 15/20] fix: create a buffer for outputs a known node announces
 later

Until the next update a frame for such an address was dropped with an error.
---
 controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller.go b/controller.go
index bcf418c..670cf5d 100644
--- a/controller.go
+++ b/controller.go
@@ -316,6 +316,9 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
 				c.OutputAddress[port.Address] = c.Nodes[i]
+				if c.Nodes[i].DMXBuffer[port.Address] == nil {
+					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
 				c.InputAddress[port.Address] = c.Nodes[i]
-- 
2.43.0


From 6d1db77393b8bb68c1188d52739d72e54b702b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:18 +0000
Subject: [PATCH 16/20] fix: refuse frame rates that crash the update loop

MaxFPS(0) divided by zero and a negative rate or one beyond 1e9 panicked in NewTicker.
---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index decc5ab..c7b10a2 100644
--- a/options.go
+++ b/options.go
@@ -1,7 +1,9 @@
 package artnet
 
 import (
+	"fmt"
 	"net"
+	"time"
 
 	"github.com/jsimonetti/go-artnet/packet"
 )
@@ -17,6 +19,9 @@ func (c *Controller) SetOption(option Option) error {
 // MaxFPS sets the maximum amount of updates sent out per second
 func MaxFPS(fps int) Option {
 	return func(c *Controller) error {
+		if fps < 1 || fps > int(time.Second) {
+			return fmt.Errorf("invalid maximum frames per second: %d", fps)
+		}
 		c.maxFPS = fps
 		return nil
 	}
-- 
2.43.0


From 32b222dbd53bb5348c940fd63b5b2318ad08c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:19 +0000
Subject: [PATCH 17/20] fix: send a controller's ArtPollReply to its broadcast
 address

The BroadcastAddr option only redirected the ArtPoll; the reply that follows it still
went to 2.255.255.255.
---
 options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options.go b/options.go
index c7b10a2..273b2be 100644
--- a/options.go
+++ b/options.go
@@ -31,7 +31,7 @@ func MaxFPS(fps int) Option {
 func BroadcastAddr(addr net.UDPAddr) Option {
 	return func(c *Controller) error {
 		c.broadcastAddr = addr
-		return nil
+		return NodeBroadcastAddress(addr)(c.cNode)
 	}
 }
 
-- 
2.43.0


From 95ace493ef21c8ff908e57a7844eb2ebeceb5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:38 +0000
Subject: [PATCH 18/20] fix: forget the known nodes when a controller is
 started again

Start empties the address tables but kept the node list, so a restarted
controller listed nodes it had no addresses for and, once such a node
replied, sent it the data of the previous run.
---
 controller.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller.go b/controller.go
index 670cf5d..230d6fe 100644
--- a/controller.go
+++ b/controller.go
@@ -122,6 +122,7 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
+	c.Nodes = nil
 	c.OutputAddress = make(map[Address]*ControlledNode)
 	c.InputAddress = make(map[Address]*ControlledNode)
 	c.shutdownCh = make(chan struct{})
-- 
2.43.0


From b625bf4cadb9f233a120dbed056f26b62b0ca6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:14 +0000
Subject: [PATCH 19/20] fix: send changed DMX data at the next update at every
 frame rate

The number of frames per second was used as a number of nanoseconds that
had to pass since the previous packet, so at rates above 31622 changed
data waited for a later update.
---
 controller.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/controller.go b/controller.go
index 230d6fe..101e3f9 100644
--- a/controller.go
+++ b/controller.go
@@ -237,8 +237,7 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
-	fpsInterval := time.Duration(c.maxFPS)
-	ticker := time.NewTicker(time.Second / fpsInterval)
+	ticker := time.NewTicker(time.Second / time.Duration(c.maxFPS))
 	defer ticker.Stop()
 
 	forceUpdate := 250 * time.Millisecond
@@ -270,8 +269,8 @@ func (c *Controller) dmxUpdateLoop() {
 				if node.DMXBuffer[address] == nil {
 					node.DMXBuffer[address] = &dmxBuffer{}
 				}
-				// only update if it has been X seconds
-				if node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval)) {
+				// the ticker limits the rate, so changed data is sent right away
+				if node.DMXBuffer[address].Stale {
 					err := update(node, address, now)
 					if err != nil {
 						c.log.With(Fields{"err": err, "address": address.String()}).Error("error getting buffer for address")
-- 
2.43.0


From 0a819a13c0815f663819d42ab59f0bfa09ce27dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:43 +0000
Subject: [PATCH 20/20] fix: keep the route to a node whose address another
 node gave up

---
 controller.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/controller.go b/controller.go
index 101e3f9..3f685c6 100644
--- a/controller.go
+++ b/controller.go
@@ -313,6 +313,7 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			}
 			c.Nodes[i].Node = cfg
 			c.Nodes[i].LastSeen = time.Now()
+			c.relinkNodes()
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
 				c.OutputAddress[port.Address] = c.Nodes[i]
@@ -355,6 +356,23 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 	return nil
 }
 
+// relinkNodes restores references to nodes after those of another node were removed:
+// the addresses that node gave up may have been announced by other nodes as well
+func (c *Controller) relinkNodes() {
+	for _, node := range c.Nodes {
+		for _, port := range node.Node.OutputPorts {
+			if n, ok := c.OutputAddress[port.Address]; !ok || n.LastSeen.Before(node.LastSeen) {
+				c.OutputAddress[port.Address] = node
+			}
+		}
+		for _, port := range node.Node.InputPorts {
+			if n, ok := c.InputAddress[port.Address]; !ok || n.LastSeen.Before(node.LastSeen) {
+				c.InputAddress[port.Address] = node
+			}
+		}
+	}
+}
+
 // deleteNode will delete a Node from the list of known nodes
 func (c *Controller) deleteNode(node NodeConfig) error {
 	c.nodeLock.Lock()
@@ -402,6 +420,7 @@ start:
 			}
 			// remove node
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
+			c.relinkNodes()
 			goto start
 		}
 	}
-- 
2.43.0

