From 1250953d93951c1a147ef4c944a1c3d3fbbb32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:48 +0000
Subject: [PATCH 01/31] fix: encode every packet type with its own opcode

finish() of nine packet types never set the OpCode, so a packet built from
its fields was sent with opcode 0 and a packet encoded twice, or encoded
after being decoded, with its opcode bytes swapped.
---
 packet/artaddress.go     | 1 +
 packet/artcommand.go     | 1 +
 packet/artdiagdata.go    | 1 +
 packet/artipprog.go      | 1 +
 packet/artipprogreply.go | 1 +
 packet/artnzs.go         | 1 +
 packet/artsync.go        | 1 +
 packet/arttimecode.go    | 1 +
 packet/arttrigger.go     | 1 +
 9 files changed, 9 insertions(+)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 7b831f9..056d3bc 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -99,5 +99,6 @@ func (p *ArtAddressPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtAddressPacket) finish() {
+	p.OpCode = code.OpAddress
 	p.Header.finish()
 }
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 49b5816..4a69ecb 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -83,6 +83,7 @@ func (p *ArtCommandPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtCommandPacket) finish() {
+	p.OpCode = code.OpCommand
 	p.Header.finish()
 	p.ESTAmanufacturer = [2]byte{0xff, 0xff}
 }
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 5997e43..1150bbe 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -70,5 +70,6 @@ func (p *ArtDiagDataPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtDiagDataPacket) finish() {
+	p.OpCode = code.OpDiagData
 	p.Header.finish()
 }
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 17916e9..5701d08 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -78,5 +78,6 @@ func (p *ArtIPProgPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgPacket) finish() {
+	p.OpCode = code.OpIPProg
 	p.Header.finish()
 }
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 7b08b8c..6fdb3c6 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -74,5 +74,6 @@ func (p *ArtIPProgReplyPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgReplyPacket) finish() {
+	p.OpCode = code.OpIPProgReply
 	p.Header.finish()
 }
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 8a568b4..fbae5c6 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -78,5 +78,6 @@ func (p *ArtNzsPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtNzsPacket) finish() {
+	p.OpCode = code.OpNzs
 	p.Header.finish()
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index 88ee754..ab6e4cd 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -61,5 +61,6 @@ func (p *ArtSyncPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtSyncPacket) finish() {
+	p.OpCode = code.OpSync
 	p.Header.finish()
 }
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 57dd624..054e6a7 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -75,5 +75,6 @@ func (p *ArtTimeCodePacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTimeCodePacket) finish() {
+	p.OpCode = code.OpTimeCode
 	p.Header.finish()
 }
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index 7c5c045..a966212 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -96,5 +96,6 @@ func (p *ArtTriggerPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTriggerPacket) finish() {
+	p.OpCode = code.OpTrigger
 	p.Header.finish()
 }
-- 
2.43.0


From 9e30fb7330350482997482152e60aa6a25f1ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:49 +0000
Subject: [PATCH 02/31] fix: always encode ArtPollReply with port 0x1936, low
 byte first

The port was swapped in place on every encode: encoding a value a second
time, or one without the port set, sent a wrong port.
---
 packet/artpollreply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 220c25e..e01ce78 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -187,5 +187,5 @@ func (p *ArtPollReplyPacket) finish() {
 	// working packet we do it here "manually"
 	p.ID = ArtNet
 	p.OpCode = code.OpCode(swapUint16(uint16(code.OpPollReply)))
-	p.Port = swapUint16(p.Port)
+	p.Port = swapUint16(ArtNetPort)
 }
-- 
2.43.0


From 92f4cf6633231e81c83488166d096f54cd766f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:12 +0000
Subject: [PATCH 03/31] fix: ArtDMXPacket.UnmarshalBinary refuses frames of
 other packet types

---
 packet/artdmx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 7714760..3cc40bc 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -84,6 +84,9 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if err := p.Header.unmarshal(b[:12]); err != nil {
 		return err
 	}
+	if p.OpCode != code.OpDMX {
+		return errInvalidOpCode
+	}
 
 	p.Sequence = b[12]
 	p.Physical = b[13]
-- 
2.43.0


From 752c7b8eff5d7cf32e15f7442c8a2a3a65a639f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 04/31] fix: decoding a short ArtDmx frame leaves no channels
 of an earlier frame

---
 packet/artdmx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 3cc40bc..f2ea35a 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -101,6 +101,7 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if len(b) < l+18 || l < 2 || l > 512 || l%2 != 0 {
 		return errInvalidPacket
 	}
+	p.Data = [512]byte{}
 	copy(p.Data[0:l], b[18:18+l])
 
 	return nil
-- 
2.43.0


From 91e5c3a764dbd409208d37abf9386fb1dc3f5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 05/31] fix: ArtPollReplyPacket.UnmarshalBinary refuses frames
 without the Art-Net identifier

---
 packet/artpollreply.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index e01ce78..943f00a 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -159,6 +159,10 @@ func (p *ArtPollReplyPacket) validate() error {
 	// ArtPollReply is a packer not using the standard header, so we need to do
 	// some extra things here that are normally done in the header validate
 
+	if p.ID != ArtNet {
+		return errInvalidPacket
+	}
+
 	// swap endianness
 	p.OpCode = code.OpCode(swapUint16(uint16(p.OpCode)))
 	if p.OpCode != code.OpPollReply {
-- 
2.43.0


From 7a5581dc55264007f713da281fc3ad6441af528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:38 +0000
Subject: [PATCH 06/31] fix: With...(false) clears the flag of a status
 register

The setters or-ed a zero bit when asked to disable a flag, so a flag once set
could never be cleared.
---
 packet/code/goodinput.go  | 12 ++++++------
 packet/code/goodoutput.go | 16 ++++++++--------
 packet/code/porttype.go   |  4 ++--
 packet/code/status1.go    |  6 +++---
 packet/code/status2.go    | 12 ++++++------
 packet/code/swmacro.go    | 16 ++++++++--------
 packet/code/swremote.go   | 16 ++++++++--------
 packet/code/talktome.go   |  8 ++++----
 8 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/packet/code/goodinput.go b/packet/code/goodinput.go
index 85af466..499cb5d 100644
--- a/packet/code/goodinput.go
+++ b/packet/code/goodinput.go
@@ -8,7 +8,7 @@ func (s GoodInput) WithReceive(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Receive indicates if Receive errors detected
@@ -21,7 +21,7 @@ func (s GoodInput) WithDisabled(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Disabled indicates Input is disabled
@@ -34,7 +34,7 @@ func (s GoodInput) WithText(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -47,7 +47,7 @@ func (s GoodInput) WithSIP(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -60,7 +60,7 @@ func (s GoodInput) WithTest(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -73,7 +73,7 @@ func (s GoodInput) WithData(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data received
diff --git a/packet/code/goodoutput.go b/packet/code/goodoutput.go
index 0b7841e..da15831 100644
--- a/packet/code/goodoutput.go
+++ b/packet/code/goodoutput.go
@@ -8,7 +8,7 @@ func (s GoodOutput) WithACN(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // ACN indicates Output is selected to transmit sACN
@@ -21,7 +21,7 @@ func (s GoodOutput) WithLTP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // LTP indicates Merge Mode is LTP
@@ -34,7 +34,7 @@ func (s GoodOutput) WithOutput(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Output indicates DMX output short detected on power up
@@ -47,7 +47,7 @@ func (s GoodOutput) WithMerging(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Merging indicates Output is merging ArtNet data
@@ -60,7 +60,7 @@ func (s GoodOutput) WithText(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -73,7 +73,7 @@ func (s GoodOutput) WithSIP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -86,7 +86,7 @@ func (s GoodOutput) WithTest(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -99,7 +99,7 @@ func (s GoodOutput) WithData(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data transmitted
diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 6b42aff..8b1924b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -10,7 +10,7 @@ func (s PortType) WithInput(enable bool) PortType {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Input indicates channel can input from the Art-Net Network
@@ -23,7 +23,7 @@ func (s PortType) WithOutput(enable bool) PortType {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Output indicates channel can output onto the Art-Net Network
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 32c08ca..6144e67 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -10,7 +10,7 @@ func (s Status1) WithUBEA(enable bool) Status1 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // UBEA returns the status of the bit 0
@@ -25,7 +25,7 @@ func (s Status1) WithRDM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // RDM returns the status of the bit 1
@@ -41,7 +41,7 @@ func (s Status1) WithBootROM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // BootROM returns the status of the bit 2
diff --git a/packet/code/status2.go b/packet/code/status2.go
index 35220c5..d33a8b4 100644
--- a/packet/code/status2.go
+++ b/packet/code/status2.go
@@ -8,7 +8,7 @@ func (s Status2) WithBrowser(enable bool) Status2 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Browser indicates if product supports web browser configuration
@@ -21,7 +21,7 @@ func (s Status2) WithDHCP(enable bool) Status2 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // DHCP indicates if product IP is DHCP configured
@@ -34,7 +34,7 @@ func (s Status2) WithDHCPCapable(enable bool) Status2 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // DHCPCapable indicates if product is capable of DHCP
@@ -47,7 +47,7 @@ func (s Status2) WithPort15(enable bool) Status2 {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Port15 indicates if product supports 15 bit Port-Address (Art-Net 3 or 4)
@@ -60,7 +60,7 @@ func (s Status2) WithSwitch(enable bool) Status2 {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Switch indicates if product is able to switch between Art-Net and sACN
@@ -73,7 +73,7 @@ func (s Status2) WithSquawk(enable bool) Status2 {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Squawk indicates if product is squawking
diff --git a/packet/code/swmacro.go b/packet/code/swmacro.go
index 4e47a95..93c3027 100644
--- a/packet/code/swmacro.go
+++ b/packet/code/swmacro.go
@@ -12,7 +12,7 @@ func (s SwMacro) WithMacro1(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Macro1 indicates Macro 1 active
@@ -25,7 +25,7 @@ func (s SwMacro) WithMacro2(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Macro2 indicates Macro 2 active
@@ -38,7 +38,7 @@ func (s SwMacro) WithMacro3(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Macro3 indicates Macro 3 active
@@ -51,7 +51,7 @@ func (s SwMacro) WithMacro4(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Macro4 indicates Macro 4 active
@@ -64,7 +64,7 @@ func (s SwMacro) WithMacro5(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Macro5 indicates Macro 5 active
@@ -77,7 +77,7 @@ func (s SwMacro) WithMacro6(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Macro6 indicates Macro 6 active
@@ -90,7 +90,7 @@ func (s SwMacro) WithMacro7(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Macro7 indicates Macro 7 active
@@ -103,7 +103,7 @@ func (s SwMacro) WithMacro8(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Macro8 indicates Macro 8 active
diff --git a/packet/code/swremote.go b/packet/code/swremote.go
index 801ad95..d504604 100644
--- a/packet/code/swremote.go
+++ b/packet/code/swremote.go
@@ -12,7 +12,7 @@ func (s SwRemote) WithRemote1(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Remote1 indicates Remote 1 active
@@ -25,7 +25,7 @@ func (s SwRemote) WithRemote2(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Remote2 indicates Remote 2 active
@@ -38,7 +38,7 @@ func (s SwRemote) WithRemote3(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Remote3 indicates Remote 3 active
@@ -51,7 +51,7 @@ func (s SwRemote) WithRemote4(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Remote4 indicates Remote 4 active
@@ -64,7 +64,7 @@ func (s SwRemote) WithRemote5(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Remote5 indicates Remote 5 active
@@ -77,7 +77,7 @@ func (s SwRemote) WithRemote6(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Remote6 indicates Remote 6 active
@@ -90,7 +90,7 @@ func (s SwRemote) WithRemote7(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Remote7 indicates Remote 7 active
@@ -103,7 +103,7 @@ func (s SwRemote) WithRemote8(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Remote8 indicates Remote 8 active
diff --git a/packet/code/talktome.go b/packet/code/talktome.go
index fa95164..27ecc34 100644
--- a/packet/code/talktome.go
+++ b/packet/code/talktome.go
@@ -10,7 +10,7 @@ func (t TalkToMe) WithReplyOnChange(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 1)
 	}
-	return t | (0 << 1)
+	return t &^ (1 << 1)
 }
 
 // ReplyOnChange returns the status of the bit 1
@@ -23,7 +23,7 @@ func (t TalkToMe) WithDiagnostics(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 2)
 	}
-	return t | (0 << 2)
+	return t &^ (1 << 2)
 }
 
 // Diagnostics returns the stats of the bit 2
@@ -36,7 +36,7 @@ func (t TalkToMe) WithDiagUnicast(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 3)
 	}
-	return t | (0 << 3)
+	return t &^ (1 << 3)
 }
 
 // DiagUnicast returns the stats of the bit 3
@@ -49,7 +49,7 @@ func (t TalkToMe) WithVLC(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 4)
 	}
-	return t | (0 << 4)
+	return t &^ (1 << 4)
 }
 
 // VLC returns the stats of the bit 4
-- 
2.43.0


From 9afcf607b3dc9f731e7541c85c1639785a1e39e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 07/31] fix: multi-valued register fields read the right bits
 and can be replaced

Status1 read the port-address authority and the indicator state through masks
shifted by one bit and reported the mute state under a name the setter does
not know; setting a port-address authority, indicator state or port protocol
or-ed it with the one set before.
---
 packet/code/porttype.go | 12 ++++++------
 packet/code/status1.go  | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 8b1924b..3a8993b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -36,17 +36,17 @@ func (s PortType) Output() bool {
 func (s PortType) WithType(v string) PortType {
 	switch v {
 	case "DMX512":
-		return s | 0x00
+		return s&^0x1f | 0x00
 	case "MIDI":
-		return s | 0x01
+		return s&^0x1f | 0x01
 	case "Avab":
-		return s | 0x02
+		return s&^0x1f | 0x02
 	case "Colortran CMX":
-		return s | 0x03
+		return s&^0x1f | 0x03
 	case "ADB 62.5":
-		return s | 0x04
+		return s&^0x1f | 0x04
 	case "Art-Net":
-		return s | 0x05
+		return s&^0x1f | 0x05
 	}
 	return s
 }
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 6144e67..ec7f868 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -57,13 +57,13 @@ func (s Status1) BootROM() bool {
 func (s Status1) WithPortAddr(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 4)
+		return s&^(3<<4) | (0 << 4)
 	case "front":
-		return s | (1 << 4)
+		return s&^(3<<4) | (1 << 4)
 	case "net":
-		return s | (2 << 4)
+		return s&^(3<<4) | (2 << 4)
 	case "unused":
-		return s | (3 << 4)
+		return s&^(3<<4) | (3 << 4)
 	}
 	return s
 }
@@ -74,7 +74,7 @@ func (s Status1) WithPortAddr(v string) Status1 {
 // "net":     All or part of Port-Address programmed by networkor Web browser.
 // "unused":  Not used.
 func (s Status1) PortAddr() string {
-	switch (s & (8 + 16)) >> 4 {
+	switch (s & (3 << 4)) >> 4 {
 	case 0:
 		return "unknown"
 	case 1:
@@ -95,13 +95,13 @@ func (s Status1) PortAddr() string {
 func (s Status1) WithIndicator(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 6)
+		return s&^(3<<6) | (0 << 6)
 	case "locate":
-		return s | (1 << 6)
+		return s&^(3<<6) | (1 << 6)
 	case "mute":
-		return s | (2 << 6)
+		return s&^(3<<6) | (2 << 6)
 	case "normal":
-		return s | (3 << 6)
+		return s&^(3<<6) | (3 << 6)
 	}
 	return s
 }
@@ -112,13 +112,13 @@ func (s Status1) WithIndicator(v string) Status1 {
 // "mute":    Indicators in Mute Mode.
 // "normal":  Indicators in Normal Mode.
 func (s Status1) Indicator() string {
-	switch (s & (32 + 64)) >> 6 {
+	switch (s & (3 << 6)) >> 6 {
 	case 0:
 		return "unknown"
 	case 1:
 		return "locate"
 	case 2:
-		return "mutenet"
+		return "mute"
 	case 3:
 		return "normal"
 	}
-- 
2.43.0


From fff792e9842bb4ff197f58f37384450efefa381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:08 +0000
Subject: [PATCH 08/31] fix: the sub-net switch is the high nibble of a
 universe address

ArtPollReply carries bits 7-4 of the port address in the low nibble of
SubSwitch. It was used as the low nibble of the universe address instead, so
every port outside sub-net 0 was announced and read with a wrong universe.
---
 config.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index c9bcb3e..e1e1008 100644
--- a/config.go
+++ b/config.go
@@ -77,7 +77,7 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		Status1:     c.Status1,
 		Status2:     c.Status2,
 		NetSwitch:   c.BaseAddress.Net,
-		SubSwitch:   c.BaseAddress.SubUni,
+		SubSwitch:   c.BaseAddress.SubUni >> 4,
 		NumPorts:    c.NumberOfPorts(),
 		PortTypes:   c.PortTypes(),
 	}
@@ -171,7 +171,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 		Status2:      p.Status2,
 		BaseAddress: Address{
 			Net:    p.NetSwitch,
-			SubUni: p.SubSwitch,
+			SubUni: p.SubSwitch << 4,
 		},
 	}
 
@@ -180,7 +180,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodOutput[i],
@@ -190,7 +190,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodInput[i],
-- 
2.43.0


From 1ee8814d54222faee5307dc3a4ac8d7f6e216eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:08 +0000
Subject: [PATCH 09/31] fix: announce the universe and status of every port

ArtPollReplyFromConfig left SwIn, SwOut, GoodInput and GoodOutput zero, so
every port of a node was announced as universe 0 of its sub-net.
---
 config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/config.go b/config.go
index e1e1008..d518964 100644
--- a/config.go
+++ b/config.go
@@ -90,6 +90,15 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
 
+	for i := 0; i < len(c.InputPorts) && i < 4; i++ {
+		p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f
+		p.GoodInput[i] = c.InputPorts[i].Status
+	}
+	for i := 0; i < len(c.OutputPorts) && i < 4; i++ {
+		p.SwOut[i] = c.OutputPorts[i].Address.SubUni & 0x0f
+		p.GoodOutput[i] = c.OutputPorts[i].Status
+	}
+
 	return p
 }
 
-- 
2.43.0


From 6b257e88d7379d3ec2218a020b622ef6cc4ec409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:08 +0000
Subject: [PATCH 10/31] fix: announced names are always NUL terminated

---
 config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index d518964..9a35183 100644
--- a/config.go
+++ b/config.go
@@ -84,8 +84,8 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 
 	copy(p.IPAddress[0:4], c.IP.To4())
 	copy(p.ESTAmanufacturer[0:2], c.Manufacturer)
-	copy(p.ShortName[0:18], c.Name)
-	copy(p.LongName[0:64], c.Description)
+	copy(p.ShortName[0:17], c.Name)
+	copy(p.LongName[0:63], c.Description)
 	copy(p.NodeReport[0:64], c.Report)
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
-- 
2.43.0


From 4b70b21ced8ec799f6c91833c5ea69e39b17442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:01 +0000
Subject: [PATCH 11/31] fix: check the read error before using the source
 address

A failed read returns no source address, so any transient socket error
crashed the process with a nil dereference.
---
 node.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/node.go b/node.go
index 6766063..6e1af7b 100644
--- a/node.go
+++ b/node.go
@@ -218,18 +218,18 @@ func (n *Node) recvLoop() {
 				return
 			}
 
-			if n.localAddr.IP.Equal(from.IP) {
-				// this was sent by me, so we ignore it
-				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
-				continue
-			}
-
 			if err != nil {
 				if err == io.EOF {
 					return
 				}
 
-				n.log.With(Fields{"src": from.String(), "bytes": num}).Errorf("failed to read from socket: %v", err)
+				n.log.With(Fields{"bytes": num}).Errorf("failed to read from socket: %v", err)
+				continue
+			}
+
+			if n.localAddr.IP.Equal(from.IP) {
+				// this was sent by me, so we ignore it
+				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
 				continue
 			}
 
-- 
2.43.0


From 7d0304863c788f2926098f0efd0c66394a71bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:22 +0000
Subject: [PATCH 12/31] fix: announce the configuration the node was started
 with

The announcement was built in the reply goroutine, some time after Start
returned, so editing Config after Start changed it or raced with it.
---
 node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 6e1af7b..05ce05c 100644
--- a/node.go
+++ b/node.go
@@ -134,7 +134,8 @@ func (n *Node) Start() error {
 	}
 	n.conn = c.(*net.UDPConn)
 
-	go n.pollReplyLoop()
+	// announce the configuration as it is now, also if it is edited while we run
+	go n.pollReplyLoop(ArtPollReplyFromConfig(n.Config))
 	go n.recvLoop()
 	go n.sendLoop()
 
@@ -143,11 +144,10 @@ func (n *Node) Start() error {
 
 // pollReplyLoop loops to reply to ArtPoll packets
 // when a controller asks for continuous updates, we do that using a ticker
-func (n *Node) pollReplyLoop() {
+func (n *Node) pollReplyLoop(p *packet.ArtPollReplyPacket) {
 	var timer time.Ticker
 
 	// create an ArtPollReply packet to send out in response to an ArtPoll packet
-	p := ArtPollReplyFromConfig(n.Config)
 	me, err := p.MarshalBinary()
 	if err != nil {
 		n.log.With(Fields{"err": err}).Error("error creating ArtPollReply packet for self")
-- 
2.43.0


From 0ad7baeedd92de3f52d72782ecf879f21f7b9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:19 +0000
Subject: [PATCH 13/31] fix: a failed start leaves the node stopped

Start marked the node as running and kept its error before the socket was
opened, so after a failure callbacks could no longer be registered and a
later successful controller start still returned the old error.
---
 node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 05ce05c..61bbc8b 100644
--- a/node.go
+++ b/node.go
@@ -124,7 +124,7 @@ func (n *Node) Start() error {
 	n.pollCh = make(chan packet.ArtPollPacket, 10)
 	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
 	n.shutdownCh = make(chan struct{})
-	n.shutdown = false
+	n.shutdownErr = nil
 
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
@@ -134,6 +134,10 @@ func (n *Node) Start() error {
 	}
 	n.conn = c.(*net.UDPConn)
 
+	n.shutdownLock.Lock()
+	n.shutdown = false
+	n.shutdownLock.Unlock()
+
 	// announce the configuration as it is now, also if it is edited while we run
 	go n.pollReplyLoop(ArtPollReplyFromConfig(n.Config))
 	go n.recvLoop()
-- 
2.43.0


From 897be44977c97dd5aa8c2379001c0d05cd7330f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:08 +0000
Subject: [PATCH 14/31] fix: Stop ends every routine of the node before it
 returns

The reader and the built-in handlers could block forever on a full channel
once the other loops had left, and a restarted node could still be served
by routines and packets of its previous run. Blocking sends now give up on
shutdown, Stop waits for the loops, and the callback of a packet is looked
up when it is received.
---
 node.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/node.go b/node.go
index 61bbc8b..8b0dc48 100644
--- a/node.go
+++ b/node.go
@@ -34,6 +34,9 @@ type Node struct {
 	shutdownErr  error
 	shutdownLock sync.Mutex
 
+	// loops are the running routines, Stop waits for them to end
+	loops sync.WaitGroup
+
 	// pollCh will receive ArtPoll packets
 	pollCh chan packet.ArtPollPacket
 	// pollCh will send ArtPollReply packets
@@ -104,6 +107,7 @@ func (n *Node) Stop() {
 			n.log.Printf("failed to close read socket: %v")
 		}
 	}
+	n.loops.Wait()
 }
 
 func (n *Node) isShutdown() bool {
@@ -119,12 +123,14 @@ func (n *Node) Start() error {
 	}
 	n.log.With(Fields{"ip": n.Config.IP.String(), "type": n.Config.Type.String()}).Debug("node started")
 
+	n.shutdownLock.Lock()
 	n.sendCh = make(chan netPayload, 10)
 	n.recvCh = make(chan netPayload, 10)
 	n.pollCh = make(chan packet.ArtPollPacket, 10)
 	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
 	n.shutdownCh = make(chan struct{})
 	n.shutdownErr = nil
+	n.shutdownLock.Unlock()
 
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
@@ -138,6 +144,7 @@ func (n *Node) Start() error {
 	n.shutdown = false
 	n.shutdownLock.Unlock()
 
+	n.loops.Add(3)
 	// announce the configuration as it is now, also if it is edited while we run
 	go n.pollReplyLoop(ArtPollReplyFromConfig(n.Config))
 	go n.recvLoop()
@@ -146,9 +153,19 @@ func (n *Node) Start() error {
 	return nil
 }
 
+// send queues a packet to be sent to the network, unless we are shut down
+func (n *Node) send(payload netPayload) {
+	select {
+	case n.sendCh <- payload:
+	case <-n.shutdownCh:
+	}
+}
+
 // pollReplyLoop loops to reply to ArtPoll packets
 // when a controller asks for continuous updates, we do that using a ticker
 func (n *Node) pollReplyLoop(p *packet.ArtPollReplyPacket) {
+	defer n.loops.Done()
+
 	var timer time.Ticker
 
 	// create an ArtPollReply packet to send out in response to an ArtPoll packet
@@ -169,10 +186,10 @@ func (n *Node) pollReplyLoop(p *packet.ArtPollReplyPacket) {
 			// reply with pollReply
 			n.log.With(nil).Debug("sending ArtPollReply")
 
-			n.sendCh <- netPayload{
+			n.send(netPayload{
 				address: n.broadcastAddr,
 				data:    me,
-			}
+			})
 
 			// TODO: if we are asked to send changes regularly, set the Ticker here
 
@@ -184,6 +201,8 @@ func (n *Node) pollReplyLoop(p *packet.ArtPollReplyPacket) {
 
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
+	defer n.loops.Done()
+
 	// loop until shutdown
 	for {
 		select {
@@ -212,9 +231,14 @@ func (n *Node) sendLoop() {
 // due to the nature of broadcasting, we see our own sent
 // packets to, but we ignore them
 func (n *Node) recvLoop() {
+	defer n.loops.Done()
+
 	// start a routine that will read data from n.conn
 	// and (if not shutdown), send to the recvCh
+	n.loops.Add(1)
 	go func() {
+		defer n.loops.Done()
+
 		b := make([]byte, 4096)
 		for {
 			num, from, err := n.conn.ReadFromUDP(b)
@@ -244,7 +268,11 @@ func (n *Node) recvLoop() {
 				data:    make([]byte, num),
 			}
 			copy(payload.data, b)
-			n.recvCh <- payload
+			select {
+			case n.recvCh <- payload:
+			case <-n.shutdownCh:
+				return
+			}
 		}
 	}()
 
@@ -266,7 +294,7 @@ func (n *Node) recvLoop() {
 			// opcode which we can now extract and handle
 			// the packet by calling the corresponding
 			// callback
-			go n.handlePacket(p)
+			n.handlePacket(p)
 
 		case <-n.shutdownCh:
 			return
@@ -282,7 +310,7 @@ func (n *Node) handlePacket(p packet.ArtNetPacket) {
 		return
 	}
 
-	callback(p)
+	go callback(p)
 }
 
 func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
@@ -292,7 +320,14 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
-	n.pollCh <- *poll
+	n.shutdownLock.Lock()
+	pollCh, shutdownCh := n.pollCh, n.shutdownCh
+	n.shutdownLock.Unlock()
+
+	select {
+	case pollCh <- *poll:
+	case <-shutdownCh:
+	}
 }
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
@@ -304,7 +339,14 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
-		n.pollReplyCh <- *pollReply
+		n.shutdownLock.Lock()
+		pollReplyCh, shutdownCh := n.pollReplyCh, n.shutdownCh
+		n.shutdownLock.Unlock()
+
+		select {
+		case pollReplyCh <- *pollReply:
+		case <-shutdownCh:
+		}
 	}
 }
 
-- 
2.43.0


From 40d83121cffd51b0ccce9a6db15092bb259fb6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 15/31] fix: ArtDmx sequence numbers wrap from 255 to 1

Zero means that sequence numbers are not used, so the 256th frame to a node
switched resequencing off.
---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index b51f94c..1ef49f5 100644
--- a/controller.go
+++ b/controller.go
@@ -67,6 +67,10 @@ func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {
 	}
 
 	cn.Sequence++
+	if cn.Sequence == 0 {
+		// 0 disables resequencing, the count goes from 255 to 1
+		cn.Sequence = 1
+	}
 	p := &packet.ArtDMXPacket{
 		Sequence: cn.Sequence,
 		SubUni:   address.SubUni,
-- 
2.43.0


From bec42c9b26d3e9345e376310831308851becfd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 16/31] fix: tell devices apart by IP address and bind index

A device with more than four ports answers a poll once per bind index. Each
of these replies replaced the one before, so all but the last four ports
were forgotten.
---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 1ef49f5..bbffcd8 100644
--- a/controller.go
+++ b/controller.go
@@ -301,7 +301,7 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 	defer c.nodeLock.Unlock()
 
 	for i := range c.Nodes {
-		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {
+		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) && cfg.BindIndex == c.Nodes[i].Node.BindIndex {
 			// update this node, since we already know about it
 			c.log.With(Fields{"node": cfg.Name, "ip": cfg.IP.String()}).Debug("updated node")
 			// remove references to this node from the output map
-- 
2.43.0


From 96de98add0a602dd0b22232cba691cddaa05d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 17/31] fix: accept DMX data for a port a known node has just
 added

The buffer for such a port was only created by the next update, data
submitted before that was dropped.
---
 controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller.go b/controller.go
index bbffcd8..e3a6db2 100644
--- a/controller.go
+++ b/controller.go
@@ -316,6 +316,9 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
 				c.OutputAddress[port.Address] = c.Nodes[i]
+				if c.Nodes[i].DMXBuffer[port.Address] == nil {
+					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
 				c.InputAddress[port.Address] = c.Nodes[i]
-- 
2.43.0


From c8f9ea6ea77f5cd483232601b83859209a4f2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 18/31] fix: send the controller's own announcements to its
 broadcast address

BroadcastAddr only applied to polls, ArtPollReplies still went to the
default address.
---
 options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options.go b/options.go
index decc5ab..3b5b8f6 100644
--- a/options.go
+++ b/options.go
@@ -26,7 +26,7 @@ func MaxFPS(fps int) Option {
 func BroadcastAddr(addr net.UDPAddr) Option {
 	return func(c *Controller) error {
 		c.broadcastAddr = addr
-		return nil
+		return NodeBroadcastAddress(addr)(c.cNode)
 	}
 }
 
-- 
2.43.0


From 69080a7f514732927f8fdb20c5827d4028e84575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 19/31] fix: a restarted controller starts without known nodes

Start forgot the universes but kept the nodes, with their old DMX data and
sequence numbers.
---
 controller.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller.go b/controller.go
index e3a6db2..0d4d3ad 100644
--- a/controller.go
+++ b/controller.go
@@ -122,6 +122,7 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
+	c.Nodes = nil
 	c.OutputAddress = make(map[Address]*ControlledNode)
 	c.InputAddress = make(map[Address]*ControlledNode)
 	c.shutdownCh = make(chan struct{})
-- 
2.43.0


From aefeb977cc58a7daf4185d06913911da585acf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:42 +0000
Subject: [PATCH 20/31] fix: Stop ends every routine of the controller before
 it returns

The poll and update loops could block forever on a full channel once the
node was stopped, the latter holding the lock SendDMXToAddress needs, and
loops that had not noticed the stop yet ran on beside those of a restart.
---
 controller.go | 26 ++++++++++++++++++--------
 node.go       |  8 ++++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/controller.go b/controller.go
index 0d4d3ad..f13cab0 100644
--- a/controller.go
+++ b/controller.go
@@ -97,6 +97,9 @@ type Controller struct {
 
 	shutdownCh chan struct{}
 
+	// loops are the running routines, Stop waits for them to end
+	loops sync.WaitGroup
+
 	maxFPS int
 	log    Logger
 
@@ -135,6 +138,7 @@ func (c *Controller) Start() error {
 	c.pollTicker = time.NewTicker(pollInterval)
 	c.gcTicker = time.NewTicker(pollInterval)
 
+	c.loops.Add(2)
 	go c.pollLoop()
 	go c.dmxUpdateLoop()
 	return c.cNode.shutdownErr
@@ -151,10 +155,13 @@ func (c *Controller) Stop() {
 	}
 
 	close(c.shutdownCh)
+	c.loops.Wait()
 }
 
 // pollLoop will routinely poll for new nodes
 func (c *Controller) pollLoop() {
+	defer c.loops.Done()
+
 	artPoll := &packet.ArtPollPacket{
 		TalkToMe: new(code.TalkToMe).WithReplyOnChange(true),
 		Priority: code.DpAll,
@@ -168,22 +175,22 @@ func (c *Controller) pollLoop() {
 	}
 
 	// send ArtPollPacket
-	c.cNode.sendCh <- netPayload{
+	c.cNode.send(netPayload{
 		address: c.broadcastAddr,
 		data:    b,
-	}
-	c.cNode.pollCh <- packet.ArtPollPacket{}
+	})
+	c.cNode.poll()
 
 	// loop until shutdown
 	for {
 		select {
 		case <-c.pollTicker.C:
 			// send ArtPollPacket
-			c.cNode.sendCh <- netPayload{
+			c.cNode.send(netPayload{
 				address: c.broadcastAddr,
 				data:    b,
-			}
-			c.cNode.pollCh <- packet.ArtPollPacket{}
+			})
+			c.cNode.poll()
 
 		case <-c.gcTicker.C:
 			// clean up old nodes
@@ -238,8 +245,11 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
+	defer c.loops.Done()
+
 	fpsInterval := time.Duration(c.maxFPS)
 	ticker := time.NewTicker(time.Second / fpsInterval)
+	defer ticker.Stop()
 
 	forceUpdate := 250 * time.Millisecond
 
@@ -252,10 +262,10 @@ func (c *Controller) dmxUpdateLoop() {
 		node.DMXBuffer[address].LastUpdate = now
 		node.DMXBuffer[address].Stale = false
 
-		c.cNode.sendCh <- netPayload{
+		c.cNode.send(netPayload{
 			address: node.UDPAddress,
 			data:    b,
-		}
+		})
 		return nil
 	}
 
diff --git a/node.go b/node.go
index 8b0dc48..a17d0a8 100644
--- a/node.go
+++ b/node.go
@@ -161,6 +161,14 @@ func (n *Node) send(payload netPayload) {
 	}
 }
 
+// poll asks for an announcement as if we were polled, unless we are shut down
+func (n *Node) poll() {
+	select {
+	case n.pollCh <- packet.ArtPollPacket{}:
+	case <-n.shutdownCh:
+	}
+}
+
 // pollReplyLoop loops to reply to ArtPoll packets
 // when a controller asks for continuous updates, we do that using a ticker
 func (n *Node) pollReplyLoop(p *packet.ArtPollReplyPacket) {
-- 
2.43.0


From 09f8227b854079b58aba2eca2e1031f20c811f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:55 +0000
Subject: [PATCH 21/31] fix: forget the DMX data of a port that a node no
 longer has

The buffer was kept, so when the universe moved to another node and later
back, the old data was sent instead of the data submitted in between.
---
 controller.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/controller.go b/controller.go
index f13cab0..0de8be2 100644
--- a/controller.go
+++ b/controller.go
@@ -325,12 +325,16 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			c.Nodes[i].Node = cfg
 			c.Nodes[i].LastSeen = time.Now()
 			// add references to this node to the output map
+			// and only keep the DMX buffers of ports it still has
+			buf := make(map[Address]*dmxBuffer)
 			for _, port := range c.Nodes[i].Node.OutputPorts {
 				c.OutputAddress[port.Address] = c.Nodes[i]
-				if c.Nodes[i].DMXBuffer[port.Address] == nil {
-					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
+				buf[port.Address] = c.Nodes[i].DMXBuffer[port.Address]
+				if buf[port.Address] == nil {
+					buf[port.Address] = &dmxBuffer{}
 				}
 			}
+			c.Nodes[i].DMXBuffer = buf
 			for _, port := range c.Nodes[i].Node.InputPorts {
 				c.InputAddress[port.Address] = c.Nodes[i]
 			}
-- 
2.43.0


From e5c3b05ee30e4d80ab0729e729eaae57f6ef027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:12 +0000
Subject: [PATCH 22/31] fix: MaxFPS refuses rates that cannot be a ticking
 interval

A rate of zero made the update loop panic with a division by zero, a
negative one or one above 1e9 per second made time.NewTicker panic.
Such a rate is now refused with an error and changes nothing.
---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index 3b5b8f6..0e00971 100644
--- a/options.go
+++ b/options.go
@@ -1,7 +1,9 @@
 package artnet
 
 import (
+	"fmt"
 	"net"
+	"time"
 
 	"github.com/jsimonetti/go-artnet/packet"
 )
@@ -17,6 +19,9 @@ func (c *Controller) SetOption(option Option) error {
 // MaxFPS sets the maximum amount of updates sent out per second
 func MaxFPS(fps int) Option {
 	return func(c *Controller) error {
+		if fps < 1 || time.Duration(fps) > time.Second {
+			return fmt.Errorf("invalid maximum rate: %d updates per second", fps)
+		}
 		c.maxFPS = fps
 		return nil
 	}
-- 
2.43.0


From a356d0a00cb70d01dc7801ca8416c6d91a4b4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:07 +0000
Subject: [PATCH 23/31] fix: a node without a controller keeps no announcements

Every ArtPollReply received by a node of style controller that was not made
by NewController left a goroutine behind until the node was stopped.
---
 controller.go | 2 ++
 node.go       | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/controller.go b/controller.go
index 0de8be2..fe22cc6 100644
--- a/controller.go
+++ b/controller.go
@@ -116,6 +116,8 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 		broadcastAddr: defaultBroadcastAddr,
 	}
 
+	c.cNode.controlled = true
+
 	for _, opt := range opts {
 		c.SetOption(opt)
 	}
diff --git a/node.go b/node.go
index a17d0a8..f2a542e 100644
--- a/node.go
+++ b/node.go
@@ -41,6 +41,8 @@ type Node struct {
 	pollCh chan packet.ArtPollPacket
 	// pollCh will send ArtPollReply packets
 	pollReplyCh chan packet.ArtPollReplyPacket
+	// controlled is set if a controller reads from pollReplyCh
+	controlled bool
 
 	log Logger
 
@@ -339,8 +341,8 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 }
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
-	// only handle these packets if we are a controller
-	if n.Config.Type == code.StController {
+	// only handle these packets if we are the node of a controller
+	if n.controlled {
 		pollReply, ok := p.(*packet.ArtPollReplyPacket)
 		if !ok {
 			n.log.With(Fields{"packet": p}).Debugf("unknown packet type")
-- 
2.43.0


From d2acd4d9617ab00398e670b0658159a49ede0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:07 +0000
Subject: [PATCH 24/31] fix: packets report their own opcode when constructed
 and after encoding

The constructors are documented to return a packet with the correct OpCode
but left it zero, and encoding left OpCode (and the Port of ArtPollReply)
byte swapped in the packet.
---
 packet/artaddress.go     |  2 +-
 packet/artcommand.go     |  2 +-
 packet/artdiagdata.go    |  2 +-
 packet/artdmx.go         |  2 +-
 packet/artipprog.go      |  2 +-
 packet/artipprogreply.go |  2 +-
 packet/artnzs.go         |  2 +-
 packet/artpoll.go        |  2 +-
 packet/artpollreply.go   | 14 ++++++++++----
 packet/artsync.go        |  2 +-
 packet/arttimecode.go    |  2 +-
 packet/arttrigger.go     |  2 +-
 packet/header.go         |  6 ++++--
 13 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 056d3bc..eff22e5 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -73,7 +73,7 @@ type ArtAddressPacket struct {
 
 // NewArtAddressPacket returns an ArtNetPacket with the correct OpCode
 func NewArtAddressPacket() *ArtAddressPacket {
-	return &ArtAddressPacket{}
+	return &ArtAddressPacket{Header: Header{OpCode: code.OpAddress}}
 }
 
 // MarshalBinary marshals an ArtAddressPacket into a byte slice.
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 4a69ecb..c6b38fd 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -54,7 +54,7 @@ type ArtCommandPacket struct {
 
 // NewArtCommandPacket returns an ArtNetPacket with the correct OpCode
 func NewArtCommandPacket() *ArtCommandPacket {
-	return &ArtCommandPacket{}
+	return &ArtCommandPacket{Header: Header{OpCode: code.OpCommand}}
 }
 
 // MarshalBinary marshals an ArtCommandPacket into a byte slice.
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 1150bbe..7b136bc 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -44,7 +44,7 @@ type ArtDiagDataPacket struct {
 
 // NewArtDiagDataPacket returns an ArtNetPacket with the correct OpCode
 func NewArtDiagDataPacket() *ArtDiagDataPacket {
-	return &ArtDiagDataPacket{}
+	return &ArtDiagDataPacket{Header: Header{OpCode: code.OpDiagData}}
 }
 
 // MarshalBinary marshals an ArtDiagDataPacket into a byte slice.
diff --git a/packet/artdmx.go b/packet/artdmx.go
index f2ea35a..da71ed2 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -67,7 +67,7 @@ type ArtDMXPacket struct {
 
 // NewArtDMXPacket returns an ArtNetPacket with the correct OpCode
 func NewArtDMXPacket() *ArtDMXPacket {
-	return &ArtDMXPacket{}
+	return &ArtDMXPacket{Header: Header{OpCode: code.OpDMX}}
 }
 
 // MarshalBinary marshals an ArtDMXPacket into a byte slice.
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 5701d08..de0a5d6 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -52,7 +52,7 @@ type ArtIPProgPacket struct {
 
 // NewArtIPProgPacket returns an ArtNetPacket with the correct OpCode
 func NewArtIPProgPacket() *ArtIPProgPacket {
-	return &ArtIPProgPacket{}
+	return &ArtIPProgPacket{Header: Header{OpCode: code.OpIPProg}}
 }
 
 // MarshalBinary marshals an ArtIPProgPacket into a byte slice.
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 6fdb3c6..defc9a5 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -48,7 +48,7 @@ type ArtIPProgReplyPacket struct {
 
 // NewArtIPProgReplyPacket returns an ArtNetPacket with the correct OpCode
 func NewArtIPProgReplyPacket() *ArtIPProgReplyPacket {
-	return &ArtIPProgReplyPacket{}
+	return &ArtIPProgReplyPacket{Header: Header{OpCode: code.OpIPProgReply}}
 }
 
 // MarshalBinary marshals an ArtIPProgReplyPacket into a byte slice.
diff --git a/packet/artnzs.go b/packet/artnzs.go
index fbae5c6..b50a666 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -52,7 +52,7 @@ type ArtNzsPacket struct {
 
 // NewArtNzsPacket returns an ArtNetPacket with the correct OpCode
 func NewArtNzsPacket() *ArtNzsPacket {
-	return &ArtNzsPacket{}
+	return &ArtNzsPacket{Header: Header{OpCode: code.OpNzs}}
 }
 
 // MarshalBinary marshals an ArtNzsPacket into a byte slice.
diff --git a/packet/artpoll.go b/packet/artpoll.go
index d860119..b12e283 100644
--- a/packet/artpoll.go
+++ b/packet/artpoll.go
@@ -49,7 +49,7 @@ type ArtPollPacket struct {
 
 // NewArtPollPacket returns an ArtNetPacket with the correct OpCode
 func NewArtPollPacket() *ArtPollPacket {
-	return &ArtPollPacket{}
+	return &ArtPollPacket{Header: Header{OpCode: code.OpPoll}}
 }
 
 // MarshalBinary marshals an ArtPollPacket into a byte slice.
diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 943f00a..736435b 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -136,7 +136,7 @@ type ArtPollReplyPacket struct {
 
 // NewArtPollReplyPacket returns a new ArtPollReply Packet
 func NewArtPollReplyPacket() *ArtPollReplyPacket {
-	return &ArtPollReplyPacket{}
+	return &ArtPollReplyPacket{OpCode: code.OpPollReply}
 }
 
 // GetOpCode returns the OpCode parsed by validate method
@@ -146,7 +146,13 @@ func (p *ArtPollReplyPacket) GetOpCode() code.OpCode {
 
 // MarshalBinary marshals an ArtPollReplyPacket into a byte slice.
 func (p *ArtPollReplyPacket) MarshalBinary() ([]byte, error) {
-	return marshalPacket(p)
+	b, err := marshalPacket(p)
+	if err != nil {
+		return nil, err
+	}
+	// the Port is sent low byte first
+	b[14], b[15] = b[15], b[14]
+	return b, nil
 }
 
 // UnmarshalBinary unmarshals the contents of a byte slice into an ArtPollReplyPacket.
@@ -190,6 +196,6 @@ func (p *ArtPollReplyPacket) finish() {
 	// ArtPollReply doesn't embed the header struct, so the header.finish method won't set the header fields. To get a
 	// working packet we do it here "manually"
 	p.ID = ArtNet
-	p.OpCode = code.OpCode(swapUint16(uint16(code.OpPollReply)))
-	p.Port = swapUint16(ArtNetPort)
+	p.OpCode = code.OpPollReply
+	p.Port = ArtNetPort
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index ab6e4cd..f16ac95 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -35,7 +35,7 @@ type ArtSyncPacket struct {
 
 // NewArtSyncPacket returns an ArtNetPacket with the correct OpCode
 func NewArtSyncPacket() *ArtSyncPacket {
-	return &ArtSyncPacket{}
+	return &ArtSyncPacket{Header: Header{OpCode: code.OpSync}}
 }
 
 // MarshalBinary marshals an ArtSyncPacket into a byte slice.
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 054e6a7..d1d2058 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -49,7 +49,7 @@ type ArtTimeCodePacket struct {
 
 // NewArtTimeCodePacket returns an ArtNetPacket with the correct OpCode
 func NewArtTimeCodePacket() *ArtTimeCodePacket {
-	return &ArtTimeCodePacket{}
+	return &ArtTimeCodePacket{Header: Header{OpCode: code.OpTimeCode}}
 }
 
 // MarshalBinary marshals an ArtTimeCodePacket into a byte slice.
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index a966212..9f463ae 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -70,7 +70,7 @@ type ArtTriggerPacket struct {
 
 // NewArtTriggerPacket returns an ArtNetPacket with the correct OpCode
 func NewArtTriggerPacket() *ArtTriggerPacket {
-	return &ArtTriggerPacket{}
+	return &ArtTriggerPacket{Header: Header{OpCode: code.OpTrigger}}
 }
 
 // MarshalBinary marshals an ArtTriggerPacket into a byte slice.
diff --git a/packet/header.go b/packet/header.go
index 9a62655..e39a7a8 100644
--- a/packet/header.go
+++ b/packet/header.go
@@ -94,7 +94,6 @@ func (p *Header) validate() error {
 func (p *Header) finish() {
 	p.ID = ArtNet
 	p.Version = version.Bytes()
-	p.swapOpCode()
 }
 
 func (p *Header) swapOpCode() {
@@ -107,7 +106,10 @@ func marshalPacket(p ArtNetPacket) ([]byte, error) {
 	if err := binary.Write(&buf, binary.BigEndian, p); err != nil {
 		return nil, err
 	}
-	return buf.Bytes(), nil
+	// the OpCode is sent low byte first
+	b := buf.Bytes()
+	b[8], b[9] = b[9], b[8]
+	return b, nil
 }
 
 func unmarshalPacket(p ArtNetPacket, b []byte) error {
-- 
2.43.0


From 9bba049672503222abcb68a2505f4f9d000c167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:00 +0000
Subject: [PATCH 25/31] fix: Start refuses a running node or controller, Stop
 of a stopped one does nothing

A second Start replaced the channels of the running node before it failed
to open the socket, and a Stop without a running Start panicked.
---
 controller.go | 7 +++++++
 node.go       | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/controller.go b/controller.go
index fe22cc6..92f5ea9 100644
--- a/controller.go
+++ b/controller.go
@@ -127,6 +127,9 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
+	if !c.cNode.isShutdown() {
+		return fmt.Errorf("controller has already been started")
+	}
 	c.Nodes = nil
 	c.OutputAddress = make(map[Address]*ControlledNode)
 	c.InputAddress = make(map[Address]*ControlledNode)
@@ -148,6 +151,10 @@ func (c *Controller) Start() error {
 
 // Stop will stop this controller
 func (c *Controller) Stop() {
+	if c.cNode.isShutdown() {
+		// not running
+		return
+	}
 	c.pollTicker.Stop()
 	c.gcTicker.Stop()
 	c.cNode.Stop()
diff --git a/node.go b/node.go
index f2a542e..3854b42 100644
--- a/node.go
+++ b/node.go
@@ -101,6 +101,11 @@ func (n *Node) Connection() *net.UDPConn {
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
 	n.shutdownLock.Lock()
+	if n.shutdown {
+		// not running
+		n.shutdownLock.Unlock()
+		return
+	}
 	n.shutdown = true
 	n.shutdownLock.Unlock()
 	close(n.shutdownCh)
@@ -120,6 +125,9 @@ func (n *Node) isShutdown() bool {
 
 // Start will start the controller
 func (n *Node) Start() error {
+	if !n.isShutdown() {
+		return fmt.Errorf("node has already been started")
+	}
 	if err := n.Config.validate(); err != nil {
 		return err
 	}
-- 
2.43.0


From dec63d48f95f5a372ef7c754b11eee8749e93658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:28 +0000
Subject: [PATCH 26/31] fix: DMX data can be submitted while the controller
 starts

Start replaced the universe maps and the logger without the lock that
SendDMXToAddress takes.
---
 controller.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/controller.go b/controller.go
index 92f5ea9..7cad3bf 100644
--- a/controller.go
+++ b/controller.go
@@ -111,7 +111,7 @@ type Controller struct {
 func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controller {
 	c := &Controller{
 		cNode:         NewNode(name, code.StController, ip, log),
-		log:           log,
+		log:           log.With(Fields{"type": "Controller"}),
 		maxFPS:        1000,
 		broadcastAddr: defaultBroadcastAddr,
 	}
@@ -130,12 +130,13 @@ func (c *Controller) Start() error {
 	if !c.cNode.isShutdown() {
 		return fmt.Errorf("controller has already been started")
 	}
+	// DMX data may be submitted while we start
+	c.nodeLock.Lock()
 	c.Nodes = nil
 	c.OutputAddress = make(map[Address]*ControlledNode)
 	c.InputAddress = make(map[Address]*ControlledNode)
+	c.nodeLock.Unlock()
 	c.shutdownCh = make(chan struct{})
-	c.cNode.log = c.log.With(Fields{"type": "Node"})
-	c.log = c.log.With(Fields{"type": "Controller"})
 	if err := c.cNode.Start(); err != nil {
 		return fmt.Errorf("failed to start controller node: %v", err)
 	}
-- 
2.43.0


From 53496d8ce8093f60399f16018bf466387b6efb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:28 +0000
Subject: [PATCH 27/31] fix: callbacks can be registered while the node stops

A registration that came while Stop was waiting for the routines wrote to
the map of callbacks they still read.
---
 node.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 3854b42..d9921eb 100644
--- a/node.go
+++ b/node.go
@@ -322,7 +322,9 @@ func (n *Node) recvLoop() {
 
 // handlePacket contains the logic for dealing with incoming packets
 func (n *Node) handlePacket(p packet.ArtNetPacket) {
+	n.shutdownLock.Lock()
 	callback, ok := n.callbacks[p.GetOpCode()]
+	n.shutdownLock.Unlock()
 	if !ok {
 		n.log.With(Fields{"packet": p}).Debugf("ignoring unhandled packet")
 		return
@@ -373,7 +375,9 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 // only register callbacks before the node has been started. Calling this
 // function multiple times replaces every previous callback.
 func (n *Node) RegisterCallback(opcode code.OpCode, callback NodeCallbackFn) {
-	if !n.isShutdown() {
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
+	if !n.shutdown {
 		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
 		return
 	}
@@ -385,7 +389,9 @@ func (n *Node) RegisterCallback(opcode code.OpCode, callback NodeCallbackFn) {
 // deregistration function can only deregister callbacks before the node
 // has been started.
 func (n *Node) DeregisterCallback(opcode code.OpCode) {
-	if !n.isShutdown() {
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
+	if !n.shutdown {
 		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
 		return
 	}
-- 
2.43.0


From 3c6c99a911cba67f32e0616d6e13150b917deefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:28 +0000
Subject: [PATCH 28/31] fix: concurrent Start and Stop calls take effect one
 after another

Two Start calls could both find the node stopped, and two Stop calls of a
controller could both close its channel.
---
 controller.go | 9 +++++++++
 node.go       | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/controller.go b/controller.go
index 7cad3bf..1e5d5fe 100644
--- a/controller.go
+++ b/controller.go
@@ -97,6 +97,9 @@ type Controller struct {
 
 	shutdownCh chan struct{}
 
+	// runLock lets Start and Stop calls take effect one after another
+	runLock sync.Mutex
+
 	// loops are the running routines, Stop waits for them to end
 	loops sync.WaitGroup
 
@@ -127,6 +130,9 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
+	c.runLock.Lock()
+	defer c.runLock.Unlock()
+
 	if !c.cNode.isShutdown() {
 		return fmt.Errorf("controller has already been started")
 	}
@@ -152,6 +158,9 @@ func (c *Controller) Start() error {
 
 // Stop will stop this controller
 func (c *Controller) Stop() {
+	c.runLock.Lock()
+	defer c.runLock.Unlock()
+
 	if c.cNode.isShutdown() {
 		// not running
 		return
diff --git a/node.go b/node.go
index d9921eb..7b721fd 100644
--- a/node.go
+++ b/node.go
@@ -34,6 +34,9 @@ type Node struct {
 	shutdownErr  error
 	shutdownLock sync.Mutex
 
+	// runLock lets Start and Stop calls take effect one after another
+	runLock sync.Mutex
+
 	// loops are the running routines, Stop waits for them to end
 	loops sync.WaitGroup
 
@@ -100,6 +103,9 @@ func (n *Node) Connection() *net.UDPConn {
 
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
+	n.runLock.Lock()
+	defer n.runLock.Unlock()
+
 	n.shutdownLock.Lock()
 	if n.shutdown {
 		// not running
@@ -125,6 +131,9 @@ func (n *Node) isShutdown() bool {
 
 // Start will start the controller
 func (n *Node) Start() error {
+	n.runLock.Lock()
+	defer n.runLock.Unlock()
+
 	if !n.isShutdown() {
 		return fmt.Errorf("node has already been started")
 	}
-- 
2.43.0


From b0db2badcc763b9883a7f7741328406c4b12b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:02 +0000
Subject: [PATCH 29/31] fix: a controller takes announcements in the order they
 arrive

Every received packet was handled in a routine of its own, so of two
announcements of one node received in a row the older one could win and its
universes stayed mapped until the next announcement.
---
 node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node.go b/node.go
index 7b721fd..f66edb0 100644
--- a/node.go
+++ b/node.go
@@ -339,6 +339,12 @@ func (n *Node) handlePacket(p packet.ArtNetPacket) {
 		return
 	}
 
+	if n.controlled {
+		// only our own handlers, which must see the packets in order:
+		// of two announcements the one received last has to win
+		callback(p)
+		return
+	}
 	go callback(p)
 }
 
-- 
2.43.0


From 18daa1f126e3c49dedf6ba7afb80e3941a90dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:41 +0000
Subject: [PATCH 30/31] fix: a failed start leaves handlers of the previous run
 waiting

The channels were replaced before the socket was opened. A handler of a poll
received just before Stop that came to run after a failed start then waited on
channels that nothing reads or closes.
---
 node.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/node.go b/node.go
index f66edb0..514867e 100644
--- a/node.go
+++ b/node.go
@@ -142,15 +142,6 @@ func (n *Node) Start() error {
 	}
 	n.log.With(Fields{"ip": n.Config.IP.String(), "type": n.Config.Type.String()}).Debug("node started")
 
-	n.shutdownLock.Lock()
-	n.sendCh = make(chan netPayload, 10)
-	n.recvCh = make(chan netPayload, 10)
-	n.pollCh = make(chan packet.ArtPollPacket, 10)
-	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
-	n.shutdownCh = make(chan struct{})
-	n.shutdownErr = nil
-	n.shutdownLock.Unlock()
-
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
 		n.shutdownErr = fmt.Errorf("error net.ListenPacket: %s", err)
@@ -160,6 +151,12 @@ func (n *Node) Start() error {
 	n.conn = c.(*net.UDPConn)
 
 	n.shutdownLock.Lock()
+	n.sendCh = make(chan netPayload, 10)
+	n.recvCh = make(chan netPayload, 10)
+	n.pollCh = make(chan packet.ArtPollPacket, 10)
+	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
+	n.shutdownCh = make(chan struct{})
+	n.shutdownErr = nil
 	n.shutdown = false
 	n.shutdownLock.Unlock()
 
-- 
2.43.0


From b1bf41acbae5916e01b342bdf094953cca0712c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:45 +0000
Subject: [PATCH 31/31] fix: send new DMX data with the next update at every
 rate

The maximum rate was also used as a number of nanoseconds for which new
data had to wait after the last transmission, so with high rates (from
some 32000 updates per second on) data stayed behind for longer than one
update interval, up to the forced refresh after 250 ms. The ticker alone
keeps to the maximum rate.
---
 controller.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/controller.go b/controller.go
index 1e5d5fe..9a9de9c 100644
--- a/controller.go
+++ b/controller.go
@@ -266,8 +266,7 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 func (c *Controller) dmxUpdateLoop() {
 	defer c.loops.Done()
 
-	fpsInterval := time.Duration(c.maxFPS)
-	ticker := time.NewTicker(time.Second / fpsInterval)
+	ticker := time.NewTicker(time.Second / time.Duration(c.maxFPS))
 	defer ticker.Stop()
 
 	forceUpdate := 250 * time.Millisecond
@@ -299,8 +298,8 @@ func (c *Controller) dmxUpdateLoop() {
 				if node.DMXBuffer[address] == nil {
 					node.DMXBuffer[address] = &dmxBuffer{}
 				}
-				// only update if it has been X seconds
-				if node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval)) {
+				// new data goes out at once, the ticker keeps to the maximum rate
+				if node.DMXBuffer[address].Stale {
 					err := update(node, address, now)
 					if err != nil {
 						c.log.With(Fields{"err": err, "address": address.String()}).Error("error getting buffer for address")
-- 
2.43.0

