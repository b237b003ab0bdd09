From bc6e53080c44875c9f334236424b59233387456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 01/41] fix: ts: do not keep the payload and adaptation field
 of the previous packet

---
 ts/packet.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1cbcf92..3635093 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -106,6 +106,8 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 	}
 
 	packet.AdaptationFieldControl = AdaptationFieldControl(afc)
+	packet.AdaptationField = nil
+	packet.Payload = nil
 
 	packet.ContinuityCounter, err = br.Read32(4)
 	if err != nil {
-- 
2.43.0


From 53ed7355f37566e65d93a843071ac363b231fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 02/41] fix: ts: return an error for an adaptation field that
 does not fit in its packet

---
 ts/adaptation_field.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 80430d5..c4b7f42 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -1,11 +1,16 @@
 package ts
 
 import (
+	"errors"
 	"io"
 
 	"github.com/32bitkid/bitreader"
 )
 
+// ErrAdaptationFieldLength is the error returned if an adaptation field, or a
+// part of it, is longer than the space that contains it.
+var ErrAdaptationFieldLength = errors.New("bad adaptation field length")
+
 // AdaptationFieldControl is the two bit code that appears in a transport
 // stream packet header that determines whether an Adapation Field appears
 // in the bit stream.
@@ -153,6 +158,11 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		return nil, 0, err
 	}
 
+	// the adaptation field, with its length byte, must fit in the packet
+	if remainLength > MaxPayloadSize-1 {
+		return nil, 0, ErrAdaptationFieldLength
+	}
+
 	// parse the adaptation field flags
 	if remainLength >= 1 {
 		if af.DiscontinuityIndicator, err = br.Read1(); err != nil {
-- 
2.43.0


From 110f6d430fde488ed8cf46537ceeee22c9268350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 03/41] fix: ts: return an error when private data or extension
 exceed the adaptation field

---
 ts/adaptation_field.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index c4b7f42..37eaf58 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -233,6 +233,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		if af.TransportPrivateData, length, err = newTransportPrivateData(br); err != nil {
 			return nil, 0, err
 		}
+		if length+1 > remainLength {
+			return nil, 0, ErrAdaptationFieldLength
+		}
 		remainLength -= length + 1
 	}
 
@@ -241,6 +244,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		if af.AdapatationExtension, length, err = newAdaptationExt(br); err != nil {
 			return nil, 0, err
 		}
+		if length+1 > remainLength {
+			return nil, 0, ErrAdaptationFieldLength
+		}
 		remainLength -= length + 1
 	}
 
-- 
2.43.0


From 1583a09107d6e63bceeaa84c00b79ae5655e8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 04/41] fix: ts: consume an adaptation field extension up to
 its end

---
 ts/adaptation_field.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 37eaf58..241116a 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -122,6 +122,13 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v
+		br.Skip(1)
+		remainLength -= 5
+	}
+
+	// skip the remaining bytes
+	if err = br.Skip(uint(remainLength) * 8); err != nil {
+		return nil, 0, err
 	}
 
 	return &ae, ae.length, nil
-- 
2.43.0


From 35d117a38ca3c43538cb5100685700ce7e75b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 05/41] fix: ts: consume the whole packet when it has no
 payload

---
 ts/packet.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 3635093..250d545 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -135,6 +135,8 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		} else if err != nil {
 			return
 		}
+	} else if err = br.Skip(uint(payloadSize) * 8); err != nil {
+		return
 	}
 
 	return nil
-- 
2.43.0


From 6e3871f4d2382a8a04abfb4a50da221fd37b7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 06/41] fix: ts: report stream errors while the payload reader
 skips packets

---
 ts/payload_reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 6391af9..99e8dac 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -45,6 +45,7 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 		if r.skipUntil != nil {
 			err = r.realign()
 			if err != nil {
+				r.currentPacket = nil
 				return
 			}
 
@@ -96,7 +97,7 @@ func (r *payloadReader) next() error {
 
 func (r *payloadReader) realign() (err error) {
 	for {
-		r.next()
+		err = r.next()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 78b48519bdf1361e30bfcc9017a851eb4315bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 07/41] fix: ts: do not deliver the first packet of a payload
 reader if it does not match

---
 ts/payload_reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 99e8dac..b0b31dc 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -103,7 +103,9 @@ func (r *payloadReader) realign() (err error) {
 		}
 		done := r.skipUntil(r.currentPacket)
 		if done {
-			r.remainder.Write(r.currentPacket.Payload)
+			if r.where(r.currentPacket) {
+				r.remainder.Write(r.currentPacket.Payload)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 4b85d8035b1a838b7cd3c182c292b786ef399379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 08/41] fix: ts: end the payload reader before the first packet
 failing its take-while condition

---
 ts/payload_reader.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index b0b31dc..f65146b 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -73,18 +73,18 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		cont := r.takeWhile(r.currentPacket)
+		if cont == false {
+			r.closed = true
+			return n, io.EOF
+		}
+
 		if r.where(r.currentPacket) {
 			copied := copy(p, r.currentPacket.Payload)
 			n = n + copied
 			p = p[copied:]
 			remainder = r.currentPacket.Payload[copied:]
 		}
-
-		cont := r.takeWhile(r.currentPacket)
-		if cont == false {
-			r.closed = true
-			return n, io.EOF
-		}
 	}
 
 	_, err = r.remainder.Write(remainder)
@@ -103,6 +103,10 @@ func (r *payloadReader) realign() (err error) {
 		}
 		done := r.skipUntil(r.currentPacket)
 		if done {
+			if r.takeWhile(r.currentPacket) == false {
+				r.closed = true
+				return io.EOF
+			}
 			if r.where(r.currentPacket) {
 				r.remainder.Write(r.currentPacket.Payload)
 			}
-- 
2.43.0


From 95cd5a0dd43f3cf0ec325850b934fa6358db5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 09/41] fix: ts: deliver the last payload unit before the
 stream error

---
 ts/payload_unit_reader.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 6409600..3fd3338 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -36,6 +36,7 @@ type payloadUnitBuffer struct {
 	where          PacketTester
 	startIndicator PacketTester
 	state          streamState
+	err            error
 }
 
 func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
@@ -65,6 +66,13 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 
 func (stream *payloadUnitBuffer) fill() (n int, err error) {
 
+	// the previous unit was ended by an error
+	if stream.err != nil {
+		err, stream.err = stream.err, nil
+		stream.currentPacket = nil
+		return
+	}
+
 	// initialize
 	if stream.currentPacket == nil {
 		stream.currentPacket = new(Packet)
@@ -77,6 +85,7 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 			err = stream.next()
 			if err != nil {
+				stream.currentPacket = nil
 				return
 			}
 		}
@@ -92,8 +101,9 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 		}
 
-		err = stream.next()
-		if err != nil {
+		// an error ends the unit, and is reported after it
+		stream.err = stream.next()
+		if stream.err != nil {
 			break
 		}
 
-- 
2.43.0


From aa3e1607bcf5fa2238c348518f2039262abdf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 10/41] fix: ts: demuxer must not overwrite packets it has sent

---
 ts/demuxer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index c9d0a05..aef5ca1 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -57,7 +57,6 @@ func (tsd *Demuxer) Go() <-chan bool {
 	var skipping = true
 	var skipUntil = tsd.skipUntil
 	var takeWhile = tsd.takeWhile
-	var p = &Packet{}
 
 	go func() {
 
@@ -69,6 +68,8 @@ func (tsd *Demuxer) Go() <-chan bool {
 		}()
 
 		for {
+			// the packet is handed over to the receivers
+			var p = &Packet{}
 			err := p.Next(tsd.reader)
 
 			if err != nil {
-- 
2.43.0


From 5591458d1ca77ac3a6f492cd86ad4ba3dd85cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 11/41] fix: ts: demuxer must test the first packet it takes

---
 ts/demuxer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index aef5ca1..a325ff8 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -83,10 +83,10 @@ func (tsd *Demuxer) Go() <-chan bool {
 				} else {
 					skipping = false
 				}
-			} else {
-				if !takeWhile(p) {
-					return
-				}
+			}
+
+			if !takeWhile(p) {
+				return
 			}
 
 			for _, item := range tsd.registeredChannels {
-- 
2.43.0


From bdcbbd880ac3c25ebb58f56f363acf7060ccf706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 12/41] fix: ts: deliver the payload units of a packet channel

---
 ts/packet_channel.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ts/packet_channel.go b/ts/packet_channel.go
index caafc69..6f8dd47 100644
--- a/ts/packet_channel.go
+++ b/ts/packet_channel.go
@@ -25,18 +25,27 @@ func (input PacketChannel) PayloadUnit() <-chan []byte {
 	go func() {
 		defer close(output)
 		for packet := range input {
-			buf.Write(packet.Payload)
-
 			if packet.PayloadUnitStartIndicator {
 				if started {
 					data, err := ioutil.ReadAll(&buf)
-					if err != nil {
+					if err == nil {
 						output <- data
 					}
 				} else {
 					started = true
 				}
 			}
+
+			if started {
+				buf.Write(packet.Payload)
+			}
+		}
+
+		if started {
+			data, err := ioutil.ReadAll(&buf)
+			if err == nil {
+				output <- data
+			}
 		}
 	}()
 	return output
-- 
2.43.0


From b34dab0b4d6cd07ac05ab9c57e2f39a9147168d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 13/41] fix: pes: do not keep the header and payload of the
 previous packet

---
 pes/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 67ca412..3f922a3 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -66,6 +66,10 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 
 	reader.Skip(24)
 
+	// keep nothing of the previous packet
+	packet.Header = nil
+	packet.Payload = nil
+
 	packet.StreamID, err = reader.Read32(8)
 	if err != nil {
 		return err
-- 
2.43.0


From e7408880ba669bb3923dad4f3a10b8a903f8f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 14/41] fix: pes: consume packets of streams without a PES
 header

---
 pes/packet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 3f922a3..28ec2b3 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -110,6 +110,13 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		if err != nil {
 			return err
 		}
+	default:
+		payloadLen := int(packet.PacketLength)
+		packet.Payload = make([]byte, payloadLen)
+		_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 5db44e5d373abbf9d29dc2f184b7c38ff8e5a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 15/41] fix: pes: return an error for inconsistent lengths

---
 pes/header.go | 4 ++++
 pes/packet.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pes/header.go b/pes/header.go
index 243a9e0..0e321a8 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -166,6 +166,10 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
+	if header.HeaderDataLength < bytesRead-minimumHeaderSize {
+		return nil, 0, ErrInvalidLength
+	}
+
 	stuffingLength, err := readStuffingBytes(reader, header.HeaderDataLength-(bytesRead-minimumHeaderSize))
 	if err != nil {
 		return nil, 0, err
diff --git a/pes/packet.go b/pes/packet.go
index 28ec2b3..f02ed5b 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -13,6 +13,7 @@ var (
 	ErrStartCodePrefixNotFound = errors.New("start code prefix not found")
 	ErrMarkerNotFound          = errors.New("marker not found")
 	ErrInvalidStuffingByte     = errors.New("invalid stuffing byte")
+	ErrInvalidLength           = errors.New("invalid length")
 )
 
 // Packet is a parsed PES packet from a bitstream. A PES packet consists,
@@ -89,6 +90,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		}
 
 		if packet.PacketLength > 0 {
+			if packet.PacketLength < headerLen {
+				return ErrInvalidLength
+			}
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-- 
2.43.0


From 31008ded5e08460d5b99d1d9ee993b2e17723ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 16/41] fix: ps: store the video bound of a system header

---
 ps/system_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/system_header.go b/ps/system_header.go
index 7a50789..811f6e4 100644
--- a/ps/system_header.go
+++ b/ps/system_header.go
@@ -89,10 +89,10 @@ func readSystemHeader(r bitreader.BitReader) (*SystemHeader, error) {
 		return nil, ErrMarkerNotFound
 	}
 
-	if ab, err := r.Read32(5); err != nil {
+	if vb, err := r.Read32(5); err != nil {
 		return nil, err
 	} else {
-		systemHeader.AudioBound = ab
+		systemHeader.VideoBound = vb
 	}
 
 	if prr, err := r.Read1(); err != nil {
-- 
2.43.0


From b23ac7065233fb4823359c2574c0c542b12ec90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 17/41] fix: ps: return errors of the pack reader with the
 bytes delivered

---
 ps/pack_reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a1ddcc8..866b194 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -41,7 +41,7 @@ func (pr packreader) Read(d []byte) (int, error) {
 
 STEP:
 	if nextbits, err := pr.br.Peek32(32); err != nil {
-		return 0, nil
+		return n, err
 	} else if StartCode(nextbits) == ProgramEndCode {
 		goto PROGRAM_END
 	} else if StartCode(nextbits) == PackStartCode {
@@ -52,13 +52,13 @@ STEP:
 
 PACK:
 	if _, err := NewPackHeader(pr.br); err != nil {
-		return 0, err
+		return n, err
 	}
 
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-		return 0, nil
+		return n, err
 	} else {
 		copied := copy(d, p.Payload)
 		n += copied
-- 
2.43.0


From b3a07e3896d30b15338e00ab83667a85f2a64302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 18/41] fix: ps: accept packs without packets in the pack
 reader

---
 ps/pack_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index 866b194..9f55e52 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -55,6 +55,9 @@ PACK:
 		return n, err
 	}
 
+	// a pack may be without packets
+	goto STEP
+
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-- 
2.43.0


From 4a5f081a451a642ad86bf808b803e00a346c0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 19/41] fix: video: return errors of the coded block pattern

---
 video/macroblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index d08b6c3..75050ae 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -125,7 +125,7 @@ func (br *VideoSequence) macroblock(
 
 	if mb.macroblock_type.macroblock_pattern {
 		if cbp, err := coded_block_pattern(br, br.SequenceExtension.chroma_format); err != nil {
-			return 0, nil
+			return 0, err
 		} else {
 			mb.cbp = cbp
 		}
-- 
2.43.0


From b16c1b02f3fde69e1fa9eb047c02f45c57e33aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 20/41] fix: video: do not loop forever on an extension after a
 group of pictures header

---
 video/extension_and_user_data.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 5eae100..200ca22 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -6,7 +6,10 @@ func (br *VideoSequence) extension_and_user_data(i int) error {
 			return err
 		} else if StartCode(nextbits) != ExtensionStartCode && StartCode(nextbits) != UserDataStartCode {
 			break
-		} else if (i != 1) && (StartCode(nextbits) == ExtensionStartCode) {
+		} else if (i == 1) && (StartCode(nextbits) == ExtensionStartCode) {
+			// extension_data() never follows a group_of_pictures_header()
+			break
+		} else if StartCode(nextbits) == ExtensionStartCode {
 			if err := br.extension_data(i); err != nil {
 				return err
 			}
-- 
2.43.0


From d637fd798048f72772849e82705f99cc2ab3f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 21/41] fix: video: extension id 11 is reserved

---
 video/extension_id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/extension_id.go b/video/extension_id.go
index 83b2f52..11f47c3 100644
--- a/video/extension_id.go
+++ b/video/extension_id.go
@@ -32,7 +32,7 @@ var ErrUnexpectedExtensionID = errors.New("unexpected sequence extension id")
 func (id ExtensionID) IsReserved() bool {
 	return id == ExtensionID(0) ||
 		id == ExtensionID(6) ||
-		id > ExtensionID(11)
+		id >= ExtensionID(11)
 }
 
 // Check() returns true if the following bits in the bitstream match the expected extension id.
-- 
2.43.0


From f1bfe8a07b1ef73289f0bea4df169f31a4119ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 22/41] fix: video: transmitted quantiser matrices are in
 zigzag order

---
 video/quant_matrix_extension.go | 12 ++++++------
 video/quantisation_matrix.go    | 11 +++++++++++
 video/sequence_header.go        |  8 ++++----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index 9f22d07..e43e6e1 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -34,8 +34,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[0] = intra_quantiser_matrix
-		vs.quantisationMatricies[2] = intra_quantiser_matrix
+		vs.quantisationMatricies[0] = intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -51,8 +51,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[1] = non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = non_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -68,7 +68,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix
+		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -84,7 +84,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix
+		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix.inverseScan()
 	}
 
 	return next_start_code(vs)
diff --git a/video/quantisation_matrix.go b/video/quantisation_matrix.go
index c844061..1803107 100644
--- a/video/quantisation_matrix.go
+++ b/video/quantisation_matrix.go
@@ -2,6 +2,17 @@ package video
 
 type quantisationMatrix [8][8]uint8
 
+// inverseScan returns the matrix of values which are transmitted in zigzag scanning order. (6.3.11)
+func (m *quantisationMatrix) inverseScan() (w quantisationMatrix) {
+	for v := 0; v < 8; v++ {
+		for u := 0; u < 8; u++ {
+			n := scan[0][v][u]
+			w[v][u] = m[n/8][n%8]
+		}
+	}
+	return
+}
+
 var defaultQuantisationMatrices = struct {
 	Intra    quantisationMatrix
 	NonIntra quantisationMatrix
diff --git a/video/sequence_header.go b/video/sequence_header.go
index 705c68f..73f129b 100644
--- a/video/sequence_header.go
+++ b/video/sequence_header.go
@@ -108,16 +108,16 @@ func (vs *VideoSequence) sequence_header() (err error) {
 	}
 
 	if sh.load_intra_quantiser_matrix {
-		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix
-		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix
+		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[0] = defaultQuantisationMatrices.Intra
 		vs.quantisationMatricies[2] = defaultQuantisationMatrices.Intra
 	}
 
 	if sh.load_non_intra_quantiser_matrix {
-		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra
 		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra
-- 
2.43.0


From 0092247b9e3515ae8f5822fa663d8e0f518e77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 23/41] fix: video: return the error of a missing quant matrix
 extension id

---
 video/quant_matrix_extension.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index e43e6e1..f4a1e2c 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -19,7 +19,9 @@ package video
 //
 func (vs *VideoSequence) quant_matrix_extension() error {
 
-	QuantMatrixExtensionID.Assert(vs)
+	if err := QuantMatrixExtensionID.Assert(vs); err != nil {
+		return err
+	}
 
 	if load, err := vs.Read1(); err != nil {
 		return err
-- 
2.43.0


From da921abde72bb5b42d443410e1d0ee6cb7c1aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 24/41] fix: video: round half-sample predictions to the
 nearest integer

---
 video/motion_compensation.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 57225a2..cd132ca 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -116,15 +116,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case fState.h_half && !fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1])) / 2
+						int32(fState.channel[i+1]) + 1) / 2
 
 				case !fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+fState.stride])) / 2
+						int32(fState.channel[i+fState.stride]) + 1) / 2
 
 				case fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1])) / 4
+						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1]) + 2) / 4
 				}
 			}
 			if bState.active {
@@ -136,17 +136,17 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case bState.h_half && !bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+1])) / 2
+						int32(bState.channel[i+1]) + 1) / 2
 
 				case !bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+bState.stride])) / 2
+						int32(bState.channel[i+bState.stride]) + 1) / 2
 
 				case bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
 						int32(bState.channel[i+1]) +
 						int32(bState.channel[i+bState.stride]) +
-						int32(bState.channel[i+bState.stride+1])) / 4
+						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
 			b[v*8+u] += pel >> (samples - 1)
-- 
2.43.0


From 4354e1a2a59bff166aec26b54789d4e912100f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 25/41] fix: video: round the average of forward and backward
 predictions to the nearest integer

---
 video/motion_compensation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index cd132ca..2232a3c 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -149,7 +149,10 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
-			b[v*8+u] += pel >> (samples - 1)
+			if samples == 2 {
+				pel = (pel + 1) >> 1
+			}
+			b[v*8+u] += pel
 		}
 	}
 }
-- 
2.43.0


From 1477d891097b63bdb6a06cc1533287a500f78a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 26/41] fix: video: chrominance vectors are halved with
 truncation toward zero

---
 video/motion_compensation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 2232a3c..1a871ec 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -27,8 +27,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -69,8 +69,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
-- 
2.43.0


From 0fccfecf487c708eab972e838815b342ee10b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 27/41] fix: video: return an error for coefficients past the
 end of a block

---
 video/block.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/video/block.go b/video/block.go
index 03d2100..ca16a14 100644
--- a/video/block.go
+++ b/video/block.go
@@ -1,6 +1,10 @@
 package video
 
 import "github.com/32bitkid/bitreader"
+import "errors"
+
+// ErrInvalidRun indicates that the coefficients of a block run past its end.
+var ErrInvalidRun = errors.New("coefficients run past the end of the block")
 
 const (
 	blockSide = 8
@@ -93,6 +97,8 @@ func (QFS *block) read(br bitreader.BitReader, dcDctPredictors *dcDctPredictors,
 				QFS[n] = 0
 				n = n + 1
 			}
+		} else if n+run >= blockSize {
+			return ErrInvalidRun
 		} else {
 			for m := 0; m < run; m++ {
 				QFS[n] = 0
-- 
2.43.0


From e5998cb748f844d080a15f17978e26ec4ed2dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 28/41] fix: video: return an error for motion vectors outside
 of the reference frame

---
 video/copy_macroblocks.go    |  8 ++++++--
 video/macroblock.go          | 10 +++++++---
 video/motion_compensation.go | 25 ++++++++++++++++++++++++-
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 1e4de42..d52c7d0 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -31,16 +31,20 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 	}
 }
 
-func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) {
+func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
 	var b block
 	var cb clampedblock
 
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, fs)
+			if err := b.motion_compensation(mvd, i, mb_row, mb_addr, fs); err != nil {
+				return err
+			}
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
 	}
+
+	return nil
 }
diff --git a/video/macroblock.go b/video/macroblock.go
index 75050ae..043e542 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -52,12 +52,14 @@ func (br *VideoSequence) macroblock(
 				mb.macroblock_address_increment-1,
 				frameSlice, br.frameStore.past)
 		case BFrame:
-			bframe_copy_macroblocks(
+			if err := bframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				*mvd,
 				br.frameStore,
-				frameSlice)
+				frameSlice); err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -160,7 +162,9 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore)
+		if err := b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore); err != nil {
+			return 0, err
+		}
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 1a871ec..d5b987e 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -1,5 +1,10 @@
 package video
 
+import "errors"
+
+// ErrInvalidMotionVector indicates that a motion vector points outside of its reference frame.
+var ErrInvalidMotionVector = errors.New("motion vector outside of the reference frame")
+
 type motionCompensationState struct {
 	active  bool
 	i       int
@@ -9,7 +14,19 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) {
+// inside is true if all the samples needed for a prediction exist in the reference frame.
+func (s *motionCompensationState) inside() bool {
+	last := s.i + 7*s.stride + 7
+	if s.h_half {
+		last++
+	}
+	if s.v_half {
+		last += s.stride
+	}
+	return s.i >= 0 && last < len(s.channel)
+}
+
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) error {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -103,6 +120,10 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		fState.i += horizontal
 	}
 
+	if (bState.active && !bState.inside()) || (fState.active && !fState.inside()) {
+		return ErrInvalidMotionVector
+	}
+
 	for v := 0; v < 8; v++ {
 		for u := 0; u < 8; u++ {
 			var pel int32 = 0
@@ -155,4 +176,6 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			b[v*8+u] += pel
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From a10159105f0cbc0b90a6812c3bc72d8996731fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 29/41] fix: video: return an error for skipped macroblocks
 without a reference frame

---
 video/copy_macroblocks.go | 15 ++++++++++++++-
 video/macroblock.go       |  6 ++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index d52c7d0..c3605b1 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -1,8 +1,19 @@
 package video
 
+import "errors"
 import "image"
 
-func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
+// ErrMissingReferenceFrame indicates that the frame needed for a prediction is not available.
+var ErrMissingReferenceFrame = errors.New("missing reference frame")
+
+func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) error {
+	if src == nil ||
+		src.YStride != dest.YStride || src.CStride != dest.CStride ||
+		len(src.Y) < (row+1)*16*src.YStride ||
+		len(src.Cb) < (row+1)*8*src.CStride || len(src.Cr) < (row+1)*8*src.CStride {
+		return ErrMissingReferenceFrame
+	}
+
 	// Copy Y
 	{
 		y := row * 16
@@ -29,6 +40,8 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 			copy(dest.Cr[di:di+w], src.Cr[si:si+w])
 		}
 	}
+
+	return nil
 }
 
 func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
diff --git a/video/macroblock.go b/video/macroblock.go
index 043e542..b41e6aa 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -47,10 +47,12 @@ func (br *VideoSequence) macroblock(
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
 		case PFrame:
-			pframe_copy_macroblocks(
+			if err := pframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
-				frameSlice, br.frameStore.past)
+				frameSlice, br.frameStore.past); err != nil {
+				return 0, err
+			}
 		case BFrame:
 			if err := bframe_copy_macroblocks(
 				mb_row, mb_address+1,
-- 
2.43.0


From 15e5d573c4067fdd9a4101b9542fe1181ef255e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 30/41] fix: video: return an error for macroblocks outside of
 the picture

---
 video/macroblock.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/video/macroblock.go b/video/macroblock.go
index b41e6aa..58cdc3b 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "image"
 
+// ErrInvalidMacroblockAddress indicates that a macroblock is located outside of the picture.
+var ErrInvalidMacroblockAddress = errors.New("macroblock outside of the picture")
+
 var color_channel = [12]int{0, 0, 0, 0, 1, 2, 1, 2, 1, 2, 1, 2}
 
 type Macroblock struct {
@@ -43,6 +47,10 @@ func (br *VideoSequence) macroblock(
 		mb.macroblock_address_increment += incr
 	}
 
+	if mb_address+mb.macroblock_address_increment >= frameSlice.Rect.Dx()/16 {
+		return 0, ErrInvalidMacroblockAddress
+	}
+
 	// Copy skipped macroblocks for PFrames and BFrames
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
-- 
2.43.0


From 9fab09679c09a79137a30a739698d3940e602fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 31/41] fix: video: use the vertical position extension of
 slices

---
 video/slice.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/video/slice.go b/video/slice.go
index 0dbff54..1c50357 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -37,7 +37,14 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 	s := Slice{}
 	s.slice_start_code = StartCode(code)
 
-	mb_row := int((code & 0xFF) - 1)
+	if _, vertical_size := br.Size(); vertical_size > 2800 {
+		s.slice_vertical_position_extension, err = br.Read32(3)
+		if err != nil {
+			return err
+		}
+	}
+
+	mb_row := int((s.slice_vertical_position_extension<<7)+(code&0xFF)) - 1
 
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
@@ -48,13 +55,6 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		Rect:    image.Rect(frame.Rect.Min.X, mb_row*16, frame.Rect.Max.X, mb_row*16+16),
 	}
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
-		s.slice_vertical_position_extension, err = br.Read32(3)
-		if err != nil {
-			return err
-		}
-	}
-
 	// TODO(jh): sequence_scalable support
 	if false /* (<sequence_scalable_extension() is present in the bitstream>) */ {
 		if false /* (scalable_mode == “data partitioning” ) */ {
-- 
2.43.0


From 2aad6973e9b473b396e1865578015715f1d67344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 32/41] fix: video: return an error for slices outside of the
 picture

---
 video/slice.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/video/slice.go b/video/slice.go
index 1c50357..f60388d 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -5,6 +5,9 @@ import "image"
 
 var ErrInvalidReservedBits = errors.New("invalid reserved bits")
 
+// ErrInvalidSlicePosition indicates that a slice is located outside of the picture.
+var ErrInvalidSlicePosition = errors.New("slice outside of the picture")
+
 type Slice struct {
 	slice_start_code                  StartCode // 32 bslbf
 	slice_vertical_position_extension uint32    // 3 uimsbf
@@ -46,6 +49,10 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((s.slice_vertical_position_extension<<7)+(code&0xFF)) - 1
 
+	if mb_row*16 >= frame.Rect.Dy() {
+		return ErrInvalidSlicePosition
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
-- 
2.43.0


From da01c2f928411fe1e05e0fc90623507f6908ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 33/41] fix: video: frames of interlaced sequences have an even
 number of macroblock rows

---
 video/picture_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/video/picture_data.go b/video/picture_data.go
index e0845b7..eedc38b 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -25,6 +25,10 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
 	w, h := self.Size()
+	if self.SequenceExtension.progressive_sequence == 0 {
+		// each field is a whole number of macroblocks high (6.3.3)
+		h = (h + 31) &^ 31
+	}
 	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
 
 	for {
-- 
2.43.0


From db59881a5b43c55802b0a3b2f20978fe51b92807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 34/41] fix: video: do not decode pictures without a sequence
 extension

---
 video/frame_provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a861a8f..996c499 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -12,7 +12,7 @@ var ErrUnsupportedVideoStream_ISO_IEC_11172_2 = errors.New("unsupported video st
 // be the order they should be displayed.
 func (self *VideoSequence) step() (*image.YCbCr, error) {
 
-	if self.SequenceHeader != nil {
+	if self.SequenceHeader != nil && self.SequenceExtension != nil {
 		goto RESUME
 	}
 
-- 
2.43.0


From 9e35f53508710bb7949db429f35cd3836669f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 35/41] fix: video: return an error for invalid picture coding
 types

---
 video/macroblock.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 58cdc3b..a122444 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -6,6 +6,9 @@ import "image"
 // ErrInvalidMacroblockAddress indicates that a macroblock is located outside of the picture.
 var ErrInvalidMacroblockAddress = errors.New("macroblock outside of the picture")
 
+// ErrInvalidPictureCodingType indicates that a picture has a forbidden or reserved coding type.
+var ErrInvalidPictureCodingType = errors.New("invalid picture coding type")
+
 var color_channel = [12]int{0, 0, 0, 0, 1, 2, 1, 2, 1, 2, 1, 2}
 
 type Macroblock struct {
@@ -268,7 +271,7 @@ func (br *VideoSequence) macroblock_mode(mb *Macroblock) (err error) {
 	case BFrame:
 		typeDecoder = macroblockTypeDecoder.BFrame
 	default:
-		panic("not implemented: macroblock type decoder")
+		return ErrInvalidPictureCodingType
 	}
 
 	mb.macroblock_type, err = typeDecoder(br)
-- 
2.43.0


From 9b1a13e242862a9cd5e5cf6248b88639015eb4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 36/41] fix: video: read concealment motion vectors of pictures
 with motion types

---
 video/motion_vector_info.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 1c40173..feb1a61 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -19,6 +19,14 @@ func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
 		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
 	}
 
+	// motion types are not present for concealment motion vectors (6.3.17.1)
+	if mb.macroblock_type.macroblock_intra {
+		if fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
+			return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+	}
+
 	switch mb.frame_motion_type {
 	case 1:
 		return motionVectorInfo{2, motionVectorFormat_Field, 0}
-- 
2.43.0


From d7f0768486502df9ca48be4ce57cd0d85b0f0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 37/41] fix: video: return an error for reserved motion types

---
 video/motion_vector_info.go | 27 ++++++++++++++++-----------
 video/motion_vectors.go     |  6 +++++-
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index feb1a61..39ed67d 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -1,5 +1,10 @@
 package video
 
+import "errors"
+
+// ErrInvalidMotionType indicates that a macroblock has a reserved motion type.
+var ErrInvalidMotionType = errors.New("invalid motion type")
+
 type motionVectorFormat int
 
 const (
@@ -14,36 +19,36 @@ type motionVectorInfo struct {
 	dmv                  int
 }
 
-func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
+func mv_info(fp *VideoSequence, mb *Macroblock) (motionVectorInfo, error) {
 	if fp.PictureCodingExtension.frame_pred_frame_dct == 1 {
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	}
 
 	// motion types are not present for concealment motion vectors (6.3.17.1)
 	if mb.macroblock_type.macroblock_intra {
 		if fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
-			return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+			return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 		}
-		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}, nil
 	}
 
 	switch mb.frame_motion_type {
 	case 1:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{1, motionVectorFormat_Field, 1}, nil
 	}
 
 	switch mb.field_motion_type {
 	case 1:
-		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{1, motionVectorFormat_Field, 1}, nil
 	}
 
-	panic("invalid motion vector state")
+	return motionVectorInfo{}, ErrInvalidMotionType
 }
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 3910ce0..2a7a1ea 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -123,7 +123,11 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 
 	f_code := fp.PictureCodingExtension.f_code
 
-	mvd.info = mv_info(fp, mb)
+	info, err := mv_info(fp, mb)
+	if err != nil {
+		return err
+	}
+	mvd.info = info
 
 	motion_vector_part := func(r, s, t int) error {
 		if code, err := decodeMotionCode(fp); err != nil {
-- 
2.43.0


From 32a73b92b0c3f69cda629b5879993994e991840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 38/41] fix: video: a single motion vector updates the
 predictions of both vectors

---
 video/motion_vectors.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 2a7a1ea..f80194e 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -171,7 +171,11 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 				mvd.vertical_field_select[0][s] = val
 			}
 		}
-		return motion_vector(0, s)
+		if err := motion_vector(0, s); err != nil {
+			return err
+		}
+		// a single vector updates the predictions of both (7.6.3.3)
+		mvd.predictions[1][s] = mvd.predictions[0][s]
 	} else {
 		if val, err := fp.Read32(1); err != nil {
 			return err
-- 
2.43.0


From 880e45a0859827da4461ef7d7ad95e0b7861ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 39/41] fix: overflow in the inverse DCT of blocks with large
 coefficients

---
 video/idct.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/video/idct.go b/video/idct.go
index 7d70e37..c8b10b4 100644
--- a/video/idct.go
+++ b/video/idct.go
@@ -55,6 +55,11 @@ const (
 	r2 = 181 // 256/sqrt(2)
 )
 
+// scaleR2 divides by sqrt(2). The product does not fit in 32 bits for every block of coefficients.
+func scaleR2(x int32) int32 {
+	return int32((r2*int64(x) + 128) >> 8)
+}
+
 // idct performs a 2-D Inverse Discrete Cosine Transformation.
 //
 // The input coefficients should already have been multiplied by the
@@ -118,8 +123,7 @@ func (src *block) idct() {
 		x8 -= x3
 		x3 = x0 + x2
 		x0 -= x2
-		x2 = (r2*(x4+x5) + 128) >> 8
-		x4 = (r2*(x4-x5) + 128) >> 8
+		x2, x4 = scaleR2(x4+x5), scaleR2(x4-x5)
 
 		// Stage 4.
 		src[y8+0] = (x7 + x1) >> 8
@@ -172,8 +176,7 @@ func (src *block) idct() {
 		y8 -= y3
 		y3 = y0 + y2
 		y0 -= y2
-		y2 = (r2*(y4+y5) + 128) >> 8
-		y4 = (r2*(y4-y5) + 128) >> 8
+		y2, y4 = scaleR2(y4+y5), scaleR2(y4-y5)
 
 		// Stage 4.
 		src[8*0+x] = (y7 + y1) >> 14
-- 
2.43.0


From 3f1e116cbc8473f84ffea7729a2b1a38c759fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 40/41] fix: motion vectors pointing past the left or right of
 the frame read samples of the neighbouring row

---
 video/motion_compensation.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index d5b987e..6d35ccd 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -8,6 +8,7 @@ var ErrInvalidMotionVector = errors.New("motion vector outside of the reference
 type motionCompensationState struct {
 	active  bool
 	i       int
+	x       int
 	channel []uint8
 	stride  int
 	h_half  bool
@@ -16,14 +17,15 @@ type motionCompensationState struct {
 
 // inside is true if all the samples needed for a prediction exist in the reference frame.
 func (s *motionCompensationState) inside() bool {
-	last := s.i + 7*s.stride + 7
+	right, last := s.x+7, s.i+7*s.stride+7
 	if s.h_half {
+		right++
 		last++
 	}
 	if s.v_half {
 		last += s.stride
 	}
-	return s.i >= 0 && last < len(s.channel)
+	return s.x >= 0 && right < s.stride && s.i >= 0 && last < len(s.channel)
 }
 
 func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) error {
@@ -70,13 +72,16 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		case 0, 1, 2, 3:
 			bState.stride = image.YStride
 			bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			bState.x = (mb_addr * 16) + (i&1)<<3
 		case 4, 5:
 			bState.stride = image.CStride
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
+			bState.x = mb_addr * 8
 		}
 
 		bState.i += vertical * bState.stride
 		bState.i += horizontal
+		bState.x += horizontal
 	}
 
 	// project _past_ temporal sample _forward_...
@@ -111,13 +116,16 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		case 0, 1, 2, 3:
 			fState.stride = image.YStride
 			fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			fState.x = (mb_addr * 16) + (i&1)<<3
 		case 4, 5:
 			fState.stride = image.CStride
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
+			fState.x = mb_addr * 8
 		}
 
 		fState.i += vertical * fState.stride
 		fState.i += horizontal
+		fState.x += horizontal
 	}
 
 	if (bState.active && !bState.inside()) || (fState.active && !fState.inside()) {
-- 
2.43.0


From 7f42f9e9a2f78f7b39e66a424c913299ff009e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 41/41] fix: ts, pes, ps: deliver data before the error that
 ends it

---
 pes/payload_reader.go     | 16 +++++++++++++++-
 ps/pack_reader.go         | 16 +++++++++++++++-
 ts/payload_reader.go      | 16 +++++++++++++++-
 ts/payload_unit_reader.go | 16 +++++++++++++++-
 4 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index ac2fec2..a07551d 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -16,9 +16,23 @@ type payloadReader struct {
 	br            bitreader.BitReader
 	currentPacket *Packet
 	remainder     bytes.Buffer
+	err           error // reported by the next Read
 }
 
-func (r *payloadReader) Read(p []byte) (n int, err error) {
+// Read delivers data before the error that ends it: readers of bits discard what comes along with an error.
+func (r *payloadReader) Read(p []byte) (int, error) {
+	if err := r.err; err != nil {
+		r.err = nil
+		return 0, err
+	}
+	n, err := r.read(p)
+	if n > 0 && err != nil {
+		r.err, err = err, nil
+	}
+	return n, err
+}
+
+func (r *payloadReader) read(p []byte) (n int, err error) {
 	// Drain remainder
 	for len(p) > 0 {
 		cn, err := r.remainder.Read(p)
diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index 9f55e52..7ee96fa 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -13,6 +13,7 @@ import (
 type packreader struct {
 	br        bitreader.BitReader
 	remainder *bytes.Buffer
+	err       error // reported by the next Read
 }
 
 func NewPackReader(r io.Reader) io.Reader {
@@ -22,7 +23,20 @@ func NewPackReader(r io.Reader) io.Reader {
 	}
 }
 
-func (pr packreader) Read(d []byte) (int, error) {
+// Read delivers data before the error that ends it: readers of bits discard what comes along with an error.
+func (pr *packreader) Read(d []byte) (int, error) {
+	if err := pr.err; err != nil {
+		pr.err = nil
+		return 0, err
+	}
+	n, err := pr.read(d)
+	if n > 0 && err != nil {
+		pr.err, err = err, nil
+	}
+	return n, err
+}
+
+func (pr packreader) read(d []byte) (int, error) {
 	n := 0
 
 	// DRAIN buffer
diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index f65146b..8bece54 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -24,6 +24,7 @@ type payloadReader struct {
 	takeWhile     PacketTester
 	remainder     bytes.Buffer
 	closed        bool
+	err           error // reported by the next Read
 }
 
 func (r *payloadReader) SkipUntil(skipUntil PacketTester) {
@@ -34,7 +35,20 @@ func (r *payloadReader) TakeWhile(takeWhile PacketTester) {
 	r.takeWhile = takeWhile
 }
 
-func (r *payloadReader) Read(p []byte) (n int, err error) {
+// Read delivers data before the error that ends it: readers of bits discard what comes along with an error.
+func (r *payloadReader) Read(p []byte) (int, error) {
+	if err := r.err; err != nil {
+		r.err = nil
+		return 0, err
+	}
+	n, err := r.read(p)
+	if n > 0 && err != nil {
+		r.err, err = err, nil
+	}
+	return n, err
+}
+
+func (r *payloadReader) read(p []byte) (n int, err error) {
 
 	if r.closed == true {
 		return 0, io.EOF
diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 3fd3338..06b7ba6 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -37,9 +37,23 @@ type payloadUnitBuffer struct {
 	startIndicator PacketTester
 	state          streamState
 	err            error
+	pending        error // reported by the next Read
 }
 
-func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
+// Read delivers data before the error that ends it: readers of bits discard what comes along with an error.
+func (stream *payloadUnitBuffer) Read(p []byte) (int, error) {
+	if err := stream.pending; err != nil {
+		stream.pending = nil
+		return 0, err
+	}
+	n, err := stream.read(p)
+	if n > 0 && err != nil {
+		stream.pending, err = err, nil
+	}
+	return n, err
+}
+
+func (stream *payloadUnitBuffer) read(p []byte) (n int, err error) {
 	if stream.state == drained {
 		_, ferr := stream.fill()
 		if ferr != nil {
-- 
2.43.0

