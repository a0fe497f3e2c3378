From 0861138e29c0de623e97760607628befca59e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 01/45] fix: do not lose bytes that a source returns together
 with an error

An io.Reader may return n > 0 along with io.EOF. bitreader drops those
bytes, so the tail of a stream went missing for such sources.
---
 internal/bitsource/bitsource.go | 36 +++++++++++++++++++++++++++++++++
 pes/payload_reader.go           |  3 ++-
 ps/pack_reader.go               |  3 ++-
 ts/demuxer.go                   |  3 ++-
 ts/payload_reader.go            |  3 ++-
 ts/payload_unit_reader.go       |  3 ++-
 video/video_sequence.go         |  3 ++-
 7 files changed, 48 insertions(+), 6 deletions(-)
 create mode 100644 internal/bitsource/bitsource.go

diff --git a/internal/bitsource/bitsource.go b/internal/bitsource/bitsource.go
new file mode 100644
index 0000000..fcc17e8
--- /dev/null
+++ b/internal/bitsource/bitsource.go
@@ -0,0 +1,36 @@
+// Package bitsource adapts io.Readers to the bit readers used by the parsers.
+package bitsource
+
+import "io"
+import "github.com/32bitkid/bitreader"
+
+// NewBitReader creates a BitReader that reads from r.
+//
+// An io.Reader is allowed to return its last bytes together with an error (usually
+// io.EOF), but a BitReader discards any bytes that come with an error. Hold such an
+// error back until the bytes that came with it have been consumed.
+func NewBitReader(r io.Reader) bitreader.BitReader {
+	return bitreader.NewReader(&reader{r: r})
+}
+
+type reader struct {
+	r   io.Reader
+	err error
+}
+
+func (s *reader) Read(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+
+	if s.err != nil {
+		err, s.err = s.err, nil
+		return 0, err
+	}
+
+	n, err = s.r.Read(p)
+	if n > 0 && err != nil {
+		s.err, err = err, nil
+	}
+	return n, err
+}
diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index ac2fec2..4e31df8 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -3,11 +3,12 @@ package pes
 import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bitsource"
 
 // NewPayloadReader creates a new reader that provides only Payload bytes from the source PES stream
 func NewPayloadReader(source io.Reader) io.Reader {
 	return &payloadReader{
-		br:            bitreader.NewReader(source),
+		br:            bitsource.NewBitReader(source),
 		currentPacket: new(Packet),
 	}
 }
diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a1ddcc8..1de18cd 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -7,6 +7,7 @@ import (
 
 import (
 	"github.com/32bitkid/bitreader"
+	"github.com/32bitkid/mpeg/internal/bitsource"
 	"github.com/32bitkid/mpeg/pes"
 )
 
@@ -17,7 +18,7 @@ type packreader struct {
 
 func NewPackReader(r io.Reader) io.Reader {
 	return &packreader{
-		br:        bitreader.NewReader(r),
+		br:        bitsource.NewBitReader(r),
 		remainder: &bytes.Buffer{},
 	}
 }
diff --git a/ts/demuxer.go b/ts/demuxer.go
index c9d0a05..0be6ff1 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -1,12 +1,13 @@
 package ts
 
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bitsource"
 import "io"
 
 // Creates a new MPEG-2 Transport Stream Demultiplexer
 func NewDemuxer(reader io.Reader) *Demuxer {
 	return &Demuxer{
-		reader:    bitreader.NewReader(reader),
+		reader:    bitsource.NewBitReader(reader),
 		skipUntil: alwaysTrueTester,
 		takeWhile: alwaysTrueTester,
 	}
diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 6391af9..780c3cb 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -3,12 +3,13 @@ package ts
 import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bitsource"
 
 // NewPayloadReader takes a transport stream and creates a reader
 // that delivers just the packet payload bytes.
 func NewPayloadReader(source io.Reader, where PacketTester) StreamControlReader {
 	return &payloadReader{
-		br:        bitreader.NewReader(source),
+		br:        bitsource.NewBitReader(source),
 		where:     where,
 		closed:    false,
 		skipUntil: nil,
diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 6409600..9b06e52 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -4,6 +4,7 @@ import "io"
 import "bytes"
 import "errors"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bitsource"
 
 // EOP is the error returned by Read when the current payload unit
 // has been completed. The Readonly only returns EOP only to
@@ -22,7 +23,7 @@ const (
 // packets match the packet tester.
 func NewPayloadUnitReader(source io.Reader, where PacketTester) io.Reader {
 	return &payloadUnitBuffer{
-		br:             bitreader.NewReader(source),
+		br:             bitsource.NewBitReader(source),
 		where:          where,
 		startIndicator: where.And(IsPayloadUnitStart),
 		state:          drained,
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 1881464..41fcae4 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -3,6 +3,7 @@ package video
 import "io"
 import "image"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bitsource"
 
 type sequenceHeaders struct {
 	*SequenceHeader
@@ -28,7 +29,7 @@ type VideoSequence struct {
 
 func NewVideoSequence(r io.Reader) *VideoSequence {
 	return &VideoSequence{
-		BitReader: bitreader.NewReader(r),
+		BitReader: bitsource.NewBitReader(r),
 	}
 }
 
-- 
2.43.0


From 0e7b970fde4b6aac4a6a2952d35518032325baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 02/45] fix: ts: a reused Packet kept the previous packet's
 payload

Packets without a payload or an adaptation field, e.g. the ones that
only carry a PCR, were left with those of the packet parsed before them,
so the payload readers delivered that payload twice.
---
 ts/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1cbcf92..6693cc7 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -60,6 +60,10 @@ func NewPacket(br bitreader.BitReader) (packet *Packet, err error) {
 //  Read the next packet from the bit stream into an existing Packet.
 func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 
+	// Not every packet has these, don't keep those of the previous packet.
+	packet.AdaptationField = nil
+	packet.Payload = nil
+
 	aligned, err := isAligned(br)
 	if err != nil {
 		return
-- 
2.43.0


From e947deac254f291fd1c97d2b4c7031e6167cb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 03/45] fix: ts: consume all of a packet that has no payload

A packet is always 188 bytes. Packets marked as having neither a payload
nor an adaptation field, or whose adaptation field is too short to fill
them, were left partly unread, and the rest was searched for a sync byte
as if it were the next packet.
---
 ts/packet.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 6693cc7..d0911ab 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -137,6 +137,11 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		} else if err != nil {
 			return
 		}
+	} else if payloadSize > 0 {
+		// No payload, but the packet still takes up all of its 188 bytes.
+		if err = br.Skip(uint(payloadSize) * 8); err != nil {
+			return
+		}
 	}
 
 	return nil
-- 
2.43.0


From 335ff4462e8fd022886ab5419f6cde8c3957984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 04/45] fix: ts: find the sync byte one whole packet away

When only the sync byte of a packet is damaged, the next one is exactly
188 bytes further. The search stopped right before looking at it and
gave up with ErrNoSyncByte.
---
 ts/packet.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ts/packet.go b/ts/packet.go
index d0911ab..400378e 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -165,7 +165,8 @@ func realign(br bitreader.BitReader) error {
 		br.Align()
 	}
 
-	for i := 0; i < 188; i++ {
+	// The sync byte of the next packet is at most one whole packet away.
+	for i := 0; i <= 188; i++ {
 		val, err := br.Peek32(8)
 		if err != nil {
 			return err
@@ -173,6 +174,9 @@ func realign(br bitreader.BitReader) error {
 		if val == SyncByte {
 			return nil
 		}
+		if i == 188 {
+			break
+		}
 		if err := br.Skip(8); err != nil {
 			return err
 		}
-- 
2.43.0


From 045323b9433bae3bae7c53655421d4802c589ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 05/45] fix: ts: reject adaptation fields that do not fit

The lengths of an adaptation field, its private data and its extension
were trusted: a damaged one made the payload size or the remaining length
wrap around, which panicked or tried to read gigabytes.
---
 ts/adaptation_field.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 80430d5..4447c34 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"errors"
 	"io"
 
 	"github.com/32bitkid/bitreader"
@@ -18,18 +19,25 @@ const (
 	FieldThenPayload                        // 0b11
 )
 
+// ErrInvalidAdaptationField is the error returned if an adaptation field, or one of its parts,
+// claims to be longer than what contains it.
+var ErrInvalidAdaptationField = errors.New("invalid adaptation field")
+
 type TransportPrivateData struct {
 	// length of the transport private data section excludes the length byte
 	length uint32
 	data   []byte
 }
 
-func newTransportPrivateData(br bitreader.BitReader) (*TransportPrivateData, uint32, error) {
+func newTransportPrivateData(br bitreader.BitReader, available uint32) (*TransportPrivateData, uint32, error) {
 	tpd := TransportPrivateData{}
 	var err error
 	if tpd.length, err = br.Read32(8); err != nil {
 		return nil, 0, err
 	}
+	if tpd.length+1 > available {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 	if tpd.length > 0 {
 		tpd.data = make([]byte, tpd.length)
 		_, err = io.ReadFull(br, tpd.data)
@@ -58,12 +66,15 @@ type AdaptationExt struct {
 	length uint32
 }
 
-func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
+func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt, uint32, error) {
 	ae := AdaptationExt{}
 	var err error
 	if ae.length, err = br.Read32(8); err != nil {
 		return nil, 0, err
 	}
+	if ae.length+1 > available {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 	remainLength := ae.length
 
 	if remainLength >= 1 {
@@ -152,6 +163,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 	if err != nil {
 		return nil, 0, err
 	}
+	if remainLength+1 > MaxPayloadSize {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 
 	// parse the adaptation field flags
 	if remainLength >= 1 {
@@ -220,7 +234,7 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 
 	if remainLength >= 1 && af.TransportPrivateDataFlag {
 		var length uint32
-		if af.TransportPrivateData, length, err = newTransportPrivateData(br); err != nil {
+		if af.TransportPrivateData, length, err = newTransportPrivateData(br, remainLength); err != nil {
 			return nil, 0, err
 		}
 		remainLength -= length + 1
@@ -228,7 +242,7 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 
 	if remainLength >= 2 && af.AdaptationFieldExtensionFlag {
 		var length uint32
-		if af.AdapatationExtension, length, err = newAdaptationExt(br); err != nil {
+		if af.AdapatationExtension, length, err = newAdaptationExt(br, remainLength); err != nil {
 			return nil, 0, err
 		}
 		remainLength -= length + 1
-- 
2.43.0


From f33a0e384aa5e3fa31a3c31f580072b891304240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 06/45] fix: ts: consume all of an adaptation field extension

The reserved bytes at the end of an extension, and the last marker bit of
a seamless splice, were not consumed. The payload then started early, with
bytes of the adaptation field, and lost as many at its end.
---
 ts/adaptation_field.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 4447c34..49be337 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -128,6 +128,15 @@ func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt,
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
+		remainLength -= 5
+	}
+
+	// skip the reserved bytes
+	if err = br.Skip(uint(remainLength) * 8); err != nil {
+		return nil, 0, err
 	}
 
 	return &ae, ae.length, nil
-- 
2.43.0


From c2cfd71d8a8069d14b58cc4b823315060c04a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 07/45] fix: ts: report errors while skipping bits of an
 adaptation field

An error of the source at these points was dropped, and the fields after
it were read from the wrong place.
---
 ts/adaptation_field.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 49be337..01bc39a 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -87,7 +87,9 @@ func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt,
 		if ae.SeamlessSpliceFlag, err = br.Read1(); err != nil {
 			return nil, 0, err
 		}
-		br.Skip(5)
+		if err = br.Skip(5); err != nil {
+			return nil, 0, err
+		}
 		remainLength--
 	}
 
@@ -102,7 +104,9 @@ func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt,
 	}
 
 	if remainLength >= 3 && ae.PiecewiseRateFlag {
-		br.Skip(2)
+		if err = br.Skip(2); err != nil {
+			return nil, 0, err
+		}
 		if ae.PiecewiseRate, err = br.Read32(22); err != nil {
 			return nil, 0, err
 		}
@@ -118,12 +122,16 @@ func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt,
 			return nil, 0, err
 		}
 		ae.DTSNextAU = v << 30
-		br.Skip(1)
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
 		if v, err = br.Read64(15); err != nil {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v << 15
-		br.Skip(1)
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
 		if v, err = br.Read64(15); err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From a6e055c12941329d6e6e12f337366c9b391de3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 08/45] fix: ts: do not overwrite packets that the demuxer has
 delivered

The demuxer parsed every packet into the same Packet, so a packet changed
under its receivers as soon as the next one was read.
---
 ts/demuxer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index 0be6ff1..1be95ba 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -58,7 +58,6 @@ func (tsd *Demuxer) Go() <-chan bool {
 	var skipping = true
 	var skipUntil = tsd.skipUntil
 	var takeWhile = tsd.takeWhile
-	var p = &Packet{}
 
 	go func() {
 
@@ -70,6 +69,8 @@ func (tsd *Demuxer) Go() <-chan bool {
 		}()
 
 		for {
+			// Receivers hold on to the packets they get: each needs its own.
+			var p = &Packet{}
 			err := p.Next(tsd.reader)
 
 			if err != nil {
-- 
2.43.0


From ecdef9979c785eade6e24f073d2b40de2f750bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 09/45] fix: ts: payload reader hung skipping to the end of its
 input

The error was ignored while skipping, so a SkipUntil condition that is
never met, or a source that failed, made Read spin forever.
---
 ts/payload_reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 780c3cb..58440f5 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -46,6 +46,7 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 		if r.skipUntil != nil {
 			err = r.realign()
 			if err != nil {
+				r.currentPacket = nil // keep skipping if read again
 				return
 			}
 
@@ -97,7 +98,7 @@ func (r *payloadReader) next() error {
 
 func (r *payloadReader) realign() (err error) {
 	for {
-		r.next()
+		err = r.next()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f47ef955605247910d73e3007cf85a6498f48c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 10/45] fix: ts: payload reader delivered the packet that ended
 skipping

even if it is not one of the packets that the reader was asked for.
---
 ts/payload_reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 58440f5..ccbc799 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -104,7 +104,9 @@ func (r *payloadReader) realign() (err error) {
 		}
 		done := r.skipUntil(r.currentPacket)
 		if done {
-			r.remainder.Write(r.currentPacket.Payload)
+			if r.where(r.currentPacket) {
+				r.remainder.Write(r.currentPacket.Payload)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 1540fbbf490a7c3702e212ab2e8b27dec6b79857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 11/45] fix: ts: payload reader delivered part of the packet
 that ends it

The packet that fails the TakeWhile condition was delivered as far as it
fitted the buffer of that Read, so the data depended on the buffer sizes.
Stop before it, like the demuxer does.
---
 ts/payload_reader.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index ccbc799..8c7492c 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -74,18 +74,18 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		cont := r.takeWhile(r.currentPacket)
+		if cont == false {
+			r.closed = true
+			return n, io.EOF
+		}
+
 		if r.where(r.currentPacket) {
 			copied := copy(p, r.currentPacket.Payload)
 			n = n + copied
 			p = p[copied:]
 			remainder = r.currentPacket.Payload[copied:]
 		}
-
-		cont := r.takeWhile(r.currentPacket)
-		if cont == false {
-			r.closed = true
-			return n, io.EOF
-		}
 	}
 
 	_, err = r.remainder.Write(remainder)
-- 
2.43.0


From 57d7c53e0fa15afd1c86c3add033fd3a81b34e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 12/45] fix: ts: payload unit reader lost the last unit, and
 repeated bytes after an error

---
 ts/payload_unit_reader.go | 48 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 9b06e52..7a34b69 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -37,13 +37,20 @@ type payloadUnitBuffer struct {
 	where          PacketTester
 	startIndicator PacketTester
 	state          streamState
+	open           bool  // in a unit whose end has not been reported yet
+	buffered       bool  // currentPacket has already been added to buffer
+	fillErr        error // what ended the last fill
 }
 
 func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+
 	if stream.state == drained {
-		_, ferr := stream.fill()
-		if ferr != nil {
-			return 0, ferr
+		_, stream.fillErr = stream.fill()
+		if !stream.open {
+			return 0, stream.fillErr
 		}
 		stream.state = ready
 	}
@@ -55,6 +62,10 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 
 		if rerr == io.EOF {
 			stream.state = drained
+			if stream.fillErr != nil && stream.fillErr != io.EOF {
+				return n, stream.fillErr
+			}
+			stream.open = false
 			return n, EOP
 		} else if rerr != nil {
 			return n, rerr
@@ -69,24 +80,27 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 	// initialize
 	if stream.currentPacket == nil {
 		stream.currentPacket = new(Packet)
+		stream.buffered = true
+	}
 
-		// step until first start indicator
-		for {
-			isStart := stream.startIndicator(stream.currentPacket)
-			if isStart {
-				break
-			}
-			err = stream.next()
-			if err != nil {
-				return
-			}
+	// step until first start indicator
+	for !stream.open {
+		isStart := !stream.buffered && stream.startIndicator(stream.currentPacket)
+		if isStart {
+			stream.open = true
+			break
+		}
+		err = stream.next()
+		if err != nil {
+			return
 		}
 	}
 
 	// Read until next start indicator
 	for {
-		if stream.where(stream.currentPacket) {
-			cn, err := stream.buffer.Write(stream.currentPacket.Payload)
+		if !stream.buffered && stream.where(stream.currentPacket) {
+			var cn int
+			cn, err = stream.buffer.Write(stream.currentPacket.Payload)
 			n += cn
 			if err != nil {
 				break
@@ -107,5 +121,7 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 }
 
 func (stream *payloadUnitBuffer) next() error {
-	return stream.currentPacket.Next(stream.br)
+	err := stream.currentPacket.Next(stream.br)
+	stream.buffered = err != nil
+	return err
 }
-- 
2.43.0


From 731c5092c141898ce831bfc55089e47a0359a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 13/45] fix: ts: PayloadUnit channel never delivered a unit

---
 ts/packet_channel.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ts/packet_channel.go b/ts/packet_channel.go
index caafc69..f64ba98 100644
--- a/ts/packet_channel.go
+++ b/ts/packet_channel.go
@@ -1,7 +1,6 @@
 package ts
 
 import "bytes"
-import "io/ioutil"
 
 // PacketChannel is a delivery channel of TS Packets
 type PacketChannel <-chan *Packet
@@ -18,6 +17,9 @@ func (input PacketChannel) PayloadOnly() <-chan []byte {
 	return output
 }
 
+// PayloadUnit transforms a PacketChannel into a delivery channel of payload
+// units: the payload from one unit start indicator up to the next one, or up to
+// the end of the input. Anything before the first unit start is discarded.
 func (input PacketChannel) PayloadUnit() <-chan []byte {
 	var buf bytes.Buffer
 	output := make(chan []byte)
@@ -25,19 +27,29 @@ func (input PacketChannel) PayloadUnit() <-chan []byte {
 	go func() {
 		defer close(output)
 		for packet := range input {
-			buf.Write(packet.Payload)
-
 			if packet.PayloadUnitStartIndicator {
 				if started {
-					data, err := ioutil.ReadAll(&buf)
-					if err != nil {
-						output <- data
-					}
+					output <- takeBytes(&buf)
 				} else {
 					started = true
 				}
 			}
+
+			if started {
+				buf.Write(packet.Payload)
+			}
+		}
+
+		if started {
+			output <- takeBytes(&buf)
 		}
 	}()
 	return output
 }
+
+// takeBytes empties buf into a slice that is not used by anyone else.
+func takeBytes(buf *bytes.Buffer) []byte {
+	data := append([]byte{}, buf.Bytes()...)
+	buf.Reset()
+	return data
+}
-- 
2.43.0


From 49e5b429fb25a059d9f7e429fe7f333849821a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 14/45] fix: pes: skip optional header fields instead of
 panicking

---
 pes/extension.go | 28 +++++++++++++++++++++++++---
 pes/header.go    | 25 ++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 4689133..a7fd4d0 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -58,11 +58,21 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.PackHeaderFieldFlag {
-		panic("pack header field")
+		length, err := r.Read32(8)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	if extension.ProgramPacketSequenceCounterFlag {
-		panic("program packet sequence counter")
+		if err = r.Skip(2 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if extension.P_STD_BufferFlag {
@@ -83,7 +93,19 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		panic("extension 2")
+		if v, err := r.Read32(1); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
+			return nil, 0, ErrMarkerNotFound
+		}
+		length, err := r.Read32(7)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	return &extension, bytesRead, nil
diff --git a/pes/header.go b/pes/header.go
index 243a9e0..85f1475 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -136,23 +136,38 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 	}
 
 	if header.EscrFlag {
-		panic("escr")
+		if err = reader.Skip(6 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 6
 	}
 
 	if header.EsRateFlag {
-		panic("es rate")
+		if err = reader.Skip(3 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 3
 	}
 
 	if header.DsmTrickModeFlag {
-		panic("dsm trick mode")
+		if err = reader.Skip(1 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.AdditionalCopyInfoFlag {
-		panic("additional copy info")
+		if err = reader.Skip(1 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.CrcFlag {
-		panic("crc flag")
+		if err = reader.Skip(2 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if header.ExtensionFlag {
-- 
2.43.0


From 4bdced35cdf9ac74a456b855b4c2794353c27e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 15/45] fix: pes: report read errors in a header as what they
 are

---
 pes/extension.go |  4 +++-
 pes/header.go    | 25 ++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index a7fd4d0..c588758 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -76,7 +76,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.P_STD_BufferFlag {
-		if v, err := r.Read32(2); v != 1 || err != nil {
+		if v, err := r.Read32(2); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 
diff --git a/pes/header.go b/pes/header.go
index 85f1475..4368208 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -31,7 +31,10 @@ type Header struct {
 func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 
 	val, err := reader.Read32(2)
-	if val != 2 || err != nil {
+	if err != nil {
+		return nil, 0, err
+	}
+	if val != 2 {
 		return nil, 0, ErrMarkerNotFound
 	}
 
@@ -213,7 +216,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	)
 
 	val, err = reader.Read32(4)
-	if val != marker || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != marker {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -225,7 +231,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 30)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -237,7 +246,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 15)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -249,7 +261,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | val
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
-- 
2.43.0


From c28d2b70919ab79f86d375a7168ce760574ba84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 16/45] fix: pes: reject headers that are longer than their own
 lengths

---
 pes/header.go | 4 ++++
 pes/packet.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pes/header.go b/pes/header.go
index 4368208..9f63d0c 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -184,6 +184,10 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
+	if bytesRead-minimumHeaderSize > header.HeaderDataLength {
+		return nil, 0, ErrInvalidLength
+	}
+
 	stuffingLength, err := readStuffingBytes(reader, header.HeaderDataLength-(bytesRead-minimumHeaderSize))
 	if err != nil {
 		return nil, 0, err
diff --git a/pes/packet.go b/pes/packet.go
index 67ca412..c20bb1b 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -13,6 +13,7 @@ var (
 	ErrStartCodePrefixNotFound = errors.New("start code prefix not found")
 	ErrMarkerNotFound          = errors.New("marker not found")
 	ErrInvalidStuffingByte     = errors.New("invalid stuffing byte")
+	ErrInvalidLength           = errors.New("invalid length")
 )
 
 // Packet is a parsed PES packet from a bitstream. A PES packet consists,
@@ -85,6 +86,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		}
 
 		if packet.PacketLength > 0 {
+			if headerLen > packet.PacketLength {
+				return ErrInvalidLength
+			}
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-- 
2.43.0


From 4905634f7fbf9a1d2cfddfdf942e08fe772533cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 17/45] fix: pes: a reused Packet kept the previous packet's
 payload

---
 pes/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index c20bb1b..fc1f408 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -50,6 +50,10 @@ func NewPacket(br bitreader.BitReader) (packet *Packet, err error) {
 // Next reads the next packet from the bitstream
 func (packet *Packet) Next(reader bitreader.BitReader) error {
 
+	// Not every packet has these, don't keep those of the previous packet.
+	packet.Header = nil
+	packet.Payload = nil
+
 	var (
 		val uint32
 		err error
-- 
2.43.0


From c0c7b7da4fd616d41ac36f0b8c0e7f530604a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 18/45] fix: pes: consume the data of packets without a header

---
 pes/packet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index fc1f408..45d3469 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -114,6 +114,13 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		if err != nil {
 			return err
 		}
+	default:
+		// Everything else is nothing but data
+		packet.Payload = make([]byte, packet.PacketLength)
+		_, err = io.ReadFull(reader, packet.Payload)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From f034a334635aeeb232edb7b552f2278047b51355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 19/45] fix: pes: the end of input inside a packet is
 unexpected

---
 pes/packet.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pes/packet.go b/pes/packet.go
index 45d3469..a008972 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -48,16 +48,13 @@ func NewPacket(br bitreader.BitReader) (packet *Packet, err error) {
 }
 
 // Next reads the next packet from the bitstream
-func (packet *Packet) Next(reader bitreader.BitReader) error {
+func (packet *Packet) Next(reader bitreader.BitReader) (err error) {
 
 	// Not every packet has these, don't keep those of the previous packet.
 	packet.Header = nil
 	packet.Payload = nil
 
-	var (
-		val uint32
-		err error
-	)
+	var val uint32
 
 	val, err = reader.Peek32(24)
 
@@ -69,6 +66,13 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		return ErrStartCodePrefixNotFound
 	}
 
+	// From here on the input ends in the middle of a packet.
+	defer func() {
+		if err == io.EOF || err == ts.EOP {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	reader.Skip(24)
 
 	packet.StreamID, err = reader.Read32(8)
-- 
2.43.0


From aff79748aff48ffa193950946be99fd6c4d7060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 20/45] fix: pes: payload reader stopped after each payload
 unit

---
 pes/payload_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index 4e31df8..026129d 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -4,6 +4,7 @@ import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
 import "github.com/32bitkid/mpeg/internal/bitsource"
+import "github.com/32bitkid/mpeg/ts"
 
 // NewPayloadReader creates a new reader that provides only Payload bytes from the source PES stream
 func NewPayloadReader(source io.Reader) io.Reader {
@@ -38,6 +39,10 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	// Fill from packet stream
 	for len(p) > 0 {
 		err := r.currentPacket.Next(r.br)
+		if err == ts.EOP {
+			// The end of a payload unit between two packets
+			continue
+		}
 		if err != nil {
 			return n, err
 		}
-- 
2.43.0


From c2bbb379021fde7d5b63ea4ea6354459e60071c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 21/45] fix: ps: pack reader hid errors, and lost what it had
 read before them

---
 ps/pack_reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index 1de18cd..ceb4da3 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -42,7 +42,7 @@ func (pr packreader) Read(d []byte) (int, error) {
 
 STEP:
 	if nextbits, err := pr.br.Peek32(32); err != nil {
-		return 0, nil
+		return n, err
 	} else if StartCode(nextbits) == ProgramEndCode {
 		goto PROGRAM_END
 	} else if StartCode(nextbits) == PackStartCode {
@@ -53,13 +53,13 @@ STEP:
 
 PACK:
 	if _, err := NewPackHeader(pr.br); err != nil {
-		return 0, err
+		return n, err
 	}
 
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-		return 0, nil
+		return n, err
 	} else {
 		copied := copy(d, p.Payload)
 		n += copied
-- 
2.43.0


From 4506103b242022afb447e5e7a89a2739cdd89d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 22/45] fix: ps: pack reader took what follows an empty pack
 for a packet

---
 ps/pack_reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index ceb4da3..68bf64d 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -55,6 +55,7 @@ PACK:
 	if _, err := NewPackHeader(pr.br); err != nil {
 		return n, err
 	}
+	goto STEP // a pack may be empty
 
 MORE_PACKETS:
 
-- 
2.43.0


From 79826618ad38843a3f05bce730c7129f515350e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 23/45] fix: ps: report errors while skipping pack stuffing

---
 ps/pack_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ps/pack_header.go b/ps/pack_header.go
index d34cc29..424e2b6 100644
--- a/ps/pack_header.go
+++ b/ps/pack_header.go
@@ -97,7 +97,9 @@ func NewPackHeader(r bitreader.BitReader) (*PackHeader, error) {
 		return nil, err
 	} else {
 		for pack_stuffing_length > 0 {
-			r.Skip(8) // stuffing_byte
+			if err := r.Skip(8); err != nil { // stuffing_byte
+				return nil, err
+			}
 			pack_stuffing_length--
 		}
 	}
-- 
2.43.0


From 0ff11975c941e45396bb79dc52c7d300eca62607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 24/45] fix: ps: video bound overwrote the audio bound

---
 ps/system_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/system_header.go b/ps/system_header.go
index 7a50789..811f6e4 100644
--- a/ps/system_header.go
+++ b/ps/system_header.go
@@ -89,10 +89,10 @@ func readSystemHeader(r bitreader.BitReader) (*SystemHeader, error) {
 		return nil, ErrMarkerNotFound
 	}
 
-	if ab, err := r.Read32(5); err != nil {
+	if vb, err := r.Read32(5); err != nil {
 		return nil, err
 	} else {
-		systemHeader.AudioBound = ab
+		systemHeader.VideoBound = vb
 	}
 
 	if prr, err := r.Read1(); err != nil {
-- 
2.43.0


From 5d3dfa37373cf02ce434d8a9191ab6c719596b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 25/45] fix: ps: decoder hid errors in the packets of a pack

---
 ps/decoder.go | 5 +++++
 ps/pack.go    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/ps/decoder.go b/ps/decoder.go
index 1f7aeb5..80664bd 100644
--- a/ps/decoder.go
+++ b/ps/decoder.go
@@ -33,6 +33,11 @@ func (d *decoder) Go() <-chan bool {
 
 			<-packComplete
 
+			if pack.err != nil {
+				d.err = pack.err
+				return
+			}
+
 			if nextbits, err := d.r.Peek32(32); err != nil {
 				d.err = err
 				return
diff --git a/ps/pack.go b/ps/pack.go
index a5c9945..2dd3e05 100644
--- a/ps/pack.go
+++ b/ps/pack.go
@@ -6,6 +6,7 @@ import "github.com/32bitkid/mpeg/pes"
 type Pack struct {
 	*PackHeader
 	packs chan *pes.Packet
+	err   error // why reading packets stopped, once they are all delivered
 }
 
 func (p *Pack) Packets() pes.PacketChannel {
@@ -35,18 +36,21 @@ func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
 		for true {
 
 			if nextbits, err := r.Peek32(24); err != nil {
+				pack.err = err
 				return
 			} else if nextbits != StartCodePrefix {
 				break
 			}
 
 			if nextbits, err := r.Peek32(32); err != nil {
+				pack.err = err
 				return
 			} else if StartCode(nextbits) == PackStartCode || StartCode(nextbits) == ProgramEndCode {
 				return
 			}
 
 			if packet, err := pes.NewPacket(r); err != nil {
+				pack.err = err
 				return
 			} else {
 				pack.packs <- packet
-- 
2.43.0


From b8e08499b49f6efc1a38206fa8ca3095c304aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 26/45] fix: video: picture extensions that do not affect
 decoding panicked, and scalable streams

---
 video/extension_and_user_data.go     | 38 +++++++++++++++++-----------
 video/sequence_scalable_extension.go |  4 +--
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 5eae100..f69724a 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -1,5 +1,11 @@
 package video
 
+import "errors"
+
+// ErrUnsupportedScalability indicates that the video stream uses one of the scalable modes, which
+// are not supported.
+var ErrUnsupportedScalability = errors.New("unsupported scalable video stream")
+
 func (br *VideoSequence) extension_and_user_data(i int) error {
 	for {
 		if nextbits, err := br.Peek32(32); err != nil {
@@ -62,12 +68,13 @@ func (br *VideoSequence) extension_data(i int) error {
 				if err := br.quant_matrix_extension(); err != nil {
 					return err
 				}
-			case CopyrightExtensionID:
-				copyright_extension()
-			case PictureDisplayExtensionID:
-				picture_display_extension()
+			case CopyrightExtensionID, PictureDisplayExtensionID:
+				// Nothing in these affects decoding.
+				if err := br.skip_extension(); err != nil {
+					return err
+				}
 			case PictureSpatialScalableExtensionID:
-				picture_spatial_scalable_extension()
+				return ErrUnsupportedScalability
 			default:
 				if _, err := picture_temporal_scalable_extension(br); err != nil {
 					return err
@@ -79,14 +86,15 @@ func (br *VideoSequence) extension_data(i int) error {
 	return nil
 }
 
-func copyright_extension() {
-	panic("unsupported: copyright_extension")
-}
-
-func picture_display_extension() {
-	panic("unsupported: picture_display_extension")
-}
-
-func picture_spatial_scalable_extension() {
-	panic("unsupported: picture_spatial_scalable_extension")
+// skip_extension discards everything up to the next start code.
+func (br *VideoSequence) skip_extension() error {
+	for {
+		if nextbits, err := br.Peek32(24); err != nil {
+			return err
+		} else if nextbits == StartCodePrefix {
+			return nil
+		} else if err := br.Skip(8); err != nil {
+			return err
+		}
+	}
 }
diff --git a/video/sequence_scalable_extension.go b/video/sequence_scalable_extension.go
index 4837787..924e7ea 100644
--- a/video/sequence_scalable_extension.go
+++ b/video/sequence_scalable_extension.go
@@ -49,7 +49,7 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		return nil, err
 	}
 
-	panic(sse.scalable_mode)
+	return nil, ErrUnsupportedScalability
 
 	/*
 		scalable_mode 2 uimsbf
@@ -71,6 +71,4 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		picture_mux_factor 3 uimsbf
 		}
 	*/
-	next_start_code(br)
-	panic("unsupported: sequence_scalable_extension")
 }
-- 
2.43.0


From e2b91da46c3bb1e85afe3ab2204d475554f5ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 27/45] fix: video: interlaced sequences have an even number of
 macroblock rows

---
 video/picture_data.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/video/picture_data.go b/video/picture_data.go
index e0845b7..945e4c5 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -2,10 +2,14 @@ package video
 
 import "image"
 
-func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
+func createFrameBuffer(w, h int, progressive bool, cf ChromaFormat) *image.YCbCr {
 
 	horizontalMacroblocks := (w + 15) >> 4
 	verticalMacroblocks := (h + 15) >> 4
+	if !progressive {
+		// Both fields have a whole number of macroblocks. (6.3.3)
+		verticalMacroblocks = 2 * ((h + 31) >> 5)
+	}
 
 	r := image.Rect(0, 0, horizontalMacroblocks<<4, verticalMacroblocks<<4)
 
@@ -25,7 +29,7 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
 	w, h := self.Size()
-	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
+	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence == 1, self.SequenceExtension.chroma_format)
 
 	for {
 		if err := self.slice(frame); err != nil {
-- 
2.43.0


From 57c206e91dec42cd4db3c2d2f1d0fc96a89260b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 28/45] fix: video: quantiser matrices are read in zigzag order

---
 video/quant_matrix_extension.go | 12 ++++++------
 video/quantisation_matrix.go    | 12 ++++++++++++
 video/sequence_header.go        |  8 ++++----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index 9f22d07..e43e6e1 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -34,8 +34,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[0] = intra_quantiser_matrix
-		vs.quantisationMatricies[2] = intra_quantiser_matrix
+		vs.quantisationMatricies[0] = intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -51,8 +51,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[1] = non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = non_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -68,7 +68,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix
+		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -84,7 +84,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix
+		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix.inverseScan()
 	}
 
 	return next_start_code(vs)
diff --git a/video/quantisation_matrix.go b/video/quantisation_matrix.go
index c844061..55563c6 100644
--- a/video/quantisation_matrix.go
+++ b/video/quantisation_matrix.go
@@ -2,6 +2,18 @@ package video
 
 type quantisationMatrix [8][8]uint8
 
+// inverseScan arranges a matrix as it was read from the bitstream. The order in the
+// bitstream is always that of the zigzag scan. (7.3.1)
+func (m quantisationMatrix) inverseScan() (out quantisationMatrix) {
+	for v := 0; v < 8; v++ {
+		for u := 0; u < 8; u++ {
+			n := scan[0][v][u]
+			out[v][u] = m[n/8][n%8]
+		}
+	}
+	return
+}
+
 var defaultQuantisationMatrices = struct {
 	Intra    quantisationMatrix
 	NonIntra quantisationMatrix
diff --git a/video/sequence_header.go b/video/sequence_header.go
index 705c68f..73f129b 100644
--- a/video/sequence_header.go
+++ b/video/sequence_header.go
@@ -108,16 +108,16 @@ func (vs *VideoSequence) sequence_header() (err error) {
 	}
 
 	if sh.load_intra_quantiser_matrix {
-		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix
-		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix
+		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[0] = defaultQuantisationMatrices.Intra
 		vs.quantisationMatricies[2] = defaultQuantisationMatrices.Intra
 	}
 
 	if sh.load_non_intra_quantiser_matrix {
-		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra
 		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra
-- 
2.43.0


From 82a6dd7c60719f78643572b432969f497c105367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 29/45] fix: video: half sample and bidirectional predictions
 round up

---
 video/motion_compensation.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 57225a2..5f3be24 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -116,15 +116,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case fState.h_half && !fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1])) / 2
+						int32(fState.channel[i+1]) + 1) / 2
 
 				case !fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+fState.stride])) / 2
+						int32(fState.channel[i+fState.stride]) + 1) / 2
 
 				case fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1])) / 4
+						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1]) + 2) / 4
 				}
 			}
 			if bState.active {
@@ -136,20 +136,23 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case bState.h_half && !bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+1])) / 2
+						int32(bState.channel[i+1]) + 1) / 2
 
 				case !bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+bState.stride])) / 2
+						int32(bState.channel[i+bState.stride]) + 1) / 2
 
 				case bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
 						int32(bState.channel[i+1]) +
 						int32(bState.channel[i+bState.stride]) +
-						int32(bState.channel[i+bState.stride+1])) / 4
+						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
-			b[v*8+u] += pel >> (samples - 1)
+			if samples == 2 {
+				pel = (pel + 1) / 2
+			}
+			b[v*8+u] += pel
 		}
 	}
 }
-- 
2.43.0


From def5df635fea89889fcc7809c6463a9361006a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 30/45] fix: video: chroma vectors are rounded towards zero

---
 video/motion_compensation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 5f3be24..40e01be 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -27,8 +27,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -69,8 +69,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
-- 
2.43.0


From cdde37a4fe95340aed9abb8d90a516de4c623439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 31/45] fix: video: frames were lost when temporal references
 start again at zero

---
 video/frame_provider.go |  2 +-
 video/frame_store.go    | 19 +++++++++----------
 video/video_sequence.go |  9 +++++++--
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a861a8f..a0144b0 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -73,7 +73,7 @@ MORE_FRAMES:
 		return nil, err
 	}
 
-	self.frameStore.set(self.PictureHeader.temporal_reference)
+	self.frameStore.set(self.PictureHeader.picture_coding_type)
 
 	if frame, err := self.picture_data(); err != nil {
 		return nil, err
diff --git a/video/frame_store.go b/video/frame_store.go
index 8c4bf37..6e52911 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -19,16 +19,15 @@ func (fs *frameStore) gop() {
 	fs.frames[1].previous_gop = true
 }
 
-func (fs *frameStore) set(current_temporal_reference uint32) {
-	for _, ref := range fs.frames {
-		if ref.frame != nil {
-			if ref.previous_gop == true ||
-				ref.temporal_reference < current_temporal_reference {
-				fs.past = ref.frame
-			} else {
-				fs.future = ref.frame
-			}
-		}
+// set selects the references of a picture: the last two reference pictures that were decoded.
+// Temporal references do not tell which one comes first, as they start again at zero after 1023.
+func (fs *frameStore) set(picture_coding_type PictureCodingType) {
+	switch picture_coding_type {
+	case PFrame:
+		fs.past = fs.frames[1].frame
+	case BFrame:
+		fs.past = fs.frames[0].frame
+		fs.future = fs.frames[1].frame
 	}
 }
 
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 41fcae4..c7036ec 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -84,7 +84,7 @@ func (vs *VideoSequence) Size() (width int, height int) {
 func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 	// Try to get a previously decoded frame out of the frameStore.
 	if img := vs.frameStore.tryGet(vs.frameCounter); img != nil {
-		vs.frameCounter++
+		vs.nextFrame()
 		return img, nil
 	}
 
@@ -93,8 +93,13 @@ func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 		if img, err := vs.step(); err != nil {
 			return nil, err
 		} else if vs.PictureHeader.temporal_reference == vs.frameCounter {
-			vs.frameCounter++
+			vs.nextFrame()
 			return img, nil
 		}
 	}
 }
+
+// nextFrame advances the temporal reference of the frame that is due. It is a 10 bit number.
+func (vs *VideoSequence) nextFrame() {
+	vs.frameCounter = (vs.frameCounter + 1) & 0x3ff
+}
-- 
2.43.0


From abd32872b57309e994574cf36177a715d141f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 32/45] fix: video: concealment motion vectors panicked where
 frames may use field prediction

---
 video/motion_vector_info.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 1c40173..b2956e2 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -19,6 +19,14 @@ func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
 		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
 	}
 
+	// Concealment motion vectors come without a motion type. (6.3.17.1)
+	if mb.macroblock_type.macroblock_intra {
+		if fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
+			return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+	}
+
 	switch mb.frame_motion_type {
 	case 1:
 		return motionVectorInfo{2, motionVectorFormat_Field, 0}
-- 
2.43.0


From 36340176a05a52fcea741e1a8e457efbccc9e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 33/45] fix: video: predictions of field DCT coded macroblocks
 had their lines in frame order

---
 video/copy_macroblocks.go    |  2 +-
 video/macroblock.go          |  2 +-
 video/motion_compensation.go | 27 ++++++++++++++++++++++-----
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 1e4de42..b0b3872 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -38,7 +38,7 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, fs)
+			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
diff --git a/video/macroblock.go b/video/macroblock.go
index d08b6c3..172d3c1 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -160,7 +160,7 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore)
+		b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore)
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 40e01be..79c98bb 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -5,11 +5,12 @@ type motionCompensationState struct {
 	i       int
 	channel []uint8
 	stride  int
+	step    int // from one line of the block to the next
 	h_half  bool
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) {
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -52,9 +53,17 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			bState.stride = image.YStride
-			bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			bState.step = bState.stride
+			first := (i & 2) << 2
+			if interlaced {
+				// Field DCT coding alternates lines from each block
+				bState.step = bState.stride * 2
+				first = (i & 2) >> 1
+			}
+			bState.i = (((mb_row * 16) + first) * bState.stride) + (mb_addr * 16) + (i&1)<<3
 		case 4, 5:
 			bState.stride = image.CStride
+			bState.step = bState.stride
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
 		}
 
@@ -93,9 +102,17 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			fState.stride = image.YStride
-			fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			fState.step = fState.stride
+			first := (i & 2) << 2
+			if interlaced {
+				// Field DCT coding alternates lines from each block
+				fState.step = fState.stride * 2
+				first = (i & 2) >> 1
+			}
+			fState.i = (((mb_row * 16) + first) * fState.stride) + (mb_addr * 16) + (i&1)<<3
 		case 4, 5:
 			fState.stride = image.CStride
+			fState.step = fState.stride
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
 		}
 
@@ -108,7 +125,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			var pel int32 = 0
 			var samples uint = 0
 			if fState.active {
-				i := fState.i + (v * fState.stride) + u
+				i := fState.i + (v * fState.step) + u
 				samples++
 				switch {
 				case !fState.h_half && !fState.v_half:
@@ -128,7 +145,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 				}
 			}
 			if bState.active {
-				i := bState.i + (v * bState.stride) + u
+				i := bState.i + (v * bState.step) + u
 				samples++
 				switch {
 				case !bState.h_half && !bState.v_half:
-- 
2.43.0


From 47900cf3c7f385c92488ce0e6ef253f3db3c49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 34/45] fix: video: slices of pictures beyond 2800 lines were
 put into the wrong row

---
 video/slice.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/video/slice.go b/video/slice.go
index 0dbff54..a72d08c 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -39,6 +39,14 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((code & 0xFF) - 1)
 
+	if _, vertical_size := br.Size(); vertical_size > 2800 {
+		s.slice_vertical_position_extension, err = br.Read32(3)
+		if err != nil {
+			return err
+		}
+		mb_row += int(s.slice_vertical_position_extension << 7)
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
@@ -48,13 +56,6 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		Rect:    image.Rect(frame.Rect.Min.X, mb_row*16, frame.Rect.Max.X, mb_row*16+16),
 	}
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
-		s.slice_vertical_position_extension, err = br.Read32(3)
-		if err != nil {
-			return err
-		}
-	}
-
 	// TODO(jh): sequence_scalable support
 	if false /* (<sequence_scalable_extension() is present in the bitstream>) */ {
 		if false /* (scalable_mode == “data partitioning” ) */ {
-- 
2.43.0


From 18075a7550aa2124c967421b73859edfd98b2ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 35/45] fix: video: zero bytes between sequences were taken for
 damage

---
 video/frame_provider.go | 9 +++++++++
 video/video_sequence.go | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a0144b0..b511844 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -87,6 +87,14 @@ MORE_FRAMES:
 
 RESUME:
 
+	// align to next start code, if another sequence begins
+	if self.endOfSequence {
+		if err := next_start_code(self); err != nil {
+			return nil, err
+		}
+		self.endOfSequence = false
+	}
+
 	if nextbits, err := self.Peek32(32); err != nil {
 		return nil, err
 	} else if StartCode(nextbits) == PictureStartCode {
@@ -116,5 +124,6 @@ RESUME:
 	goto CONTINUE
 
 END_OF_STREAM:
+	self.endOfSequence = true
 	return nil, EOS
 }
diff --git a/video/video_sequence.go b/video/video_sequence.go
index c7036ec..fef608e 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -24,7 +24,8 @@ type VideoSequence struct {
 
 	quantisationMatricies [4]quantisationMatrix
 	frameStore
-	frameCounter uint32
+	frameCounter  uint32
+	endOfSequence bool
 }
 
 func NewVideoSequence(r io.Reader) *VideoSequence {
-- 
2.43.0


From 83dd72122b247ee08199d30ce20b993e215d7e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 36/45] fix: video: errors in a coded block pattern were
 ignored

---
 video/macroblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 172d3c1..7150334 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -125,7 +125,7 @@ func (br *VideoSequence) macroblock(
 
 	if mb.macroblock_type.macroblock_pattern {
 		if cbp, err := coded_block_pattern(br, br.SequenceExtension.chroma_format); err != nil {
-			return 0, nil
+			return 0, err
 		} else {
 			mb.cbp = cbp
 		}
-- 
2.43.0


From f39bd4a0faa2642eb697f4ff456896e2b5205bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 37/45] fix: video: slices and macroblocks outside of the
 picture panicked, or were put elsewhere

---
 video/macroblock.go            | 4 ++++
 video/macroblock_addressing.go | 4 ++++
 video/slice.go                 | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/video/macroblock.go b/video/macroblock.go
index 7150334..8f57beb 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -43,6 +43,10 @@ func (br *VideoSequence) macroblock(
 		mb.macroblock_address_increment += incr
 	}
 
+	if mb_address+mb.macroblock_address_increment >= frameSlice.Rect.Dx()/16 {
+		return 0, ErrOutsideOfPicture
+	}
+
 	// Copy skipped macroblocks for PFrames and BFrames
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
diff --git a/video/macroblock_addressing.go b/video/macroblock_addressing.go
index f339c01..49558f2 100644
--- a/video/macroblock_addressing.go
+++ b/video/macroblock_addressing.go
@@ -7,6 +7,10 @@ import "errors"
 type macroblockAddressIncrementDecoderFn func(bitreader.BitReader) (int, error)
 
 var ErrUnexpectedDecodedValueType = errors.New("unexpected decoded value type")
+
+// ErrOutsideOfPicture indicates that the bitstream refers to macroblocks outside of a picture.
+var ErrOutsideOfPicture = errors.New("macroblock outside of the picture")
+
 var macroblockAddressIncrementHuffmanDecoder = huffman.NewHuffmanDecoder(huffman.HuffmanTable{
 	"1":             1,
 	"011":           2,
diff --git a/video/slice.go b/video/slice.go
index a72d08c..dd1ebbc 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -47,6 +47,10 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		mb_row += int(s.slice_vertical_position_extension << 7)
 	}
 
+	if mb_row >= frame.Rect.Dy()/16 {
+		return ErrOutsideOfPicture
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
-- 
2.43.0


From f305e19bcf242d1b69750528b0745c1b22dfccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 38/45] fix: video: blocks with too many coefficients panicked

---
 video/block.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/video/block.go b/video/block.go
index 03d2100..556e4a8 100644
--- a/video/block.go
+++ b/video/block.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/bitreader"
 
+// ErrTooManyCoefficients indicates that a block in the bitstream has more than 64 coefficients.
+var ErrTooManyCoefficients = errors.New("too many coefficients in a block")
+
 const (
 	blockSide = 8
 	blockSize = blockSide * blockSide
@@ -93,6 +97,8 @@ func (QFS *block) read(br bitreader.BitReader, dcDctPredictors *dcDctPredictors,
 				QFS[n] = 0
 				n = n + 1
 			}
+		} else if n+run >= blockSize {
+			return ErrTooManyCoefficients
 		} else {
 			for m := 0; m < run; m++ {
 				QFS[n] = 0
-- 
2.43.0


From c67e7ce2abdf2f644083a9e3dd8b190d7b7ae9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 39/45] fix: video: an extension after a group of pictures
 header was an endless loop

---
 video/extension_and_user_data.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index f69724a..1df649a 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -12,7 +12,11 @@ func (br *VideoSequence) extension_and_user_data(i int) error {
 			return err
 		} else if StartCode(nextbits) != ExtensionStartCode && StartCode(nextbits) != UserDataStartCode {
 			break
-		} else if (i != 1) && (StartCode(nextbits) == ExtensionStartCode) {
+		} else if StartCode(nextbits) == ExtensionStartCode {
+			// extension_data() never follows a group_of_pictures_header()
+			if i == 1 {
+				return ErrUnexpectedStartCode
+			}
 			if err := br.extension_data(i); err != nil {
 				return err
 			}
-- 
2.43.0


From d5c312c4a66400b423283c999a215404800d0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 40/45] fix: video: predictions from outside of a reference, or
 without one, panicked

---
 video/copy_macroblocks.go    | 18 ++++++++++++++++--
 video/macroblock.go          | 16 ++++++++++++----
 video/motion_compensation.go | 22 ++++++++++++++++++++++
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index b0b3872..95664d4 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -2,7 +2,14 @@ package video
 
 import "image"
 
-func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
+func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) error {
+	if src == nil {
+		return nil
+	}
+	if size := src.Rect.Size(); (row+1)*16 > size.Y || (col+n)*16 > size.X {
+		return ErrOutsideOfPicture
+	}
+
 	// Copy Y
 	{
 		y := row * 16
@@ -29,13 +36,18 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 			copy(dest.Cr[di:di+w], src.Cr[si:si+w])
 		}
 	}
+
+	return nil
 }
 
-func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) {
+func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
 	var b block
 	var cb clampedblock
 
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
+		if !mvd.inside(mb_row, mb_addr, fs) {
+			return ErrOutsideOfPicture
+		}
 		for i := 0; i < 6; i++ {
 			b.zero()
 			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
@@ -43,4 +55,6 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
 	}
+
+	return nil
 }
diff --git a/video/macroblock.go b/video/macroblock.go
index 8f57beb..22a45a9 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -51,17 +51,21 @@ func (br *VideoSequence) macroblock(
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
 		case PFrame:
-			pframe_copy_macroblocks(
+			if err := pframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
-				frameSlice, br.frameStore.past)
+				frameSlice, br.frameStore.past); err != nil {
+				return 0, err
+			}
 		case BFrame:
-			bframe_copy_macroblocks(
+			if err := bframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				*mvd,
 				br.frameStore,
-				frameSlice)
+				frameSlice); err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -148,6 +152,10 @@ func (br *VideoSequence) macroblock(
 	mb_address += mb.macroblock_address_increment
 	pattern_code := mb.cbp.decode(mb.macroblock_type.macroblock_intra, mb.macroblock_type.macroblock_pattern, br.SequenceExtension.chroma_format)
 
+	if !mvd.inside(mb_row, mb_address, br.frameStore) {
+		return 0, ErrOutsideOfPicture
+	}
+
 	var b block
 	var cb clampedblock
 
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 79c98bb..2cd5540 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -1,5 +1,7 @@
 package video
 
+import "image"
+
 type motionCompensationState struct {
 	active  bool
 	i       int
@@ -10,6 +12,26 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
+// inside tells whether the references have all the samples that predictions of a macroblock are formed from.
+func (motionVectors *motionVectorData) inside(mb_row, mb_addr int, fs frameStore) bool {
+	within := func(ref *image.YCbCr, vector [2]int) bool {
+		if ref == nil {
+			return true
+		}
+		size := ref.Rect.Size()
+		horizontal, vertical := mb_addr*32+vector[0], mb_row*32+vector[1]
+		return horizontal >= 0 && horizontal <= (size.X-16)*2 &&
+			vertical >= 0 && vertical <= (size.Y-16)*2
+	}
+	if motionVectors.previous&motionVectorsFormed_FrameForward != 0 && !within(fs.past, motionVectors.actual[0][0]) {
+		return false
+	}
+	if motionVectors.previous&motionVectorsFormed_FrameBackward != 0 && !within(fs.future, motionVectors.actual[0][1]) {
+		return false
+	}
+	return true
+}
+
 func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
 	bState := motionCompensationState{
-- 
2.43.0


From d0956cde626589a74b4d9ed27f5f2df5704289c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 41/45] fix: video: motion types that are reserved or not
 supported panicked

---
 video/motion_vector_info.go | 28 +++++++++++++++++-----------
 video/motion_vectors.go     | 10 +++++-----
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index b2956e2..d0418f4 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -1,5 +1,11 @@
 package video
 
+import "errors"
+
+// ErrUnsupportedMotionType indicates that a macroblock uses dual prime prediction, which is not
+// supported, or a reserved motion type.
+var ErrUnsupportedMotionType = errors.New("unsupported motion type")
+
 type motionVectorFormat int
 
 const (
@@ -14,36 +20,36 @@ type motionVectorInfo struct {
 	dmv                  int
 }
 
-func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
+func mv_info(fp *VideoSequence, mb *Macroblock) (motionVectorInfo, error) {
 	if fp.PictureCodingExtension.frame_pred_frame_dct == 1 {
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	}
 
 	// Concealment motion vectors come without a motion type. (6.3.17.1)
 	if mb.macroblock_type.macroblock_intra {
 		if fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
-			return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+			return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 		}
-		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}, nil
 	}
 
 	switch mb.frame_motion_type {
 	case 1:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{}, ErrUnsupportedMotionType
 	}
 
 	switch mb.field_motion_type {
 	case 1:
-		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{}, ErrUnsupportedMotionType
 	}
 
-	panic("invalid motion vector state")
+	return motionVectorInfo{}, ErrUnsupportedMotionType
 }
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 3910ce0..5b3c904 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -123,7 +123,11 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 
 	f_code := fp.PictureCodingExtension.f_code
 
-	mvd.info = mv_info(fp, mb)
+	info, err := mv_info(fp, mb)
+	if err != nil {
+		return err
+	}
+	mvd.info = info
 
 	motion_vector_part := func(r, s, t int) error {
 		if code, err := decodeMotionCode(fp); err != nil {
@@ -140,10 +144,6 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 				mvd.residual[r][s][t] = int(code)
 			}
 		}
-		if mvd.info.dmv == 1 {
-			panic("unsupported: dmv[]")
-		}
-
 		mvd.update_actual(r, s, t, f_code, mvd.info.motion_vector_format, fp.PictureCodingExtension.picture_structure)
 
 		return nil
-- 
2.43.0


From 8eb8267a9185560200ff07853852e510ab79cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 42/45] fix: video: picture coding types other than I, P and B
 panicked

---
 video/macroblock.go          | 2 +-
 video/picture_coding_type.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 22a45a9..6d27096 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -266,7 +266,7 @@ func (br *VideoSequence) macroblock_mode(mb *Macroblock) (err error) {
 	case BFrame:
 		typeDecoder = macroblockTypeDecoder.BFrame
 	default:
-		panic("not implemented: macroblock type decoder")
+		return ErrUnsupportedPictureCodingType
 	}
 
 	mb.macroblock_type, err = typeDecoder(br)
diff --git a/video/picture_coding_type.go b/video/picture_coding_type.go
index 791cd96..3a9e1fd 100644
--- a/video/picture_coding_type.go
+++ b/video/picture_coding_type.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "fmt"
 
+// ErrUnsupportedPictureCodingType indicates that a picture is neither an I-, P- nor B-picture.
+var ErrUnsupportedPictureCodingType = errors.New("unsupported picture coding type")
+
 // PictureCodingType defines the encoding used for a frame within a video
 // bitstream.
 //
-- 
2.43.0


From 1b8ec0f1a4b4a302ef974f15d2ce6a9a3b638eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 43/45] fix: video: pictures after a sequence header without
 its extension panicked

---
 video/frame_provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index b511844..fbdc477 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -12,7 +12,7 @@ var ErrUnsupportedVideoStream_ISO_IEC_11172_2 = errors.New("unsupported video st
 // be the order they should be displayed.
 func (self *VideoSequence) step() (*image.YCbCr, error) {
 
-	if self.SequenceHeader != nil {
+	if self.SequenceHeader != nil && self.SequenceExtension != nil {
 		goto RESUME
 	}
 
-- 
2.43.0


From 033bc9f3d7820e9100a3f448486f6636fb474fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 44/45] fix: video: chroma formats other than 4:2:0 panicked

---
 video/chroma_format.go      | 5 +++++
 video/sequence_extension.go | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/video/chroma_format.go b/video/chroma_format.go
index fa80795..b725475 100644
--- a/video/chroma_format.go
+++ b/video/chroma_format.go
@@ -1,5 +1,10 @@
 package video
 
+import "errors"
+
+// ErrUnsupportedChromaFormat indicates that the chroma format of the video stream is not 4:2:0.
+var ErrUnsupportedChromaFormat = errors.New("unsupported chroma format")
+
 // ChromaFormat is chroma subsample ratio used in the video bitstream. It
 // defines the number and location of the blocks encoded in a macroblock.
 //
diff --git a/video/sequence_extension.go b/video/sequence_extension.go
index 3726597..ce6c119 100644
--- a/video/sequence_extension.go
+++ b/video/sequence_extension.go
@@ -44,6 +44,9 @@ func sequence_extension(br bitreader.BitReader) (*SequenceExtension, error) {
 	} else {
 		se.chroma_format = ChromaFormat(chroma_format)
 	}
+	if se.chroma_format != ChromaFormat420 {
+		return nil, ErrUnsupportedChromaFormat
+	}
 
 	se.horizontal_size_extension, err = br.Read32(2)
 	if err != nil {
-- 
2.43.0


From 3a8955ef4ac63b0de4e2bb1ab113218ae10e31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 45/45] fix: report errors of the flag in a sequence display
 extension

The error of reading colour_description was dropped, so that the fields
after it were read from the wrong place.
---
 video/sequence_display_extension.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/video/sequence_display_extension.go b/video/sequence_display_extension.go
index 83f2ae7..3f0d7c9 100644
--- a/video/sequence_display_extension.go
+++ b/video/sequence_display_extension.go
@@ -26,6 +26,9 @@ func sequence_display_extension(br bitreader.BitReader) (*SequenceDisplayExtensi
 	}
 
 	sde.colour_description, err = br.Read1()
+	if err != nil {
+		return nil, err
+	}
 	if sde.colour_description {
 		sde.colour_primaries, err = br.Read32(8)
 		if err != nil {
-- 
2.43.0

