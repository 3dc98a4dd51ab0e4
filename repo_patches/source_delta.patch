From 86f4f6afd3b530a9430828a37b1d14d3f8b55f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 01/18] fix: mpeg4video: avoid panic when a config ends with a
 start code prefix

---
 pkg/codecs/mpeg4video/is_valid_config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/codecs/mpeg4video/is_valid_config.go b/pkg/codecs/mpeg4video/is_valid_config.go
index 556e245..0e679f9 100644
--- a/pkg/codecs/mpeg4video/is_valid_config.go
+++ b/pkg/codecs/mpeg4video/is_valid_config.go
@@ -24,6 +24,11 @@ func IsValidConfig(config []byte) error {
 		}
 
 		pos += i
+
+		if pos+3 >= len(config) {
+			return fmt.Errorf("truncated start code")
+		}
+
 		startCode := StartCode(config[pos+3])
 
 		switch {
-- 
2.43.0


From c5a5c7be073902af6b0f9ab4a9731543bc53a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 02/18] fix: h264: avoid panic when an access unit contains an
 empty NALU

---
 pkg/codecs/h264/dts_extractor.go    | 4 ++++
 pkg/codecs/h264/is_random_access.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 2d0f288..0f76298 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -112,6 +112,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, bool, error)
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		nonZeroNalRefIDFound = nonZeroNalRefIDFound || ((nalu[0] & 0x60) > 0)
 
diff --git a/pkg/codecs/h264/is_random_access.go b/pkg/codecs/h264/is_random_access.go
index c1f1744..4ece4e1 100644
--- a/pkg/codecs/h264/is_random_access.go
+++ b/pkg/codecs/h264/is_random_access.go
@@ -3,6 +3,10 @@ package h264
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		if typ == NALUTypeIDR {
 			return true
-- 
2.43.0


From 39a303a12523881132531b06fdf1e7dd58bc9883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 03/18] fix: h265: avoid panic when an access unit contains an
 empty NALU

---
 pkg/codecs/h265/dts_extractor.go    | 4 ++++
 pkg/codecs/h265/is_random_access.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index ca52e6c..d5fdc36 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -158,6 +158,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, error) {
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 
 		switch typ {
diff --git a/pkg/codecs/h265/is_random_access.go b/pkg/codecs/h265/is_random_access.go
index 837a0aa..6df36a0 100644
--- a/pkg/codecs/h265/is_random_access.go
+++ b/pkg/codecs/h265/is_random_access.go
@@ -3,6 +3,10 @@ package h265
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 		switch typ {
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP, NALUType_CRA_NUT:
-- 
2.43.0


From f3f2b0e04ec13925479419146c5388f047dc6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 04/18] fix: av1: avoid panic when a temporal unit starts with
 an empty OBU

---
 pkg/codecs/av1/is_random_access.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/codecs/av1/is_random_access.go b/pkg/codecs/av1/is_random_access.go
index 56935c4..b1a8c33 100644
--- a/pkg/codecs/av1/is_random_access.go
+++ b/pkg/codecs/av1/is_random_access.go
@@ -27,6 +27,10 @@ func IsRandomAccess(tu [][]byte) (bool, error) {
 		return false, fmt.Errorf("temporal unit is empty")
 	}
 
+	if len(tu[0]) == 0 {
+		return false, fmt.Errorf("OBU is empty")
+	}
+
 	typ := OBUType((tu[0][0] >> 3) & 0b1111)
 
 	return (typ == OBUTypeSequenceHeader), nil
-- 
2.43.0


From a673cc9f97fda22975f0c3431ffe2c4b584285f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 05/18] fix: mpeg4audio: do not modify packets while marshaling
 ADTS

---
 pkg/codecs/mpeg4audio/adts.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 4d661a9..fad1108 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -143,16 +143,18 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 			return nil, fmt.Errorf("invalid sample rate: %d", pkt.SampleRate)
 		}
 
-		if pkt.ChannelConfig == 0 {
+		channelConfig := pkt.ChannelConfig
+
+		if channelConfig == 0 {
 			switch {
 			case pkt.ChannelCount == 0:
-				pkt.ChannelConfig = 0
+				channelConfig = 0
 
 			case pkt.ChannelCount >= 1 && pkt.ChannelCount <= 6:
-				pkt.ChannelConfig = uint8(pkt.ChannelCount)
+				channelConfig = uint8(pkt.ChannelCount)
 
 			case pkt.ChannelCount == 8:
-				pkt.ChannelConfig = 7
+				channelConfig = 7
 
 			default:
 				return nil, fmt.Errorf("invalid channel count (%d)", pkt.ChannelCount)
@@ -165,8 +167,8 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 
 		buf[pos+0] = 0xFF
 		buf[pos+1] = 0xF1
-		buf[pos+2] = byte(pkt.Type-1)<<6 | byte(sampleRateIndex)<<2 | (pkt.ChannelConfig >> 2)
-		buf[pos+3] = (pkt.ChannelConfig&0x03)<<6 | byte(frameLen>>11)
+		buf[pos+2] = byte(pkt.Type-1)<<6 | byte(sampleRateIndex)<<2 | (channelConfig >> 2)
+		buf[pos+3] = (channelConfig&0x03)<<6 | byte(frameLen>>11)
 		buf[pos+4] = byte(frameLen >> 3)
 		buf[pos+5] = byte(frameLen&0x07)<<5 | byte(fullness>>6)
 		buf[pos+6] = byte(fullness&0x3F) << 2
-- 
2.43.0


From d5636dc22e07fdd87d7b430d824bb836d75b8581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 06/18] fix: mpeg4audio: return an error when marshaling an
 unsupported frame length type

---
 pkg/codecs/mpeg4audio/audio_mux_element.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/audio_mux_element.go b/pkg/codecs/mpeg4audio/audio_mux_element.go
index 09ab571..acd8b1f 100644
--- a/pkg/codecs/mpeg4audio/audio_mux_element.go
+++ b/pkg/codecs/mpeg4audio/audio_mux_element.go
@@ -84,7 +84,7 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 	return nil
 }
 
-func (e AudioMuxElement) marshalSize() int {
+func (e AudioMuxElement) marshalSize() (int, error) {
 	n := 0
 
 	if e.MuxConfigPresent {
@@ -106,7 +106,7 @@ func (e AudioMuxElement) marshalSize() int {
 			for lay := range p.Layers {
 				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
-					return 0
+					return 0, err
 				}
 			}
 		}
@@ -122,19 +122,24 @@ func (e AudioMuxElement) marshalSize() int {
 		n2++
 	}
 
-	return n2
+	return n2, nil
 }
 
 // Marshal encodes an AudioMuxElement.
 func (e AudioMuxElement) Marshal() ([]byte, error) {
-	buf := make([]byte, e.marshalSize())
+	n, err := e.marshalSize()
+	if err != nil {
+		return nil, err
+	}
+
+	buf := make([]byte, n)
 	pos := 0
 
 	if e.MuxConfigPresent {
 		bits.WriteFlagUnsafe(buf, &pos, e.UseSameStreamMux)
 
 		if !e.UseSameStreamMux {
-			err := e.StreamMuxConfig.marshalToBits(buf, &pos)
+			err = e.StreamMuxConfig.marshalToBits(buf, &pos)
 			if err != nil {
 				return nil, err
 			}
@@ -151,14 +156,14 @@ func (e AudioMuxElement) Marshal() ([]byte, error) {
 			li.Programs[prog].Layers = make([]payloadLengthInfoLayer, len(p.Layers))
 
 			for lay := range p.Layers {
-				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
+				err = li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
 					return nil, err
 				}
 			}
 		}
 
-		err := li.marshalToBits(buf, &pos)
+		err = li.marshalToBits(buf, &pos)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e1115e9a1b7ff9d3ba6642aec9400a28a82a035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 07/18] fix: pmp4: avoid division by zero when a stsc entry has
 zero samples per chunk

---
 pkg/formats/pmp4/presentation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index bb7466f..f73b07d 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -280,6 +280,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 				sampleCount := 0
 
 				for i, entry := range stsc.Entries {
+					if entry.SamplesPerChunk == 0 {
+						return nil, fmt.Errorf("invalid stsc")
+					}
+
 					var chunkCount uint32
 					if i != (len(stsc.Entries) - 1) {
 						chunkCount = stsc.Entries[i+1].FirstChunk - entry.FirstChunk
@@ -295,10 +299,6 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 						return nil, fmt.Errorf("invalid stsc")
 					}
 
-					if entry.SamplesPerChunk == 0 {
-						return nil, fmt.Errorf("invalid stsc")
-					}
-
 					for range chunkCount {
 						if (sampleCount + int(entry.SamplesPerChunk)) > len(curTrack.Samples) {
 							return nil, fmt.Errorf("invalid stsc")
-- 
2.43.0


From b4ac1abcef34755811d5fb4e6785473f717e4f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 08/18] fix: pmp4: avoid panic when stsc is present more than
 once

---
 pkg/formats/pmp4/presentation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index f73b07d..a97a5dc 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -352,6 +352,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			i := 0
 
 			for _, chunk := range curChunks {
+				if (i + chunk.sampleCount) > len(curTrack.Samples) {
+					return nil, fmt.Errorf("invalid stsc")
+				}
+
 				off := chunk.offset
 
 				for range chunk.sampleCount {
-- 
2.43.0


From 0f06677c9596b5713cb2bbdc4d209d343ab9847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 09/18] fix: pmp4: report seek errors when reading sample
 payloads

---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index a97a5dc..4a98f4c 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -366,7 +366,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
 						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
-						if err != nil {
+						if err2 != nil {
 							return nil, err2
 						}
 
-- 
2.43.0


From e945465ba9e1cf09f7b01b4ceecc92b45c4ed0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 10/18] fix: pmp4: refuse presentations in which sample
 positions are missing

---
 pkg/formats/pmp4/presentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 4a98f4c..4d9e5ef 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -395,6 +395,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		return fmt.Errorf("no tracks found")
 	}
 
+	for _, track := range p.Tracks {
+		for _, sample := range track.Samples {
+			if sample.GetPayload == nil {
+				return fmt.Errorf("sample position not provided")
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 68f58e74e9cf49e34dee64d003f05e1d2854a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 11/18] fix: fmp4: apply the sample count limit to trun boxes
 with a 64-bit size too

---
 pkg/formats/fmp4/parts.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index e055ac8..0caf505 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -111,9 +111,10 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 				}
 
 				// prevent RAM exhaustion due to unlimited Trun unmarshaling
-				rawBox := byts[h.BoxInfo.Offset:]
-				if len(rawBox) >= 16 {
-					sampleCount := uint32(rawBox[12])<<24 | uint32(rawBox[13])<<16 | uint32(rawBox[14])<<8 | uint32(rawBox[15])
+				rawPayload := byts[h.BoxInfo.Offset+h.BoxInfo.HeaderSize:]
+				if len(rawPayload) >= 8 {
+					sampleCount := uint32(rawPayload[4])<<24 | uint32(rawPayload[5])<<16 |
+						uint32(rawPayload[6])<<8 | uint32(rawPayload[7])
 					if sampleCount > maxSamplesPerTrun {
 						return nil, fmt.Errorf("sample count (%d) exceeds maximum (%d)", sampleCount, maxSamplesPerTrun)
 					}
-- 
2.43.0


From 613a5a9ef7a3d620ed90be489120a894d2439550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 12/18] fix: mp4: report MPEG-4 audio configuration errors when
 writing codec boxes

---
 internal/mp4/codec_boxes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index eb04178..1763ab2 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -1115,7 +1115,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			return err
 		}
 
-		enc, _ := codec.Config.Marshal()
+		enc, err := codec.Config.Marshal()
+		if err != nil {
+			return err
+		}
 
 		_, err = w.WriteBox(&amp4.Esds{ // <esds/>
 			Descriptors: []amp4.Descriptor{
-- 
2.43.0


From b0dbc46a917ad8110dd10e8aaf16fc1265c402f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 13/18] fix: mpegts: report errors of track marshaling when
 initializing a writer

---
 pkg/formats/mpegts/track.go  | 5 ++++-
 pkg/formats/mpegts/writer.go | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index 6ea285e..08c3470 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -397,7 +397,10 @@ func (t Track) marshal() (*astits.PMTElementaryStream, error) {
 			}
 		}
 
-		enc, _ := desc.Marshal()
+		enc, err := desc.Marshal()
+		if err != nil {
+			return nil, err
+		}
 
 		es = &astits.PMTElementaryStream{
 			ElementaryPID: t.PID,
diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 56d0ee1..b37b8df 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -74,9 +74,12 @@ func (w *Writer) Initialize() error {
 			track.PID = w.nextPID
 			w.nextPID++
 		}
-		es, _ := track.marshal()
+		es, err := track.marshal()
+		if err != nil {
+			return err
+		}
 
-		err := w.mux.AddElementaryStream(*es)
+		err = w.mux.AddElementaryStream(*es)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 5165570eca5acad0c681ab764754f876c12f7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 14/18] fix: pmp4: do not allocate sample payloads bigger than
 the file

---
 pkg/formats/pmp4/presentation.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 4d9e5ef..3472ebc 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -365,7 +365,16 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					curTrack.Samples[i].PayloadSize = sampleSize
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
-						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
+						end, err2 := r.Seek(0, io.SeekEnd)
+						if err2 != nil {
+							return nil, err2
+						}
+
+						if int64(sampleOffset)+int64(sampleSize) > end {
+							return nil, io.ErrUnexpectedEOF
+						}
+
+						_, err2 = r.Seek(int64(sampleOffset), io.SeekStart)
 						if err2 != nil {
 							return nil, err2
 						}
-- 
2.43.0


From d27f8b6edd0b9e6868a68b447d4f4905954e97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 15/18] fix: mpeg4audio: stop counting channels when the raw
 data block is truncated

---
 pkg/codecs/mpeg4audio/count_channels.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/count_channels.go b/pkg/codecs/mpeg4audio/count_channels.go
index 267b442..34b78e4 100644
--- a/pkg/codecs/mpeg4audio/count_channels.go
+++ b/pkg/codecs/mpeg4audio/count_channels.go
@@ -37,6 +37,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 	channels := 0
 
 	// Parse elements until we hit END or run out of data
+loop:
 	for pos < len(au)*8 {
 		// Read id_syn_ele (3 bits)
 		idSynEle, err := bits.ReadBits(au, &pos, 3)
@@ -51,7 +52,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			channels++
 			// We can't easily skip the rest of the SCE without fully parsing it,
@@ -63,7 +64,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			channels += 2
 			return channels, nil
@@ -73,7 +74,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			channels++
 			return channels, nil
@@ -94,19 +95,19 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			// data_byte_align_flag (1 bit)
 			var alignFlag bool
 			alignFlag, err = bits.ReadFlag(au, &pos)
 			if err != nil {
-				break
+				break loop
 			}
 			// count (8 bits)
 			var count uint64
 			count, err = bits.ReadBits(au, &pos, 8)
 			if err != nil {
-				break
+				break loop
 			}
 			totalCount := int(count)
 			// If count == 255, read esc_count
@@ -114,7 +115,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 				var escCount uint64
 				escCount, err = bits.ReadBits(au, &pos, 8)
 				if err != nil {
-					break
+					break loop
 				}
 				totalCount += int(escCount)
 			}
@@ -133,14 +134,14 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			var count uint64
 			count, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break loop
 			}
 			totalCount := int(count)
 			if count == 15 {
 				var escCount uint64
 				escCount, err = bits.ReadBits(au, &pos, 8)
 				if err != nil {
-					break
+					break loop
 				}
 				totalCount += int(escCount) - 1
 			}
-- 
2.43.0


From 2d8b9eaa1e3d97edd8e6c2f33604df79830c0c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 16/18] fix: reading zero bits at the end of a buffer does not
 panic

---
 pkg/bits/read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e6bf762..c55df16 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -25,6 +25,10 @@ func ReadBits(buf []byte, pos *int, n int) (uint64, error) {
 
 // ReadBitsUnsafe reads N bits.
 func ReadBitsUnsafe(buf []byte, pos *int, n int) uint64 {
+	if n == 0 {
+		return 0
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		v := uint64((buf[*pos>>0x03] >> (res - n)) & (1<<n - 1))
-- 
2.43.0


From ac3f3ca202526c35d85dff95388c183721ef5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 17/18] fix: h264: apply horizontal cropping to monochrome
 pictures

When ChromaArrayType is 0, CropUnitX is 1 (ITU-T H.264, equation 7-19),
not 0: frame_crop_left_offset and frame_crop_right_offset were ignored by
Width() with monochrome pictures and with separate colour planes.
---
 pkg/codecs/h264/sps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 616c25e..4384947 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -740,7 +740,7 @@ func (s SPS) Width() int {
 
 	var cropUnitX uint32
 	if chromaArrayType == 0 {
-		cropUnitX = 0
+		cropUnitX = 1
 	} else {
 		cropUnitX = subWidthC
 	}
-- 
2.43.0


From fa6b3385d17530f999ed260b9fe6858e145932e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 18/18] fix: mpeg1audio: return the right length of MPEG-2
 layer III frames

MPEG-2 layer III frames contain 576 samples, while FrameLen() assumed 1152
and returned twice the actual length: the MPEG-TS reader rejected or merged
valid frames.
---
 pkg/codecs/mpeg1audio/frame_header.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg1audio/frame_header.go b/pkg/codecs/mpeg1audio/frame_header.go
index 5e4c7a1..893f733 100644
--- a/pkg/codecs/mpeg1audio/frame_header.go
+++ b/pkg/codecs/mpeg1audio/frame_header.go
@@ -183,10 +183,16 @@ func (h *FrameHeader) Unmarshal(buf []byte) error {
 
 // FrameLen returns the length of the frame associated with the header.
 func (h FrameHeader) FrameLen() int {
+	coefficient := 144
+	if h.MPEG2 && h.Layer == 3 {
+		// frames contain half the samples
+		coefficient = 72
+	}
+
 	if h.Padding {
-		return (144 * h.Bitrate / h.SampleRate) + 1
+		return (coefficient * h.Bitrate / h.SampleRate) + 1
 	}
-	return (144 * h.Bitrate / h.SampleRate)
+	return (coefficient * h.Bitrate / h.SampleRate)
 }
 
 // SampleCount returns the number of samples contained into the frame.
-- 
2.43.0

