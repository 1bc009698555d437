From 74af5afbd6f2055f362e6b2411b58d40bad014d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 01/27] fix: decode a cancelled splice_insert

unique_program_id, avail_num and avails_expected are only present when
splice_event_cancel_indicator is 0 (and are only encoded then), so every
cancelled splice_insert failed to decode.
---
 pkg/scte35/splice_insert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 30af225..b101c2d 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -162,10 +162,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 			r.Skip(6) // reserved
 			cmd.BreakDuration.Duration = r.Uint64(33)
 		}
+		cmd.UniqueProgramID = r.Uint32(16)
+		cmd.AvailNum = r.Uint32(8)
+		cmd.AvailsExpected = r.Uint32(8)
 	}
-	cmd.UniqueProgramID = r.Uint32(16)
-	cmd.AvailNum = r.Uint32(8)
-	cmd.AvailsExpected = r.Uint32(8)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_insert: %w", err)
-- 
2.43.0


From 07b2bcb2c05d36421ccf715e201a2eb3c594afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 02/27] fix: encode and decode cancelled splice_schedule events

unique_program_id, avail_num and avails_expected are only present when
splice_event_cancel_indicator is 0, which is what length() assumes. A schedule
with a cancelled event could be neither encoded nor decoded.
---
 pkg/scte35/splice_schedule.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef47b7a..487a34a 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -81,10 +81,10 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 				r.Skip(6) // reserved
 				e.BreakDuration.Duration = r.Uint64(33)
 			}
+			e.UniqueProgramID = r.Uint32(16)
+			e.AvailNum = r.Uint32(8)
+			e.AvailsExpected = r.Uint32(8)
 		}
-		e.UniqueProgramID = r.Uint32(16)
-		e.AvailNum = r.Uint32(8)
-		e.AvailsExpected = r.Uint32(8)
 		cmd.Events[i] = e
 	}
 
@@ -124,10 +124,10 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 				iow.PutUint32(6, Reserved)
 				iow.PutUint64(33, e.BreakDuration.Duration)
 			}
+			iow.PutUint32(16, e.UniqueProgramID)
+			iow.PutUint32(8, e.AvailNum)
+			iow.PutUint32(8, e.AvailsExpected)
 		}
-		iow.PutUint32(16, e.UniqueProgramID)
-		iow.PutUint32(8, e.AvailNum)
-		iow.PutUint32(8, e.AvailsExpected)
 	}
 
 	err := iow.Flush()
-- 
2.43.0


From a74d1db55ccd2eb2de41918ddd752c6e1fc238a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 03/27] fix: encode audio_descriptor

audio_count is 4 bits wide and the writer was never flushed, so the encoded
descriptor was shifted by half a byte and incomplete.
---
 pkg/scte35/audio_descriptor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 4ad6c18..78df1e3 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -81,7 +81,7 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
 	iow.PutUint32(32, CUEIdentifier)
-	iow.PutUint32(8, uint32(len(sd.AudioChannels)))
+	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
@@ -90,7 +90,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 		iow.PutUint32(4, ad.NumChannels)
 		iow.PutBit(ad.FullSrvcAudio)
 	}
-	return buf, nil
+
+	err := iow.Flush()
+	return buf, err
 }
 
 // descriptorLength returns the descriptor_length
-- 
2.43.0


From ff2862afa2b82b5e4b0ac3a8cf8a4d5d7cf94ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 04/27] fix: keep a private_command when loading XML

The PrivateCommand element was parsed and then dropped, leaving a signal
without a splice command.
---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a392c95..135244d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -436,6 +436,9 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	if i.BandwidthReservation != nil {
 		return i.BandwidthReservation
 	}
+	if i.PrivateCommand != nil {
+		return i.PrivateCommand
+	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-- 
2.43.0


From 8cea942351fe3e918d72473cc1eda354406e9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 05/27] fix: include E_CRC_32 in CRC_32

CRC_32 was calculated while E_CRC_32 was still in the bit writer's cache, so
every signal with an encryption_algorithm was encoded with a wrong CRC_32.
---
 pkg/scte35/splice_info_section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 135244d..e22c46f 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -212,6 +212,10 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Encoding encrypted signals is untested.
 	if sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone {
 		iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // E_CRC_32
+		// E_CRC_32 must be in buf before CRC_32 is calculated over it
+		if err := iow.Flush(); err != nil {
+			return buf, err
+		}
 	}
 
 	// Re-calculate CRC_32 to ensure correctness
-- 
2.43.0


From 20dcbc57c64751fe16b8f18c159655bebcc30efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 06/27] fix: do not alias the caller's buffer after decoding

Private bytes, alignment stuffing and checksums were slices of the buffer
passed to Decode: reusing a receive buffer changed signals decoded earlier, and
appending to the private bytes of one descriptor overwrote the next one's.
---
 pkg/scte35/private_command.go     | 3 ++-
 pkg/scte35/private_descriptor.go  | 3 ++-
 pkg/scte35/splice_info_section.go | 9 +++++----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index bb62457..a60fa7b 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/xml"
 	"fmt"
@@ -60,7 +61,7 @@ func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
 
 	cmd.Identifier = r.Uint32(32)
-	cmd.PrivateBytes = r.LeftBytes()
+	cmd.PrivateBytes = bytes.Clone(r.LeftBytes())
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(cmd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 7a3985c..8034e2a 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/xml"
 	"fmt"
@@ -54,7 +55,7 @@ func (sd *PrivateDescriptor) decode(b []byte) error {
 	sd.PrivateTag = r.Uint32(8)
 	r.Skip(8) // descriptor_length
 	sd.Identifier = r.Uint32(32)
-	sd.PrivateBytes = r.LeftBytes()
+	sd.PrivateBytes = bytes.Clone(r.LeftBytes())
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(sd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index e22c46f..47d406d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
@@ -122,16 +123,16 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = bytes.Clone(r.Bytes(stuffedBytes))
 		}
-		sis.ecrc32 = r.Bytes(4)
+		sis.ecrc32 = bytes.Clone(r.Bytes(4))
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = bytes.Clone(r.Bytes(stuffedBytes))
 		}
 	}
-	sis.crc32 = r.Bytes(4)
+	sis.crc32 = bytes.Clone(r.Bytes(4))
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From a3e8c595465d165183e8cc363ed32094a8463c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 07/27] fix: discard earlier content when loading into a used
 SpliceInfoSection

Decoding into an object that held another signal kept that signal's alignment
stuffing (also when loading JSON or XML) and, when decoding stopped early, its
command and descriptors, so the new signal was re-encoded with foreign content.
---
 pkg/scte35/splice_info_section.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 47d406d..4319c59 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -81,6 +81,9 @@ func (sis *SpliceInfoSection) Base64() string {
 
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
+	// start afresh; nothing may be carried over from an earlier signal
+	*sis = SpliceInfoSection{}
+
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
@@ -321,6 +324,8 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	// start afresh; nothing may be carried over from an earlier signal
+	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
@@ -341,6 +346,9 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+
+	// start afresh; nothing may be carried over from an earlier signal
+	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
-- 
2.43.0


From 48e9b4a21c15b1bb628d3aefb6fd794a473a7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 08/27] fix: decode legacy splice_null and
 bandwidth_reservation signals

Unconsumed bytes after these empty commands were reported as an overflow rather
than an underflow, so legacy signals (splice_command_length 0xFFF), where an
underflow is expected, could not be decoded.
---
 pkg/scte35/bandwidth_reservation.go | 2 +-
 pkg/scte35/splice_null.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c6607f7..c14c258 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -52,7 +52,7 @@ func (cmd *BandwidthReservation) Type() uint32 {
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferOverflow)
+		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 6ac71cf..7edf6af 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -46,7 +46,7 @@ func (cmd *SpliceNull) Type() uint32 {
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("splice_null: %w", ErrBufferOverflow)
+		return fmt.Errorf("splice_null: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
-- 
2.43.0


From b8bcfea43a59270cc6eb89a2d38a60531ec2c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 09/27] fix: load preRollMilliSeconds from XML

The attribute is written to XML but was dropped when reading it back.
---
 pkg/scte35/splice_info_section.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 4319c59..0feccb3 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -357,6 +357,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -426,6 +427,7 @@ type iSIS struct {
 	PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand" json:"-"`
 	SpliceDescriptors    SpliceDescriptors     `xml:",any" json:"spliceDescriptors"`
 	SAPType              *uint32               `xml:"sapType,attr" json:"sapType,omitempty"`
+	PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr" json:"-"`
 	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
 	ProtocolVersion      uint32                `xml:"protocolVersion,attr" json:"protocolVersion"`
 	Tier                 uint32                `xml:"tier,attr" json:"tier"`
-- 
2.43.0


From 24f9276758d7201c4ebcbddb1a272b657028040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 10/27] fix: utc_splice_time from 2106 on

The sum of GPS seconds and epoch offset wrapped at 32 bits, so late splice times
were shown, and handed on in JSON and XML, as dates in the 1970s.
---
 pkg/scte35/scte35.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index c8fab99..2a0256d 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -125,7 +125,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec+unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
 	}
 }
 
-- 
2.43.0


From bb077e095a803621c02fd1254f4035daf92a044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 11/27] fix: do not write to signals when rendering or encoding
 them

Type() and Tag() stored the JSON type in the command or descriptor, so
encoding, printing or marshalling one signal from two goroutines was a data
race. The type is now added while marshalling. MarshalJSON no longer panics on a
signal without a splice command either (scte35 decode --out json of garbage).
---
 pkg/scte35/audio_descriptor.go        | 11 +++++++++--
 pkg/scte35/avail_descriptor.go        | 11 +++++++++--
 pkg/scte35/bandwidth_reservation.go   | 11 +++++++++--
 pkg/scte35/dtmf_descriptor.go         | 11 +++++++++--
 pkg/scte35/private_command.go         | 11 +++++++++--
 pkg/scte35/private_descriptor.go      | 11 +++++++++--
 pkg/scte35/segmentation_descriptor.go | 11 +++++++++--
 pkg/scte35/splice_info_section.go     |  7 -------
 pkg/scte35/splice_insert.go           | 10 +++++++++-
 pkg/scte35/splice_null.go             | 11 +++++++++--
 pkg/scte35/splice_schedule.go         | 11 +++++++++--
 pkg/scte35/time_descriptor.go         | 11 +++++++++--
 pkg/scte35/time_signal.go             | 11 +++++++++--
 13 files changed, 108 insertions(+), 30 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 78df1e3..8fa6db9 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -41,11 +42,17 @@ type AudioDescriptor struct {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *AudioDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = AudioDescriptorTag
 	return AudioDescriptorTag
 }
 
+// MarshalJSON encodes this AudioDescriptor to JSON, including its type.
+func (sd *AudioDescriptor) MarshalJSON() ([]byte, error) {
+	type alias AudioDescriptor
+	tmp := alias(*sd)
+	tmp.JSONType = sd.Tag()
+	return json.Marshal(tmp)
+}
+
 // decode updates this SpliceDescriptor from binary.
 func (sd *AudioDescriptor) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/avail_descriptor.go b/pkg/scte35/avail_descriptor.go
index 3d0ea7a..4715eab 100644
--- a/pkg/scte35/avail_descriptor.go
+++ b/pkg/scte35/avail_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -43,11 +44,17 @@ type AvailDescriptor struct {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *AvailDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = AvailDescriptorTag
 	return AvailDescriptorTag
 }
 
+// MarshalJSON encodes this AvailDescriptor to JSON, including its type.
+func (sd *AvailDescriptor) MarshalJSON() ([]byte, error) {
+	type alias AvailDescriptor
+	tmp := alias(*sd)
+	tmp.JSONType = sd.Tag()
+	return json.Marshal(tmp)
+}
+
 // writeTo the given table.
 func (sd *AvailDescriptor) writeTo(t *table) {
 	t.row(0, "avail_descriptor() {", nil)
diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c14c258..eede620 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 )
@@ -44,11 +45,17 @@ type BandwidthReservation struct {
 
 // Type returns the splice_command_type.
 func (cmd *BandwidthReservation) Type() uint32 {
-	// ensure JSONType is set
-	cmd.JSONType = BandwidthReservationType
 	return BandwidthReservationType
 }
 
+// MarshalJSON encodes this BandwidthReservation to JSON, including its type.
+func (cmd *BandwidthReservation) MarshalJSON() ([]byte, error) {
+	type alias BandwidthReservation
+	tmp := alias(*cmd)
+	tmp.JSONType = cmd.Type()
+	return json.Marshal(tmp)
+}
+
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 2183bd8..9017db6 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -53,11 +54,17 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *DTMFDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = DTMFDescriptorTag
 	return DTMFDescriptorTag
 }
 
+// MarshalJSON encodes this DTMFDescriptor to JSON, including its type.
+func (sd *DTMFDescriptor) MarshalJSON() ([]byte, error) {
+	type alias DTMFDescriptor
+	tmp := alias(*sd)
+	tmp.JSONType = sd.Tag()
+	return json.Marshal(tmp)
+}
+
 // decode updates this splice_descriptor from binary.
 func (sd *DTMFDescriptor) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index a60fa7b..09d3d98 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -19,6 +19,7 @@ package scte35
 import (
 	"bytes"
 	"encoding/binary"
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -51,11 +52,17 @@ func (cmd *PrivateCommand) IdentifierString() string {
 
 // Type returns the splice_command_type.
 func (cmd *PrivateCommand) Type() uint32 {
-	// ensure JSONType is set
-	cmd.JSONType = PrivateCommandType
 	return PrivateCommandType
 }
 
+// MarshalJSON encodes this PrivateCommand to JSON, including its type.
+func (cmd *PrivateCommand) MarshalJSON() ([]byte, error) {
+	type alias PrivateCommand
+	tmp := alias(*cmd)
+	tmp.JSONType = cmd.Type()
+	return json.Marshal(tmp)
+}
+
 // decode a binary private_command.
 func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 8034e2a..778301f 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -19,6 +19,7 @@ package scte35
 import (
 	"bytes"
 	"encoding/binary"
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -43,11 +44,17 @@ func (sd *PrivateDescriptor) IdentifierString() string {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *PrivateDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = sd.PrivateTag
 	return sd.PrivateTag
 }
 
+// MarshalJSON encodes this PrivateDescriptor to JSON, including its type.
+func (sd *PrivateDescriptor) MarshalJSON() ([]byte, error) {
+	type alias PrivateDescriptor
+	tmp := alias(*sd)
+	tmp.JSONType = sd.Tag()
+	return json.Marshal(tmp)
+}
+
 // decode updates this splice_descriptor from binary.
 func (sd *PrivateDescriptor) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index d4611c0..919ec3c 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -294,11 +295,17 @@ func (sd *SegmentationDescriptor) Name() string {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *SegmentationDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = SegmentationDescriptorTag
 	return SegmentationDescriptorTag
 }
 
+// MarshalJSON encodes this SegmentationDescriptor to JSON, including its type.
+func (sd *SegmentationDescriptor) MarshalJSON() ([]byte, error) {
+	type alias SegmentationDescriptor
+	tmp := alias(*sd)
+	tmp.JSONType = sd.Tag()
+	return json.Marshal(tmp)
+}
+
 // DeliveryNotRestrictedFlag returns the delivery_not_restricted_flag.
 func (sd *SegmentationDescriptor) DeliveryNotRestrictedFlag() bool {
 	return sd.DeliveryRestrictions == nil
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 0feccb3..bf6ef27 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -292,13 +292,6 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 
 // MarshalJSON encodes a SpliceInfoSection to JSON.
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
-	// ensure JSONTypes are all set before marshalling. These are included in
-	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	sis.SpliceCommand.Type()
-	for i := range sis.SpliceDescriptors {
-		sis.SpliceDescriptors[i].Tag()
-	}
-
 	m := map[string]interface{}{
 		"encryptedPacket": sis.EncryptedPacket,
 		"spliceCommand":   sis.SpliceCommand,
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index b101c2d..e8713cd 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -64,10 +65,17 @@ func (cmd *SpliceInsert) TimeSpecifiedFlag() bool {
 
 // Type returns the splice_command_type.
 func (cmd *SpliceInsert) Type() uint32 {
-	cmd.JSONType = SpliceInsertType
 	return SpliceInsertType
 }
 
+// MarshalJSON encodes this SpliceInsert to JSON, including its type.
+func (cmd *SpliceInsert) MarshalJSON() ([]byte, error) {
+	type alias SpliceInsert
+	tmp := alias(*cmd)
+	tmp.JSONType = cmd.Type()
+	return json.Marshal(tmp)
+}
+
 // writeTo the given table.
 func (cmd *SpliceInsert) writeTo(t *table) {
 	t.row(0, "splice_insert() {", nil)
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 7edf6af..2635711 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 )
@@ -38,11 +39,17 @@ type SpliceNull struct {
 
 // Type returns the splice_command_type.
 func (cmd *SpliceNull) Type() uint32 {
-	// ensure JSONType is set
-	cmd.JSONType = SpliceNullType
 	return SpliceNullType
 }
 
+// MarshalJSON encodes this SpliceNull to JSON, including its type.
+func (cmd *SpliceNull) MarshalJSON() ([]byte, error) {
+	type alias SpliceNull
+	tmp := alias(*cmd)
+	tmp.JSONType = cmd.Type()
+	return json.Marshal(tmp)
+}
+
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 487a34a..d7f9376 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -40,11 +41,17 @@ type SpliceSchedule struct {
 
 // Type returns the splice_command_type
 func (cmd *SpliceSchedule) Type() uint32 {
-	// ensure the JSONType is set correctly.
-	cmd.JSONType = SpliceScheduleType
 	return SpliceScheduleType
 }
 
+// MarshalJSON encodes this SpliceSchedule to JSON, including its type.
+func (cmd *SpliceSchedule) MarshalJSON() ([]byte, error) {
+	type alias SpliceSchedule
+	tmp := alias(*cmd)
+	tmp.JSONType = cmd.Type()
+	return json.Marshal(tmp)
+}
+
 // decode a binary splice_schedule.
 func (cmd *SpliceSchedule) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/time_descriptor.go b/pkg/scte35/time_descriptor.go
index 3d61885..2b7d9b1 100644
--- a/pkg/scte35/time_descriptor.go
+++ b/pkg/scte35/time_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -44,11 +45,17 @@ type TimeDescriptor struct {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *TimeDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = TimeDescriptorTag
 	return TimeDescriptorTag
 }
 
+// MarshalJSON encodes this TimeDescriptor to JSON, including its type.
+func (sd *TimeDescriptor) MarshalJSON() ([]byte, error) {
+	type alias TimeDescriptor
+	tmp := alias(*sd)
+	tmp.JSONType = sd.Tag()
+	return json.Marshal(tmp)
+}
+
 // table returns the tabular description of this TimeDescriptor.
 func (sd *TimeDescriptor) writeTo(t *table) {
 	t.row(0, "time_descriptor() {", nil)
diff --git a/pkg/scte35/time_signal.go b/pkg/scte35/time_signal.go
index 3f60d18..2d84847 100644
--- a/pkg/scte35/time_signal.go
+++ b/pkg/scte35/time_signal.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -53,11 +54,17 @@ type TimeSignal struct {
 
 // Type returns the splice_command_type.
 func (cmd *TimeSignal) Type() uint32 {
-	// ensure JSONType is set
-	cmd.JSONType = TimeSignalType
 	return TimeSignalType
 }
 
+// MarshalJSON encodes this TimeSignal to JSON, including its type.
+func (cmd *TimeSignal) MarshalJSON() ([]byte, error) {
+	type alias TimeSignal
+	tmp := alias(*cmd)
+	tmp.JSONType = cmd.Type()
+	return json.Marshal(tmp)
+}
+
 // decode a binary time_signal
 func (cmd *TimeSignal) decode(b []byte) error {
 	r := iobit.NewReader(b)
-- 
2.43.0


From 3317db4f00cae9391a739fe5d823207dd3108d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 12/27] fix: keep white space that is part of a UPID, and do
 not write to it

valueBytes stored the trimmed value back into the signal: encoding or printing a
signal changed it (a data race when shared), and a relayed UPID lost its padding
or, for binary UPIDs such as UUID, its leading and trailing bytes 0x09-0x0d,
0x20, 0x85 and 0xa0. White space is insignificant in XML documents only, so it is
now removed when loading XML.
---
 pkg/scte35/segmentation_upid.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5e26ccc..240ecde 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -21,6 +21,7 @@ import (
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
+	"encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -139,6 +140,19 @@ type SegmentationUPID struct {
 	Value            string  `xml:",chardata" json:"value"`
 }
 
+// UnmarshalXML decodes a SegmentationUPID from XML. White space around the value
+// is formatting of the XML document and not part of the UPID.
+func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type alias SegmentationUPID
+	var tmp alias
+	if err := d.DecodeElement(&tmp, &start); err != nil {
+		return err
+	}
+	tmp.Value = strings.TrimSpace(tmp.Value)
+	*upid = SegmentationUPID(tmp)
+	return nil
+}
+
 // Name returns the name for the segmentation_upid_type.
 func (upid *SegmentationUPID) Name() string {
 	switch upid.Type {
@@ -257,16 +271,14 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
-	upid.Value = strings.TrimSpace(upid.Value)
-
 	// this switch should align with the constructor above
 	switch upid.Type {
 	// EIDR - custom
 	case SegmentationUPIDTypeEIDR:
-		return upid.compressEIDR(upid.Value)
+		return upid.compressEIDR(strings.TrimSpace(upid.Value))
 	// ISAN - base64
 	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated:
-		b, err := base64.StdEncoding.DecodeString(upid.Value)
+		b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(upid.Value))
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -276,7 +288,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	case SegmentationUPIDTypeMPU:
 		b := make([]byte, 4)
 		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
-		v, err := base64.StdEncoding.DecodeString(upid.Value)
+		v, err := base64.StdEncoding.DecodeString(strings.TrimSpace(upid.Value))
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
-- 
2.43.0


From f0141724cd500d9e335913fff916bdbc64848f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 13/27] fix: binary EIDRs that contain the byte 0x2f

Such an EIDR was taken for its canonical text form and reported as 12 raw bytes,
which JSON and XML cannot carry.
---
 pkg/scte35/segmentation_upid.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 240ecde..0e73cab 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -315,13 +315,13 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 
 // canonicalEIDR returns a canonical EIDR.
 func canonicalEIDR(b []byte) string {
-	// already canonical
-	if bytes.Contains(b, []byte("/")) {
-		return string(b)
-	}
-
-	// dunno what this is
 	if len(b) != 12 {
+		// already canonical
+		if bytes.Contains(b, []byte("/")) {
+			return string(b)
+		}
+
+		// dunno what this is
 		Logger.Printf("Unexpected eidr value received: %s", b)
 		return ""
 	}
-- 
2.43.0


From 362581ee79cf132c8e13a555677d3379269f9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 14/27] fix: print sub-segment numbers

Table printed the addresses of sub_segment_num and sub_segments_expected instead
of their values, so its output differed from call to call.
---
 pkg/scte35/table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/table.go b/pkg/scte35/table.go
index 702e16e..23feb3b 100644
--- a/pkg/scte35/table.go
+++ b/pkg/scte35/table.go
@@ -69,6 +69,11 @@ func valueString(value any) string {
 		return strconv.FormatUint(uint64(vt), 10)
 	case uint64:
 		return strconv.FormatUint(vt, 10)
+	case *uint32:
+		if vt == nil {
+			return ""
+		}
+		return strconv.FormatUint(uint64(*vt), 10)
 	case *uint64:
 		if vt == nil {
 			return ""
-- 
2.43.0


From 9fdaae346e596cc2685a0629c0d2fa1e2c2c9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 15/27] fix: refuse null as a splice descriptor in JSON

It was loaded as a nil SpliceDescriptor, on which encoding and printing the
signal panicked.
---
 pkg/scte35/splice_descriptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 655d728..9277ba9 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -94,6 +94,10 @@ func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 
 	// decode each item
 	for i := range items {
+		if string(items[i]) == "null" {
+			return fmt.Errorf("unsupported splice_descriptor: null")
+		}
+
 		sdt := sdtype{Identifier: CUEIdentifier}
 		if err := json.Unmarshal(items[i], &sdt); err != nil {
 			return err
-- 
2.43.0


From a6ebfb62159330e32dbc5d46b4ce37e11b7a8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 16/27] fix: refuse to encode a signal without a splice command

The result lacked splice_command_length and splice_command_type, had a wrong
checksum and could not be decoded.
---
 pkg/scte35/scte35.go              |  3 +++
 pkg/scte35/splice_info_section.go | 24 +++++++++++++-----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 2a0256d..4675633 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -47,6 +47,9 @@ var (
 	// ErrBufferOverflow is returned when decoding requires more bytes than are
 	// available.
 	ErrBufferOverflow = errors.New("buffer overflow")
+	// ErrNotEncodable is returned when encoding a signal that has no valid binary
+	// representation.
+	ErrNotEncodable = errors.New("not encodable")
 	// ErrUnsupportedEncoding is returned if the signal is not a base-64 encoded
 	// string.
 	ErrUnsupportedEncoding = errors.New("invalid or unsupported encoding")
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index bf6ef27..d18d12a 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -171,6 +171,10 @@ func (sis *SpliceInfoSection) Duration() time.Duration {
 // Encode returns the binary representation of this SpliceInfoSection as a
 // byte array.
 func (sis *SpliceInfoSection) Encode() ([]byte, error) {
+	if sis.SpliceCommand == nil {
+		return nil, fmt.Errorf("splice_info_section: %w: no splice_command", ErrNotEncodable)
+	}
+
 	buf := make([]byte, sis.length())
 
 	iow := iobit.NewWriter(buf)
@@ -187,16 +191,14 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	iow.PutUint32(8, sis.EncryptedPacket.CWIndex)
 	iow.PutUint32(12, sis.Tier)
 
-	if sis.SpliceCommand != nil {
-		iow.PutUint32(12, uint32(sis.SpliceCommand.length()))
-		iow.PutUint32(8, sis.SpliceCommand.Type())
-		sc, err := sis.SpliceCommand.encode()
-		if err != nil {
-			return buf, err
-		}
-		if _, err = iow.Write(sc); err != nil {
-			return buf, err
-		}
+	iow.PutUint32(12, uint32(sis.SpliceCommand.length()))
+	iow.PutUint32(8, sis.SpliceCommand.Type())
+	sc, err := sis.SpliceCommand.encode()
+	if err != nil {
+		return buf, err
+	}
+	if _, err = iow.Write(sc); err != nil {
+		return buf, err
 	}
 
 	iow.PutUint32(16, uint32(sis.descriptorLoopLength()))
@@ -225,7 +227,7 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Re-calculate CRC_32 to ensure correctness
 	iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // CRC_32
 
-	err := iow.Flush()
+	err = iow.Flush()
 	return buf, err
 }
 
-- 
2.43.0


From d7123b97d5e60609ed910b026b3469de13afc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 17/27] fix: refuse an MPU UPID without a format identifier

A document may omit the attribute; encoding or printing the signal then
panicked.
---
 pkg/scte35/segmentation_descriptor.go | 6 ++++++
 pkg/scte35/segmentation_upid.go       | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index 919ec3c..2b72b9d 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -438,6 +438,12 @@ func (sd *SegmentationDescriptor) decode(b []byte) error {
 
 // encode this splice_descriptor to binary.
 func (sd *SegmentationDescriptor) encode() ([]byte, error) {
+	for i := range sd.SegmentationUPIDs {
+		if sd.SegmentationUPIDs[i].Type == SegmentationUPIDTypeMPU && sd.SegmentationUPIDs[i].FormatIdentifier == nil {
+			return nil, fmt.Errorf("segmentation_descriptor: %w: no format_identifier", ErrNotEncodable)
+		}
+	}
+
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 0e73cab..cf6a1ee 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -264,6 +264,9 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 
 // formatIdentifierString returns the format identifier as a string
 func (upid *SegmentationUPID) formatIdentifierString() string {
+	if upid.FormatIdentifier == nil {
+		return ""
+	}
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
 	return string(b)
@@ -287,7 +290,9 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
 		b := make([]byte, 4)
-		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		if upid.FormatIdentifier != nil {
+			binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		}
 		v, err := base64.StdEncoding.DecodeString(strings.TrimSpace(upid.Value))
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
-- 
2.43.0


From 286ed1c4d7bbe4ebbe190e69e91c61d08c533ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 18/27] fix: read all of standard input as it is

scte35 encode joined the lines of its input without separator, which broke XML
with attributes on separate lines, and refused lines longer than 64 KB.
---
 cmd/encode.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index cd3850d..d63477f 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -17,10 +17,10 @@
 package cmd
 
 import (
-	"bufio"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 
@@ -47,15 +47,13 @@ func encodeCommand() *cobra.Command {
 			if len(args) == 1 {
 				input = args[0]
 			} else {
-				scanner := bufio.NewScanner(os.Stdin)
-				for scanner.Scan() {
-					input += scanner.Text()
-				}
-				err = scanner.Err()
+				var b []byte
+				b, err = io.ReadAll(os.Stdin)
 				if err != nil {
 					_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 					return
 				}
+				input = string(b)
 			}
 
 			switch {
-- 
2.43.0


From ea114dd1da5f8c94ddb2ac40cde070660e1252f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 19/27] fix: refuse to encode signals that outgrow the format

section_length, descriptor_length, counts and the ISO_code length wrapped or were
cut off silently, giving corrupt signals.
---
 pkg/scte35/audio_descriptor.go    |  9 +++++++++
 pkg/scte35/dtmf_descriptor.go     |  4 ++++
 pkg/scte35/scte35.go              | 10 ++++++++++
 pkg/scte35/splice_info_section.go | 12 ++++++++++++
 pkg/scte35/splice_insert.go       |  4 ++++
 pkg/scte35/splice_schedule.go     |  9 +++++++++
 6 files changed, 48 insertions(+)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 8fa6db9..57fbabe 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -80,6 +80,15 @@ func (sd *AudioDescriptor) decode(b []byte) error {
 
 // encode this SpliceDescriptor to binary.
 func (sd *AudioDescriptor) encode() ([]byte, error) {
+	if err := checkCount("audio_descriptor: audio_count", len(sd.AudioChannels), 15); err != nil {
+		return nil, err
+	}
+	for i := range sd.AudioChannels {
+		if len(sd.AudioChannels[i].ISOCode) != 3 {
+			return nil, fmt.Errorf("audio_descriptor: %w: ISO_code %q is not 3 characters long", ErrNotEncodable, sd.AudioChannels[i].ISOCode)
+		}
+	}
+
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 9017db6..fca1f68 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -84,6 +84,10 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 
 // encode this splice_descriptor to binary.
 func (sd *DTMFDescriptor) encode() ([]byte, error) {
+	if err := checkCount("dtmf_descriptor: dtmf_count", len(sd.DTMFChars), 7); err != nil {
+		return nil, err
+	}
+
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 4675633..5f5c0ab 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -22,6 +22,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"log"
 	"math"
 	"strings"
@@ -142,6 +143,15 @@ func (t UTCSpliceTime) GPSSeconds() uint32 {
 	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
 }
 
+// checkCount returns an error if n elements are more than the named field can
+// count.
+func checkCount(name string, n int, limit int) error {
+	if n > limit {
+		return fmt.Errorf("%s: %w: %d exceeds %d", name, ErrNotEncodable, n, limit)
+	}
+	return nil
+}
+
 // readerError returns the readers error state, if any.
 func readerError(r iobit.Reader) error {
 	if r.LeftBits() > 0 {
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index d18d12a..7ab39a4 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -37,6 +37,11 @@ const (
 	// PrivateIndicator is a 1-bit flag that shall be set to 0.
 	PrivateIndicator = false
 
+	// maxSectionLength is the largest value of section_length.
+	maxSectionLength = 4093
+	// maxDescriptorLength is the largest value of descriptor_length.
+	maxDescriptorLength = 255
+
 	// SAPType1 indicates closed GOP with no leading pictures.
 	SAPType1 = uint32(0x0)
 	// SAPType2 indicates closed GOP with leading pictures.
@@ -175,6 +180,10 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 		return nil, fmt.Errorf("splice_info_section: %w: no splice_command", ErrNotEncodable)
 	}
 
+	if length := sis.sectionLength(); length > maxSectionLength {
+		return nil, fmt.Errorf("splice_info_section: %w: section_length %d exceeds %d", ErrNotEncodable, length, maxSectionLength)
+	}
+
 	buf := make([]byte, sis.length())
 
 	iow := iobit.NewWriter(buf)
@@ -203,6 +212,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 
 	iow.PutUint32(16, uint32(sis.descriptorLoopLength()))
 	for _, sd := range sis.SpliceDescriptors {
+		if length := sd.length(); length > maxDescriptorLength {
+			return nil, fmt.Errorf("splice_descriptor: %w: descriptor_length %d exceeds %d", ErrNotEncodable, length, maxDescriptorLength)
+		}
 		sde, err := sd.encode()
 		if err != nil {
 			return buf, err
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index e8713cd..abdde25 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -183,6 +183,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 
 // encode this splice_insert to binary.
 func (cmd *SpliceInsert) encode() ([]byte, error) {
+	if err := checkCount("splice_insert: component_count", len(cmd.Components), 255); err != nil {
+		return nil, err
+	}
+
 	buf := make([]byte, cmd.length())
 
 	iow := iobit.NewWriter(buf)
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index d7f9376..4e549a1 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -103,6 +103,15 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 
 // encode this splice_schedule to binary.
 func (cmd *SpliceSchedule) encode() ([]byte, error) {
+	if err := checkCount("splice_schedule: splice_count", len(cmd.Events), 255); err != nil {
+		return nil, err
+	}
+	for i := range cmd.Events {
+		if err := checkCount("splice_schedule: component_count", len(cmd.Events[i].Components), 255); err != nil {
+			return nil, err
+		}
+	}
+
 	buf := make([]byte, cmd.length())
 	iow := iobit.NewWriter(buf)
 
-- 
2.43.0


From b1ed6085ef5b34283e05c86a577f66d6acb4df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 20/27] fix: report a dtmf_descriptor whose dtmf_count exceeds
 the characters present

---
 pkg/scte35/dtmf_descriptor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index fca1f68..2c4e525 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -79,7 +79,10 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("dtmf_descriptor: %w", err)
 	}
-	return readerError(r)
+	if len(sd.DTMFChars) < dtmfCount {
+		return fmt.Errorf("dtmf_descriptor: dtmf_count: %w", ErrBufferOverflow)
+	}
+	return nil
 }
 
 // encode this splice_descriptor to binary.
-- 
2.43.0


From bbf2cf25f6bb556a8be8f9880d936d91b8b618ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 21/27] fix: refuse a JSON signal whose splice command cannot
 be understood

---
 pkg/scte35/splice_info_section.go | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 7ab39a4..cdeb2f0 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -331,10 +331,15 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	// start afresh; nothing may be carried over from an earlier signal
 	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -354,10 +359,15 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		return err
 	}
 
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	// start afresh; nothing may be carried over from an earlier signal
 	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -441,30 +451,30 @@ type iSIS struct {
 }
 
 // SpliceCommand returns the polymorphic splice_command.
-func (i *iSIS) SpliceCommand() SpliceCommand {
+func (i *iSIS) SpliceCommand() (SpliceCommand, error) {
 	// xml unmarshalls to the corresponding struct
 	if i.SpliceNull != nil {
-		return i.SpliceNull
+		return i.SpliceNull, nil
 	}
 	if i.SpliceSchedule != nil {
-		return i.SpliceSchedule
+		return i.SpliceSchedule, nil
 	}
 	if i.SpliceInsert != nil {
-		return i.SpliceInsert
+		return i.SpliceInsert, nil
 	}
 	if i.TimeSignal != nil {
-		return i.TimeSignal
+		return i.TimeSignal, nil
 	}
 	if i.BandwidthReservation != nil {
-		return i.BandwidthReservation
+		return i.BandwidthReservation, nil
 	}
 	if i.PrivateCommand != nil {
-		return i.PrivateCommand
+		return i.PrivateCommand, nil
 	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-		return nil
+		return nil, nil
 	}
 
 	// struct to determine the splice command's type
@@ -475,16 +485,14 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	// get the type
 	var st sctype
 	if err := json.Unmarshal(i.SpliceCommandRaw, &st); err != nil {
-		Logger.Printf("error unmarshalling splice command type: %s", err)
-		return nil
+		return nil, fmt.Errorf("error unmarshalling splice command type: %w", err)
 	}
 
 	// and decode it
 	sc := NewSpliceCommand(st.Type)
 	if err := json.Unmarshal(i.SpliceCommandRaw, sc); err != nil {
-		Logger.Printf("error unmarshalling splice command: %s", err)
-		return nil
+		return nil, fmt.Errorf("error unmarshalling splice command: %w", err)
 	}
 
-	return sc
+	return sc, nil
 }
-- 
2.43.0


From 9b7c43443d253cd1bb7ce1f8d3b7f2635c079e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 22/27] fix: refuse to encode a UPID whose value has no binary
 form

---
 pkg/scte35/segmentation_descriptor.go |  3 +++
 pkg/scte35/segmentation_upid.go       | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index 2b72b9d..d41f8cc 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -442,6 +442,9 @@ func (sd *SegmentationDescriptor) encode() ([]byte, error) {
 		if sd.SegmentationUPIDs[i].Type == SegmentationUPIDTypeMPU && sd.SegmentationUPIDs[i].FormatIdentifier == nil {
 			return nil, fmt.Errorf("segmentation_descriptor: %w: no format_identifier", ErrNotEncodable)
 		}
+		if !sd.SegmentationUPIDs[i].hasBinaryForm() {
+			return nil, fmt.Errorf("segmentation_descriptor: %w: segmentation_upid %q", ErrNotEncodable, sd.SegmentationUPIDs[i].Value)
+		}
 	}
 
 	length := sd.length()
diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index cf6a1ee..850f19a 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -272,6 +272,26 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 	return string(b)
 }
 
+// hasBinaryForm returns false if the value cannot be carried by the binary form
+// of its segmentation_upid_type.
+func (upid *SegmentationUPID) hasBinaryForm() bool {
+	var err error
+	switch upid.Type {
+	case SegmentationUPIDTypeEIDR:
+		// hyphens and the case of hexadecimal digits are not significant
+		s := strings.TrimSpace(upid.Value)
+		c := canonicalEIDR(upid.compressEIDR(s))
+		return strings.EqualFold(strings.ReplaceAll(c, "-", ""), strings.ReplaceAll(s, "-", ""))
+	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated, SegmentationUPIDTypeMPU:
+		_, err = base64.StdEncoding.DecodeString(strings.TrimSpace(upid.Value))
+	case SegmentationUPIDTypeTI:
+		_, err = strconv.ParseUint(strings.TrimSpace(upid.Value), 10, 64)
+	default:
+		_, err = charmap.ISO8859_1.NewEncoder().String(upid.Value)
+	}
+	return err == nil
+}
+
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
 	// this switch should align with the constructor above
-- 
2.43.0


From 9bf4b4e2ba5d964c9f7a015db47fb45d0c460adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 23/27] fix: accept white space around privateBytes, as around
 any other hexBinary

White space around a hexBinary value is formatting of the XML document.
Documents written with it, as many XML formatters do, were refused.
---
 pkg/scte35/scte35.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 5f5c0ab..339d462 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -115,9 +115,10 @@ func (bb Bytes) MarshalText() ([]byte, error) {
 	return []byte(tmp), nil
 }
 
-// UnmarshalText decodes a hexadecimal string.
+// UnmarshalText decodes a hexadecimal string. White space around it is
+// formatting of the document.
 func (bb *Bytes) UnmarshalText(b []byte) error {
-	tmp, err := hex.DecodeString(string(b))
+	tmp, err := hex.DecodeString(strings.TrimSpace(string(b)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8712d7e7e95017b3d6a6aa6a0c9553f56e5a4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 24/27] fix: accept escaped characters in the JSON form of a
 UTCSpliceTime

time.Time does not decode JSON escapes, so a time such as
"2024-01-01T00:00:00\u002B00:00", as JSON encoders that escape the plus
sign write it, was refused.
---
 pkg/scte35/scte35.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 339d462..005ddc7 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -21,6 +21,7 @@ package scte35
 import (
 	"encoding/base64"
 	"encoding/hex"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"log"
@@ -139,6 +140,19 @@ type UTCSpliceTime struct {
 	time.Time
 }
 
+// UnmarshalJSON decodes a UTCSpliceTime from JSON. Unlike time.Time, it accepts
+// a string in which characters are escaped, such as \u002B for the plus sign.
+func (t *UTCSpliceTime) UnmarshalJSON(b []byte) error {
+	if string(b) == "null" {
+		return nil
+	}
+	var s string
+	if err := json.Unmarshal(b, &s); err != nil {
+		return err
+	}
+	return t.UnmarshalText([]byte(s))
+}
+
 // GPSSeconds returns the seconds since GPS Epoch
 func (t UTCSpliceTime) GPSSeconds() uint32 {
 	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
-- 
2.43.0


From 3271687eeeba370266193bc43df9014e98fa6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 25/27] fix: report a splice_descriptor that the descriptor
 loop cuts short

---
 pkg/scte35/splice_descriptor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 9277ba9..f605959 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -169,6 +169,11 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		descriptorLength := int(sdr.Uint32(8))
 		identifier := sdr.Uint32(32)
 
+		// The loop may end before this splice_descriptor does.
+		if descriptorLength+2 > len(r.LeftBytes()) {
+			err = fmt.Errorf("splice_descriptor: descriptor_length: %w", ErrBufferOverflow)
+		}
+
 		// Decode the full splice_descriptor (including splice_descriptor_tag
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
-- 
2.43.0


From 0f600baf1dc290a26e9fd08bf72ef96be6284074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:51 +0000
Subject: [PATCH 26/27] fix: report a section that leaves no room for its
 checksums

---
 pkg/scte35/splice_info_section.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index cdeb2f0..1679df4 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -128,6 +128,15 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 		return err
 	}
 
+	// what came before may have left less than E_CRC_32 and CRC_32 need
+	crcLength := 4 // bytes
+	if encryptedPacket {
+		crcLength += 4
+	}
+	if len(r.LeftBytes()) < crcLength {
+		return fmt.Errorf("splice_info_section: crc_32: %w", ErrBufferOverflow)
+	}
+
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
 		if stuffedBytes > 0 {
-- 
2.43.0


From 2fc7bc28374dee0de9aee78c4553316928fba7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 27/27] fix: refuse to encode values that are too wide for
 their field

---
 pkg/scte35/splice_info_section.go |   4 +
 pkg/scte35/widths.go              | 162 ++++++++++++++++++++++++++++++
 2 files changed, 166 insertions(+)
 create mode 100644 pkg/scte35/widths.go

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 1679df4..8ffbe40 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -189,6 +189,10 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 		return nil, fmt.Errorf("splice_info_section: %w: no splice_command", ErrNotEncodable)
 	}
 
+	if err := sis.checkWidths(); err != nil {
+		return nil, fmt.Errorf("splice_info_section: %w", err)
+	}
+
 	if length := sis.sectionLength(); length > maxSectionLength {
 		return nil, fmt.Errorf("splice_info_section: %w: section_length %d exceeds %d", ErrNotEncodable, length, maxSectionLength)
 	}
diff --git a/pkg/scte35/widths.go b/pkg/scte35/widths.go
new file mode 100644
index 0000000..2ebcdbb
--- /dev/null
+++ b/pkg/scte35/widths.go
@@ -0,0 +1,162 @@
+// Copyright 2021 Comcast Cable Communications Management, LLC
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or   implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+// SPDX-License-Identifier: Apache-2.0
+
+package scte35
+
+import "fmt"
+
+// checkWidths returns an error if a value of this signal needs more bits than
+// its field has. Fields that are not transmitted are not considered.
+func (sis *SpliceInfoSection) checkWidths() error {
+	var w widthChecker
+	w.check("sap_type", uint64(sis.SAPType), 2)
+	w.check("protocol_version", uint64(sis.ProtocolVersion), 8)
+	w.check("encryption_algorithm", uint64(sis.EncryptedPacket.EncryptionAlgorithm), 6)
+	w.check("pts_adjustment", sis.PTSAdjustment, 33)
+	w.check("cw_index", uint64(sis.EncryptedPacket.CWIndex), 8)
+	w.check("tier", uint64(sis.Tier), 12)
+
+	switch cmd := sis.SpliceCommand.(type) {
+	case *SpliceInsert:
+		w.checkSpliceInsert(cmd)
+	case *SpliceSchedule:
+		for i := range cmd.Events {
+			w.checkEvent(&cmd.Events[i])
+		}
+	case *TimeSignal:
+		w.checkSpliceTime(&cmd.SpliceTime)
+	}
+
+	for _, sd := range sis.SpliceDescriptors {
+		switch sd := sd.(type) {
+		case *AudioDescriptor:
+			for i := range sd.AudioChannels {
+				w.check("component_tag", uint64(sd.AudioChannels[i].ComponentTag), 8)
+				w.check("bit_stream_mode", uint64(sd.AudioChannels[i].BitStreamMode), 3)
+				w.check("num_channels", uint64(sd.AudioChannels[i].NumChannels), 4)
+			}
+		case *DTMFDescriptor:
+			w.check("preroll", uint64(sd.Preroll), 8)
+		case *PrivateDescriptor:
+			w.check("splice_descriptor_tag", uint64(sd.PrivateTag), 8)
+		case *SegmentationDescriptor:
+			w.checkSegmentationDescriptor(sd)
+		case *TimeDescriptor:
+			w.check("tai_seconds", sd.TAISeconds, 48)
+			w.check("utc_offset", uint64(sd.UTCOffset), 16)
+		}
+	}
+	return w.err
+}
+
+// widthChecker remembers the first value that is too wide for its field.
+type widthChecker struct {
+	err error
+}
+
+// check a value of the named field, which has the given number of bits.
+func (w *widthChecker) check(name string, v uint64, bits uint) {
+	if w.err == nil && v>>bits != 0 {
+		w.err = fmt.Errorf("%s: %w: %d needs more than %d bits", name, ErrNotEncodable, v, bits)
+	}
+}
+
+func (w *widthChecker) checkSpliceTime(t *SpliceTime) {
+	if t.PTSTime != nil {
+		w.check("pts_time", *t.PTSTime, 33)
+	}
+}
+
+func (w *widthChecker) checkUTCSpliceTime(t UTCSpliceTime) {
+	if sec := t.Unix() - int64(unixEpochToGPSEpoch); w.err == nil && sec>>32 != 0 {
+		w.err = fmt.Errorf("utc_splice_time: %w: %s", ErrNotEncodable, t)
+	}
+}
+
+func (w *widthChecker) checkBreakDuration(d *BreakDuration) {
+	if d != nil {
+		w.check("duration", d.Duration, 33)
+	}
+}
+
+func (w *widthChecker) checkSpliceInsert(cmd *SpliceInsert) {
+	if cmd.SpliceEventCancelIndicator {
+		return
+	}
+	if cmd.ProgramSpliceFlag() {
+		if !cmd.SpliceImmediateFlag {
+			w.checkSpliceTime(&cmd.Program.SpliceTime)
+		}
+	} else {
+		for i := range cmd.Components {
+			c := &cmd.Components[i]
+			w.check("component_tag", uint64(c.Tag), 8)
+			if !cmd.SpliceImmediateFlag && c.SpliceTime != nil {
+				w.checkSpliceTime(c.SpliceTime)
+			}
+		}
+	}
+	w.checkBreakDuration(cmd.BreakDuration)
+	w.check("unique_program_id", uint64(cmd.UniqueProgramID), 16)
+	w.check("avail_num", uint64(cmd.AvailNum), 8)
+	w.check("avails_expected", uint64(cmd.AvailsExpected), 8)
+}
+
+func (w *widthChecker) checkEvent(e *Event) {
+	if e.SpliceEventCancelIndicator {
+		return
+	}
+	if e.ProgramSpliceFlag() {
+		w.checkUTCSpliceTime(e.Program.UTCSpliceTime)
+	} else {
+		for i := range e.Components {
+			w.check("component_tag", uint64(e.Components[i].Tag), 8)
+			w.checkUTCSpliceTime(e.Components[i].UTCSpliceTime)
+		}
+	}
+	w.checkBreakDuration(e.BreakDuration)
+	w.check("unique_program_id", uint64(e.UniqueProgramID), 16)
+	w.check("avail_num", uint64(e.AvailNum), 8)
+	w.check("avails_expected", uint64(e.AvailsExpected), 8)
+}
+
+func (w *widthChecker) checkSegmentationDescriptor(sd *SegmentationDescriptor) {
+	if sd.SegmentationEventCancelIndicator {
+		return
+	}
+	if sd.DeliveryRestrictions != nil {
+		w.check("device_restrictions", uint64(sd.DeliveryRestrictions.DeviceRestrictions), 2)
+	}
+	for i := range sd.Components {
+		w.check("component_tag", uint64(sd.Components[i].Tag), 8)
+		w.check("pts_offset", sd.Components[i].PTSOffset, 33)
+	}
+	if sd.SegmentationDuration != nil {
+		w.check("segmentation_duration", *sd.SegmentationDuration, 40)
+	}
+	for i := range sd.SegmentationUPIDs {
+		w.check("segmentation_upid_type", uint64(sd.SegmentationUPIDs[i].Type), 8)
+	}
+	w.check("segmentation_type_id", uint64(sd.SegmentationTypeID), 8)
+	w.check("segment_num", uint64(sd.SegmentNum), 8)
+	w.check("segments_expected", uint64(sd.SegmentsExpected), 8)
+	if sd.SubSegmentNum != nil {
+		w.check("sub_segment_num", uint64(*sd.SubSegmentNum), 8)
+	}
+	if sd.SubSegmentsExpected != nil {
+		w.check("sub_segments_expected", uint64(*sd.SubSegmentsExpected), 8)
+	}
+}
-- 
2.43.0

