From a2187ccac5f81ca4047cf696cca3680f49487bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 01/13] fix: closing a stream no longer panics or blocks a read
 loop that is delivering a frame

---
 stream.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/stream.go b/stream.go
index e5379b3..ed7cc56 100644
--- a/stream.go
+++ b/stream.go
@@ -61,6 +61,7 @@ type FrameStream struct {
 	sync.RWMutex
 	inputFrames         chan Frame
 	outputFrames        chan Frame
+	outputMutex         sync.Mutex // held while outputFrames is sent to or closed
 	rwc                 io.ReadWriteCloser
 	reader              *bufio.Reader
 	writer              io.Writer
@@ -131,13 +132,18 @@ func (s *FrameStream) Closed() <-chan struct{} {
 func (s *FrameStream) close(err error) {
 	s.closeOnce.Do(func() {
 		s.Lock()
-		defer s.Unlock()
-
 		s.closeErr = err
+		s.Unlock()
 
 		s.rwc.Close()
-		close(s.outputFrames)
+
+		// Wake up a pending delivery before closing the channel it sends on
 		close(s.closed)
+
+		s.outputMutex.Lock()
+		defer s.outputMutex.Unlock()
+
+		close(s.outputFrames)
 	})
 }
 
@@ -175,6 +181,8 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 		case <-ctx.Done():
 			s.close(ctx.Err())
 			return
+		case <-s.closed:
+			return
 		default:
 			frame, err := s.readFrame(s.reader)
 
@@ -185,11 +193,30 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 			if s.logger != nil {
 				s.logger.LogRead(frame.Bytes())
 			}
-			s.outputFrames <- frame
+			s.deliver(ctx, frame)
 		}
 	}
 }
 
+// deliver hands the frame to the consumer, unless the stream is closed or the context is done first
+func (s *FrameStream) deliver(ctx context.Context, frame Frame) {
+	s.outputMutex.Lock()
+	defer s.outputMutex.Unlock()
+
+	select {
+	case <-s.closed:
+		// outputFrames may already be closed
+		return
+	default:
+	}
+
+	select {
+	case s.outputFrames <- frame:
+	case <-s.closed:
+	case <-ctx.Done():
+	}
+}
+
 func peekHeader(buffer []byte) (frameLength uint16, startFound bool) {
 	messageLength := buffer[1]
 	startByte := buffer[0]
-- 
2.43.0


From 66e55757fcee78cba078b9d1ba1f1d0131ecbc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 02/13] fix: the write loop returns when the stream is closed

---
 stream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream.go b/stream.go
index ed7cc56..f16c48d 100644
--- a/stream.go
+++ b/stream.go
@@ -157,6 +157,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 		case <-ctx.Done():
 			s.close(ctx.Err())
 			return
+		case <-s.closed:
+			return
 		case frame, ok := <-s.inputFrames:
 			if !ok {
 				s.close(ErrWriteChannelClosed)
-- 
2.43.0


From 156bb752db2d257c15a39904f1bdc6608a277507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 03/13] fix: reading the close error no longer races with
 closing

---
 stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream.go b/stream.go
index f16c48d..d20fd8b 100644
--- a/stream.go
+++ b/stream.go
@@ -148,6 +148,9 @@ func (s *FrameStream) close(err error) {
 }
 
 func (s *FrameStream) GetCloseErr() error {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.closeErr
 }
 
-- 
2.43.0


From c1005a399379f1df4e5ed6a747684f2a9ed65141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 04/13] fix: version 1 frames are built with sequence, system
 and component in wire order

---
 stream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream.go b/stream.go
index d20fd8b..0280cd0 100644
--- a/stream.go
+++ b/stream.go
@@ -337,9 +337,9 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		frameBytes = make([]byte, len(messageBytes)+6)
 		frameBytes[0] = V1StartByte
 		frameBytes[1] = uint8(len(messageBytes))
-		frameBytes[2] = senderSystemID
-		frameBytes[3] = senderComponentID
-		frameBytes[4] = messageSequence
+		frameBytes[2] = messageSequence
+		frameBytes[3] = senderSystemID
+		frameBytes[4] = senderComponentID
 
 		idBytes := make([]byte, 4)
 		binary.LittleEndian.PutUint32(idBytes, message.GetID())
-- 
2.43.0


From 109ed8806f5fdc4c3529608350e5933e28d72e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 05/13] fix: a signature is present if the incompatibility
 flags say so, not the compatibility flags

---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index a27cc43..27d1995 100644
--- a/frame.go
+++ b/frame.go
@@ -195,7 +195,7 @@ func (frame FrameV2) GetChecksumInput() []byte {
 
 // GetSignature returns the V2 Signature of the frame, if it exists
 func (frame FrameV2) GetSignature() []byte {
-	if frame.GetCompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
+	if frame.GetIncompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
 		return nil
 	}
 	start := frame.GetMessageLength() + 12
-- 
2.43.0


From 0a3e7cfef3e0d695e325af41f639dcd0775f0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 06/13] fix: all-zero version 2 payloads are truncated to one
 byte instead of growing by one

---
 util/util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 4ca91fd..01a54c7 100644
--- a/util/util.go
+++ b/util/util.go
@@ -1,15 +1,17 @@
 package util
 
+// TruncateV2 removes the trailing zero bytes of a payload, but never its first byte
 func TruncateV2(input []byte) []byte {
 	var i int
 	// Loop through the array in reverse until the first non-zero byte is found
-	for i = len(input); i > 0; i-- {
+	for i = len(input); i > 1; i-- {
 		if input[i-1] != 0 {
 			return input[:i]
 		}
 	}
 
-	return input
+	// The first byte is never truncated, even if it is zero
+	return input[:i]
 }
 
 // CStrLen returns the length of the null-terminated C string contained in the input buffer
-- 
2.43.0


From 03562e8966050e17c62af09636fd9dec665caa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 07/13] fix: an empty list of dialects knows no message

---
 dialect.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dialect.go b/dialect.go
index 1beea4e..b8e556d 100644
--- a/dialect.go
+++ b/dialect.go
@@ -37,6 +37,9 @@ type Dialects []Dialect
 
 // GetMessage decodes the message in the Frame
 func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
+	// Nothing is known until a Dialect says otherwise
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		message, err = dialect.GetMessage(frame)
 
@@ -59,6 +62,9 @@ func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
 func (d Dialects) GetFrame(version int, senderSystemID, senderComponentID, messageSequence uint8, message Message) (frame Frame, err error) {
 	var meta MessageMeta
 
+	// Nothing is known until a Dialect says otherwise
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(message.GetID())
 
@@ -85,7 +91,7 @@ func (d Dialects) Validate(frame Frame) error {
 	checksum.Reset()
 
 	var meta MessageMeta
-	var err error
+	err := ErrUnknownMessage // Nothing is known until a Dialect says otherwise
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(frame.GetMessageID())
 
-- 
2.43.0


From 49205a6755829aeea0ed0fee0a195955dc06c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 08/13] fix: V2Extension payload length stays within the
 payload for short and overlong frames

---
 common/v2_extension.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/v2_extension.go b/common/v2_extension.go
index 58bc6a5..5c6fdb5 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -163,7 +163,9 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 	copy(ioBytes, frame.GetMessageBytes())
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength()-5)))
+	// Trailing zeroes may have been truncated, and an invalid frame may be too long
+	payloadLength := math.Max(0, float64(frame.GetMessageLength())-5)
+	ioBytes[len(ioBytes)-1] = uint8(math.Min(payloadLength, float64(len(m.Payload))))
 
 	buffer := bytes.NewBuffer(ioBytes)
 
-- 
2.43.0


From 64447721710e9346283418cb48b785d66670fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 09/13] fix: variable-length V2Extension messages are not
 rejected as too short in version 1 frames

---
 common/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/dialect.go b/common/dialect.go
index cf90dd8..7725f73 100644
--- a/common/dialect.go
+++ b/common/dialect.go
@@ -190,7 +190,7 @@ var commonMessages = map[uint32]mavlink2.MessageMeta{
 	245:   mavlink2.MessageMeta{CRCExtra: 130, MinimumLength: 2, MaximumLength: 2},
 	246:   mavlink2.MessageMeta{CRCExtra: 184, MinimumLength: 38, MaximumLength: 38},
 	247:   mavlink2.MessageMeta{CRCExtra: 81, MinimumLength: 19, MaximumLength: 19},
-	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 254, MaximumLength: 254},
+	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 5, MaximumLength: 254},
 	249:   mavlink2.MessageMeta{CRCExtra: 204, MinimumLength: 36, MaximumLength: 36},
 	250:   mavlink2.MessageMeta{CRCExtra: 49, MinimumLength: 30, MaximumLength: 30},
 	251:   mavlink2.MessageMeta{CRCExtra: 170, MinimumLength: 18, MaximumLength: 18},
-- 
2.43.0


From 3c2364c4f4fec9029784ca285a19aa606d464762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 10/13] fix: refuse to build frames whose header cannot hold
 the message ID or length

---
 stream.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stream.go b/stream.go
index 0280cd0..6ce2427 100644
--- a/stream.go
+++ b/stream.go
@@ -321,6 +321,12 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		return
 	}
 
+	// V1 frames have only one byte for the message ID
+	if version == 1 && message.GetID() > 255 {
+		err = ErrEncodeV2MessageV1Frame
+		return
+	}
+
 	var frameBytes []byte
 	var messageBytes []byte
 
@@ -330,6 +336,12 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		return
 	}
 
+	// Frames have only one byte for the message length
+	if len(messageBytes) > 255 {
+		err = ErrMessageTooLong
+		return
+	}
+
 	x25 := X25CRC{}
 	x25.Reset()
 
-- 
2.43.0


From 78133234b5ccc93d55aa16761690cd8e6bf2b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 11/13] fix: the uAvionix dialect compiles

---
 uAvionix/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uAvionix/dialect.go b/uAvionix/dialect.go
index d9de5c4..2600ab9 100644
--- a/uAvionix/dialect.go
+++ b/uAvionix/dialect.go
@@ -62,7 +62,7 @@ var uavionixMessages = map[uint32]mavlink2.MessageMeta{
 	10003: mavlink2.MessageMeta{CRCExtra: 4, MinimumLength: 1, MaximumLength: 1},
 }
 
-var uAvionixParsers = map[uint32]mavlink2.FrameParser{
+var uavionixParsers = map[uint32]mavlink2.FrameParser{
 	10001: mavlink2.FrameParser(func(frame mavlink2.Frame) (message mavlink2.Message, err error) {
 		message = &UavionixAdsbOutCfg{}
 
-- 
2.43.0


From 653bbbaa379a7fdf9b8991d7f097194c82d36ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 12/13] fix: setting a text field clears the rest of a
 previous, longer value

---
 ardupilotmega/device_op_read.go     |  5 +++++
 ardupilotmega/device_op_write.go    |  5 +++++
 common/adsb_vehicle.go              |  5 +++++
 common/ais_vessel.go                | 10 ++++++++++
 common/auth_key.go                  |  5 +++++
 common/camera_image_captured.go     |  5 +++++
 common/camera_information.go        |  5 +++++
 common/change_operator_control.go   |  5 +++++
 common/component_information.go     |  5 +++++
 common/debug_float_array.go         |  5 +++++
 common/debug_vect.go                |  5 +++++
 common/named_value_float.go         |  5 +++++
 common/named_value_int.go           |  5 +++++
 common/open_drone_id_operator_id.go |  5 +++++
 common/open_drone_id_self_id.go     |  5 +++++
 common/param_ext_ack.go             | 10 ++++++++++
 common/param_ext_request_read.go    |  5 +++++
 common/param_ext_set.go             | 10 ++++++++++
 common/param_ext_value.go           | 10 ++++++++++
 common/param_map_rc.go              |  5 +++++
 common/param_request_read.go        |  5 +++++
 common/param_set.go                 |  5 +++++
 common/param_value.go               |  5 +++++
 common/play_tune.go                 | 10 ++++++++++
 common/play_tune_v2.go              |  5 +++++
 common/smart_battery_info.go        |  5 +++++
 common/statustext.go                |  5 +++++
 common/statustext_long.go           |  5 +++++
 common/uavcan_node_info.go          |  5 +++++
 common/video_stream_information.go  | 10 ++++++++++
 common/wifi_config_ap.go            | 10 ++++++++++
 paparazzi/script_item.go            |  5 +++++
 uAvionix/uavionix_adsb_out_cfg.go   |  5 +++++
 33 files changed, 200 insertions(+)

diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index fa99ade..678f20d 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -102,6 +102,11 @@ func (m *DeviceOpRead) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
 	copy(m.Busname[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Busname); i++ {
+		m.Busname[i] = 0
+	}
+
 	if len(input) > 40 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index cbff8ce..a2c6796 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -106,6 +106,11 @@ func (m *DeviceOpWrite) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
 	copy(m.Busname[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Busname); i++ {
+		m.Busname[i] = 0
+	}
+
 	if len(input) > 40 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index cd7493c..30113c1 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -118,6 +118,11 @@ func (m *AdsbVehicle) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
 	copy(m.Callsign[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Callsign); i++ {
+		m.Callsign[i] = 0
+	}
+
 	if len(input) > 9 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 2f81840..15c1ee8 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -134,6 +134,11 @@ func (m *AisVessel) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(7)))
 	copy(m.Callsign[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Callsign); i++ {
+		m.Callsign[i] = 0
+	}
+
 	if len(input) > 7 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -153,6 +158,11 @@ func (m *AisVessel) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 20 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/auth_key.go b/common/auth_key.go
index 40953ae..1312310 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -70,6 +70,11 @@ func (m *AuthKey) SetKey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
 	copy(m.Key[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Key); i++ {
+		m.Key[i] = 0
+	}
+
 	if len(input) > 32 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index ab33c9e..8925fad 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -110,6 +110,11 @@ func (m *CameraImageCaptured) SetFileURL(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(205)))
 	copy(m.FileURL[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.FileURL); i++ {
+		m.FileURL[i] = 0
+	}
+
 	if len(input) > 205 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/camera_information.go b/common/camera_information.go
index 14340b6..6544167 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -118,6 +118,11 @@ func (m *CameraInformation) SetCamDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
 	copy(m.CamDefinitionURI[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.CamDefinitionURI); i++ {
+		m.CamDefinitionURI[i] = 0
+	}
+
 	if len(input) > 140 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index d999970..bc4614c 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -82,6 +82,11 @@ func (m *ChangeOperatorControl) SetPasskey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(25)))
 	copy(m.Passkey[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Passkey); i++ {
+		m.Passkey[i] = 0
+	}
+
 	if len(input) > 25 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/component_information.go b/common/component_information.go
index caca03b..045f330 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -98,6 +98,11 @@ func (m *ComponentInformation) SetComponentDefinitionURI(input string) (err erro
 	clen := int(math.Min(float64(len(input)), float64(140)))
 	copy(m.ComponentDefinitionURI[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ComponentDefinitionURI); i++ {
+		m.ComponentDefinitionURI[i] = 0
+	}
+
 	if len(input) > 140 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index ce35d70..55f7037 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -99,6 +99,11 @@ func (m *DebugFloatArray) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 10 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/debug_vect.go b/common/debug_vect.go
index 52a2b4e..01b84c2 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -86,6 +86,11 @@ func (m *DebugVect) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 10 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/named_value_float.go b/common/named_value_float.go
index 492728a..bc914bd 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -78,6 +78,11 @@ func (m *NamedValueFloat) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 10 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/named_value_int.go b/common/named_value_int.go
index a347384..aa81c1d 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -78,6 +78,11 @@ func (m *NamedValueInt) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 10 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 5d0a1ee..329a3cc 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -74,6 +74,11 @@ func (m *OpenDroneIDOperatorID) SetOperatorID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
 	copy(m.OperatorID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.OperatorID); i++ {
+		m.OperatorID[i] = 0
+	}
+
 	if len(input) > 20 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 8f0eb12..95b8b31 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -74,6 +74,11 @@ func (m *OpenDroneIDSelfID) SetDescription(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(23)))
 	copy(m.Description[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Description); i++ {
+		m.Description[i] = 0
+	}
+
 	if len(input) > 23 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 6aafc61..0706e8e 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -82,6 +82,11 @@ func (m *ParamExtAck) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -101,6 +106,11 @@ func (m *ParamExtAck) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamValue); i++ {
+		m.ParamValue[i] = 0
+	}
+
 	if len(input) > 128 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index 6f95d4e..5c18efc 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -82,6 +82,11 @@ func (m *ParamExtRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 12c1530..146492f 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -86,6 +86,11 @@ func (m *ParamExtSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -105,6 +110,11 @@ func (m *ParamExtSet) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamValue); i++ {
+		m.ParamValue[i] = 0
+	}
+
 	if len(input) > 128 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 743dc97..08fee1d 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -86,6 +86,11 @@ func (m *ParamExtValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -105,6 +110,11 @@ func (m *ParamExtValue) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamValue); i++ {
+		m.ParamValue[i] = 0
+	}
+
 	if len(input) > 128 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 8aec9b0..cc74742 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -102,6 +102,11 @@ func (m *ParamMapRC) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 2a6456d..4dc6285 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -82,6 +82,11 @@ func (m *ParamRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_set.go b/common/param_set.go
index 8f5d597..119cc1c 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -86,6 +86,11 @@ func (m *ParamSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_value.go b/common/param_value.go
index 9cb1a20..b55ea96 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -86,6 +86,11 @@ func (m *ParamValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/play_tune.go b/common/play_tune.go
index 9aeff5e..f2157f8 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -99,6 +99,11 @@ func (m *PlayTune) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(30)))
 	copy(m.Tune[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Tune); i++ {
+		m.Tune[i] = 0
+	}
+
 	if len(input) > 30 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -118,6 +123,11 @@ func (m *PlayTune) SetTune2(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(200)))
 	copy(m.Tune2[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Tune2); i++ {
+		m.Tune2[i] = 0
+	}
+
 	if len(input) > 200 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index 4399c8c..d20162a 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -82,6 +82,11 @@ func (m *PlayTuneV2) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(248)))
 	copy(m.Tune[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Tune); i++ {
+		m.Tune[i] = 0
+	}
+
 	if len(input) > 248 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 82355e8..8da0258 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -106,6 +106,11 @@ func (m *SmartBatteryInfo) SetDeviceName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
 	copy(m.DeviceName[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.DeviceName); i++ {
+		m.DeviceName[i] = 0
+	}
+
 	if len(input) > 50 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/statustext.go b/common/statustext.go
index addfc4e..129242d 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -74,6 +74,11 @@ func (m *Statustext) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
 	copy(m.Text[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Text); i++ {
+		m.Text[i] = 0
+	}
+
 	if len(input) > 50 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/statustext_long.go b/common/statustext_long.go
index dff0134..8d17d33 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -74,6 +74,11 @@ func (m *StatustextLong) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(254)))
 	copy(m.Text[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Text); i++ {
+		m.Text[i] = 0
+	}
+
 	if len(input) > 254 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 00fb5c7..0a34b5c 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -102,6 +102,11 @@ func (m *UavcanNodeInfo) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(80)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 80 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index e8cd673..74e2f96 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -114,6 +114,11 @@ func (m *VIDeoStreamInformation) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 32 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -133,6 +138,11 @@ func (m *VIDeoStreamInformation) SetURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(160)))
 	copy(m.URI[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.URI); i++ {
+		m.URI[i] = 0
+	}
+
 	if len(input) > 160 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index 4b5febf..0f531eb 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -74,6 +74,11 @@ func (m *WifiConfigAp) SetSsID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
 	copy(m.SsID[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.SsID); i++ {
+		m.SsID[i] = 0
+	}
+
 	if len(input) > 32 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -93,6 +98,11 @@ func (m *WifiConfigAp) SetPassword(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(64)))
 	copy(m.Password[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Password); i++ {
+		m.Password[i] = 0
+	}
+
 	if len(input) > 64 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index cdb8974..e0d5376 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -82,6 +82,11 @@ func (m *ScriptItem) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 50 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 64dd936..07b2a2b 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -98,6 +98,11 @@ func (m *UavionixAdsbOutCfg) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
 	copy(m.Callsign[:], []byte(input)[:clen])
 
+	// Clear what is left of a previous, longer value
+	for i := clen; i < len(m.Callsign); i++ {
+		m.Callsign[i] = 0
+	}
+
 	if len(input) > 9 {
 		err = mavlink2.ErrValueTooLong
 	}
-- 
2.43.0


From 595608e6ec6652c864fe3dbcc200ed46aa129b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:23 +0000
Subject: [PATCH 13/13] fix: refuse to build frames for message IDs of more
 than 24 bits

---
 frame.go  | 3 +++
 stream.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/frame.go b/frame.go
index 27d1995..e6844b0 100644
--- a/frame.go
+++ b/frame.go
@@ -260,6 +260,9 @@ var ErrDecodeV2MessageV1Frame = fmt.Errorf("Unable to decode a V2 message from a
 // ErrEncodeV2MessageV1Frame indicates that a request was made to encode a V2 Message for use with a V1 Frame
 var ErrEncodeV2MessageV1Frame = fmt.Errorf("Unable to encode a V2 message to a V1 Frame")
 
+// ErrMessageIDTooLarge indicates that a Message ID does not fit into any Frame
+var ErrMessageIDTooLarge = fmt.Errorf("Message ID does not fit into a Frame")
+
 // ErrValueTooLong indicates that a Message field is unable to hold the requested string
 // and that the string was truncated to fit
 var ErrValueTooLong = fmt.Errorf("The input string was too long and was truncated")
diff --git a/stream.go b/stream.go
index 6ce2427..ddaf18e 100644
--- a/stream.go
+++ b/stream.go
@@ -327,6 +327,12 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		return
 	}
 
+	// V2 frames have only three bytes for the message ID
+	if message.GetID() > 0xffffff {
+		err = ErrMessageIDTooLarge
+		return
+	}
+
 	var frameBytes []byte
 	var messageBytes []byte
 
-- 
2.43.0

