#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Only intact, dialect-valid frames are delivered in strict mode",
 "A stream that was not asked to return invalid frames delivers only byte sequences that occurred contiguously in its input, in input order and without overlap, that form exactly one complete MAVLink 1 or 2 frame (a signed version 2 frame includes its 13 signature bytes). Each delivered frame has a message ID known to the configured dialects, a payload length that dialect allows, and the checksum computed with that message's CRC seed. Corrupted, truncated or foreign bytes are never delivered.",
 ["inputs", "configurations"], "every input byte stream, every transport segmentation, every dialect list",
 "The tests feed ten fixed buffers; soundness is a statement about every byte string, including adversarial nestings and single-bit corruptions.",
 ["stream.go", "dialect.go", "frame.go", "x25.go"],
 [("frame scanner", "stream.go:readFrame"), ("frame verdict", "dialect.go:Dialects.Validate"), ("length peek", "stream.go:peekHeader")],
 [("scan buffer", "bytes received and not yet consumed", "stream.go:FrameStream.buffer, bufferIndex")], ["FrameStream.Read()"])

prop("C02", "Resynchronisation loses no valid frame and delivers each exactly once",
 "The frames delivered by a strict stream are exactly those found by scanning the input left to right: at a start byte whose declared length has fully arrived, a valid frame is delivered once and scanning resumes right behind it, and at any other byte (or an invalid candidate) scanning resumes one byte later. So no garbage, false start byte or corrupted frame can hide, duplicate or reorder a valid frame that begins after it. A frame is delivered as soon as it and the declared length of every earlier candidate that has to be rejected first have arrived, without waiting for any further input; only a candidate still incomplete at the end of input, and what lies behind it, stays undelivered.",
 ["inputs", "histories"], "every sequence of valid frames, corrupted frames, false starts and junk, and every point in the arrival of the bytes",
 "Tests check a handful of concatenations; frames embedded in corrupted frames, maximal-length and signed frames, and long histories through the reused scan buffer are not reached.",
 ["stream.go", "dialect.go"],
 [("one-byte skip on an invalid candidate", "stream.go:readFrame"), ("consume exactly the frame length", "stream.go:readFrame")],
 [("scan buffer", "bytes received and not yet consumed", "stream.go:FrameStream.buffer, bufferIndex")], ["FrameStream.Read()"])

prop("C03", "Delivered frames do not depend on how the transport segments bytes",
 "For one and the same input byte sequence, the sequence of delivered frames is the same however the transport splits it over reads: one byte at a time, whole, at arbitrary cut points, with empty reads, or with the last data arriving together with end of input.",
 ["inputs", "schedules"], "every input, every partition of it into transport reads, both delivery modes",
 "Every existing test reads from one in-memory buffer that returns everything in one read.",
 ["stream.go"],
 [("read-at-least loop over a persistent scan buffer", "stream.go:readFrame")],
 [("scan buffer", "bytes received and not yet consumed", "stream.go:FrameStream.buffer, bufferIndex")], ["FrameStream.Read()", "io.ReadWriteCloser.Read"])

prop("C04", "Lenient mode adds invalid candidates and changes nothing else",
 "A stream configured to return invalid frames delivers, in input order, every complete candidate that begins with a start byte, valid or not, each exactly once with exactly its own bytes. After an invalid candidate scanning resumes one byte later and after a valid one behind it, so dropping the invalid frames from this sequence leaves exactly what a strict stream delivers for the same input.",
 ["inputs", "configurations"], "every input byte stream and segmentation, with the two delivery modes compared",
 "Tests check lengths of six candidates of one buffer in this mode; the relation between the two modes is never tested.",
 ["stream.go"],
 [("copy and return of the rejected candidate", "stream.go:readFrame")],
 [("delivery mode", "whether rejected candidates are returned", "stream.go:FrameStream.returnInvalidFrames")], ["FrameStream.Read()"])

prop("C05", "A delivered frame is an immutable private copy",
 "The bytes of a delivered frame never change because of anything the stream does later, and changing the bytes of one delivered frame never affects any other frame, delivered earlier or later.",
 ["histories"], "every history of deliveries, with frames retained and modified by the consumer at any point",
 "Tests look at a frame only immediately after receiving it, so aliasing with the reused scan buffer is invisible.",
 ["stream.go", "frame.go"],
 [("copy before the scan buffer is shifted", "stream.go:readFrame, frame.go:FrameFromBytes")],
 [("scan buffer", "reused for all frames", "stream.go:FrameStream.buffer")], ["Frame.Bytes()"])

prop("C06", "Closing is safe, idempotent and complete under any interleaving",
 "However closing is triggered - by the user, a cancelled context, a transport error, end of input, or the write channel being closed, any number of times and concurrently with reading, delivering, writing and logging - nothing panics, no data race occurs, and the transport is closed exactly once. Afterwards both the closed signal and the delivery channel are closed, and neither is closed before closing was triggered.",
 ["schedules", "fault_sequences"], "every interleaving of the two loops, consumers, producers, cancellations, faults and Close calls",
 "No test closes a stream at all, let alone while a frame is being delivered.",
 ["stream.go"],
 [("close once", "stream.go:FrameStream.close"), ("delivery excluded from channel close", "stream.go:ReadContext")],
 [("closed signal", "closed exactly once", "stream.go:FrameStream.closed"), ("delivery channel", "closed with the stream", "stream.go:FrameStream.outputFrames")],
 ["FrameStream.Closed()", "FrameStream.Read()", "io.ReadWriteCloser.Close"])

prop("C07", "A closed stream winds down: both loops return and waiters wake up",
 "Once a stream is closed for any reason, the read loop and the write loop both return without needing further traffic (provided the transport's Close unblocks its own pending calls), even if a frame was waiting for a consumer that never comes, and every consumer waiting for a frame is released. A cancelled context is noticed by an idle write loop at once, and by a read loop that is waiting for a consumer at once or otherwise before it reads another frame.",
 ["schedules", "fault_sequences"], "every blocking point of either loop at which closing or cancellation can hit, with absent or slow consumers and producers",
 "No test cancels a context, closes a stream or lacks a consumer.",
 ["stream.go"],
 [("loops select on context and closed signal", "stream.go:ReadContext, WriteContext")],
 [("closed signal", "wakes both loops", "stream.go:FrameStream.closed")], ["return of ReadContext / WriteContext", "FrameStream.Read()"])

prop("C08", "The close reason is the first cause, available on close, and stable",
 "The close error is nil until the stream closes and is then the cause that closed it: user-closed for Close, the context's error for cancellation, write-channel-closed for a closed write channel, or the transport's own error for a failed read or write (end of input shows as EOF or unexpected EOF). It is already available to anyone who has seen the closed signal or the closed delivery channel, and no later event changes it.",
 ["schedules", "fault_sequences"], "every order and concurrency of several close causes",
 "Only one test reads the close error, on a stream that is never closed.",
 ["stream.go"],
 [("reason recorded before the signals", "stream.go:FrameStream.close")],
 [("close error", "first cause", "stream.go:FrameStream.closeErr")], ["FrameStream.GetCloseErr()"])

prop("C09", "Frames are written once, whole, in order, one transport write each",
 "Every frame the write loop accepts from the write channel is passed to the transport exactly once, as one write call carrying exactly that frame's bytes, in acceptance order, and the next frame is not written before the previous write returned. After a failed write no further frame is written. The only accepted frame that may go unwritten is one that was accepted while the stream was closing.",
 ["schedules", "histories", "fault_sequences"], "every sequence of accepted frames, blocking and failing transport writes, and concurrent closing or cancellation",
 "One test writes one frame to a transport that never fails.",
 ["stream.go"],
 [("sequential write loop", "stream.go:WriteContext")],
 [("write channel", "frames to be written", "stream.go:FrameStream.inputFrames")], ["io.ReadWriteCloser.Write"])

prop("C10", "The logger sees exactly the traffic",
 "With a logger configured, every delivered frame was logged as read exactly once, with exactly its bytes, in delivery order and before it was delivered, and at most one logged frame goes undelivered (the one in hand when the stream closes). Every successfully written frame is logged as written exactly once, after its write, in order; frames whose write failed are not logged. A logger that returns errors changes nothing else, and without a logger the traffic is the same.",
 ["histories", "fault_sequences", "configurations"], "every traffic history, logger error and write failure, with slow loggers and closing in between",
 "Tests log a single frame in each direction with a logger that never fails.",
 ["stream.go"],
 [("log calls in the loops", "stream.go:ReadContext, WriteContext")], [], ["FrameLogger.LogRead", "FrameLogger.LogWritten"])

prop("C11", "Frames built by the library carry what was asked and pass validation",
 "For every message of a configured dialect, the frame built for given version, system ID, component ID and sequence number reads back exactly these values and the message's ID, declares exactly the payload produced by encoding the message for that version, has no flags or signature set, and ends with the correct checksum. The same dialects therefore accept it as valid, and decode it to the same message.",
 ["inputs", "configurations"], "every message type and field values, both versions, all header values",
 "No test builds a frame.",
 ["stream.go", "dialect.go", "frame.go"],
 [("frame packing", "stream.go:packFrame"), ("frame accessors", "frame.go")], [], ["Dialects.GetFrame", "Frame.Bytes()"])

prop("C12", "Decoding an encoded message gives the message back",
 "For every message type and all field values, encoding for version 2 and decoding yields the same field values, and encoding for version 1 and decoding yields the same values with the extension fields zero. Version 2 payloads carry no trailing zero bytes beyond the first byte and decode as if zero-padded; version 1 payloads always have the base length (for the variable-length V2Extension message, 5 plus the payload length; its payload comes back exactly from version 1, and up to trailing zeros from version 2). A message decoded from a payload of a length its definition allows reports protocol version 2 exactly if it came from a version 2 frame and its definition has extension fields.",
 ["inputs"], "every message type of every shipped dialect, all field values, both versions",
 "No test encodes or decodes any message.",
 ["common", "ardupilotmega", "asluav", "autoquad", "icarous", "matrixpilot", "paparazzi", "slugs", "uAvionix", "ualberta", "util/util.go"],
 [("generated Read/Write", "<dialect>/<message>.go"), ("zero truncation", "util/util.go:TruncateV2")], [], ["Message.Write", "Message.Read"])

prop("C13", "Message definitions match the MAVLink wire definitions",
 "For every message of every shipped dialect, the ID, CRC seed, minimum and maximum payload length, decoder and message name agree with the dialect's MAVLink definition, and the encoded payload places every field, little-endian, at the offset that definition prescribes. Exactly the defined IDs are known: for every other ID a dialect reports an unknown message.",
 ["inputs", "configurations"], "all dialects, all 24-bit message IDs, every field of every message",
 "The tests touch two of 329 messages and check no field at all.",
 ["common/dialect.go", "ardupilotmega/dialect.go", "asluav/dialect.go", "autoquad/dialect.go", "icarous/dialect.go", "matrixpilot/dialect.go", "paparazzi/dialect.go", "slugs/dialect.go", "uAvionix/dialect.go", "ualberta/dialect.go"],
 [("generated metadata and parser tables", "<dialect>/dialect.go"), ("generated struct layout", "<dialect>/<message>.go")], [], ["Dialect.GetMeta", "Dialect.GetMessage", "Message.Write"])

prop("C14", "Version limits are enforced, never silently bent",
 "Only versions 1 and 2 can be encoded, and any other version is refused with the unsupported-version error. A message whose ID exceeds 255 can neither be encoded for, put into, nor decoded from a version 1 frame: each attempt returns the corresponding error. A frame is never produced whose header misstates the message's ID or its payload length.",
 ["inputs", "configurations"], "every message type, known and unknown, every version number, every payload size",
 "No test requests an encoding, a bad version or a mismatched frame.",
 ["stream.go", "message.go", "common"],
 [("version guards", "<dialect>/<message>.go:Read, Write; stream.go:packFrame")], [], ["Message.Write", "Message.Read", "Dialects.GetFrame"])

prop("C15", "Dialect lists resolve in order and unknown messages survive intact",
 "For decoding, building and validating alike, the first dialect in the list that knows a message ID decides, and an error other than unknown-message from a dialect stops the search and is returned. If no dialect knows the ID (in particular for an empty list), decoding, building and validating all return the unknown-message error, and decoding returns with it an unknown message carrying the frame's ID, version and an independent copy of the exact payload.",
 ["configurations", "inputs"], "every list of dialects, overlapping or failing, and every frame",
 "Tests use one fixed list of two dialects and only look up IDs that the first one knows.",
 ["dialect.go", "message.go"],
 [("ordered search", "dialect.go:Dialects.GetMessage, GetFrame, Validate"), ("unknown message", "message.go:UnknownMessage.Read")], [], ["Dialects.GetMessage", "Dialects.GetFrame", "Dialects.Validate"])

prop("C16", "The validation verdict is exact and has a fixed precedence",
 "For every complete frame, validation returns no error exactly if the message is known, the payload is not longer than the maximum, not shorter than the minimum for version 1, and the checksum over everything between start byte and checksum plus the CRC seed matches; otherwise it returns the unknown-message, too-short, too-long or invalid-checksum error, in this order of precedence. In particular every single-bit or single-byte corruption of the checksummed bytes (other than the length and message ID bytes) or of the checksum turns a valid frame invalid, and validation never modifies the frame.",
 ["inputs", "configurations"], "every complete frame, every corruption of a valid frame, every dialect list",
 "Tests exercise two bad checksums and nothing else.",
 ["dialect.go", "x25.go", "frame.go"],
 [("verdict", "dialect.go:Dialects.Validate")], [], ["Dialects.Validate"])

prop("C17", "Frame accessors report exactly what is on the wire",
 "For every complete frame, each accessor returns the value the MAVLink 1 or 2 layout places in those bytes: length, sequence, system, component, 8- or 24-bit message ID, flags, payload, checksum and checksum input. A signature is reported exactly if the incompatibility flags mark the frame as signed, and is then the 13 bytes behind the checksum. Accessors and formatting neither fail nor change the frame.",
 ["inputs"], "every complete frame of either version, signed or not, with all flag values and payload lengths",
 "Tests read four header fields of one unsigned frame.",
 ["frame.go"],
 [("accessors", "frame.go:FrameV1, FrameV2, FrameFromBytes")], [], ["Frame accessors", "FrameFromBytes"])

prop("C18", "The checksum is CRC-16/MCRF4XX, however the data is split",
 "After a reset, the checksum object yields the CRC-16/MCRF4XX (X.25) value of all bytes written since, independent of how they were split over writes; reading the sum appends it little-endian to the given bytes and does not disturb the running value. Writes always report the full length and no error, and a reset starts afresh from any state.",
 ["inputs", "histories"], "every sequence of writes, sums and resets over arbitrary data",
 "The checksum has no test of its own.",
 ["x25.go"],
 [("table-less update", "x25.go:X25CRC.Write")], [("value", "running CRC", "x25.go:X25CRC.value")], ["X25CRC"])

prop("C19", "Text and payload fields hold exactly what was last set",
 "Setting a text field and getting it returns the text that was set, up to its first NUL and cut to the field's capacity, whatever the field held before; the too-long error is returned exactly if text was cut. Bytes behind the text in the field are zero, and no other field changes. The variable-length payload of a V2Extension message likewise returns exactly the bytes last set, cut to capacity with the same error, and reading it never fails on any decoded frame.",
 ["inputs", "histories"], "every message with text fields, every sequence of set, get and encode/decode with texts of any length and content",
 "No test uses a text field.",
 ["common", "ardupilotmega", "uAvionix", "util/util.go"],
 [("generated setters/getters", "<dialect>/<message>.go:Set*, Get*"), ("NUL search", "util/util.go:CStrLen")], [], ["Set*/Get* methods of messages"])

prop("C20", "A UDP endpoint talks to the first peer that spoke, datagram by datagram",
 "Before any datagram has been received, writing fails with the no-address error and sends nothing. From the first received datagram on, every write goes as exactly one datagram with exactly the given bytes to the sender of that first datagram, even if other peers send later. Each read returns the payload of exactly one received datagram, in arrival order, from whichever peer.",
 ["histories", "inputs"], "every sequence of datagrams from several peers, reads and writes",
 "Tests only open sockets; nothing is read or written.",
 ["util/udpreadwritecloser.go"],
 [("first sender is remembered", "util/udpreadwritecloser.go:Read")],
 [("peer", "address that writes go to", "util/udpreadwritecloser.go:lastAddr")], ["UDPReadWriteCloser.Read", "UDPReadWriteCloser.Write"])

prop("C21", "UDP reads, writes and close do not block each other",
 "A read waiting for a datagram delays neither writes, which complete at once, nor close; closing makes the pending read and all later reads and writes fail promptly (a write that has no peer yet fails with the no-address error). A failed read never sets the peer. Concurrent use from several goroutines loses, duplicates or mixes up no datagram.",
 ["schedules", "fault_sequences"], "every interleaving of pending reads, writes and close from several goroutines",
 "No test has two operations in flight.",
 ["util/udpreadwritecloser.go"],
 [("lock not held while waiting", "util/udpreadwritecloser.go:Read")],
 [("peer", "guarded by the lock", "util/udpreadwritecloser.go:lastAddr")], ["UDPReadWriteCloser.Read", "UDPReadWriteCloser.Write", "UDPReadWriteCloser.Close"])

prop("C22", "No complete frame, however hostile, can crash decoding",
 "For every complete frame with any ID, flags, payload length and content, valid or not, decoding it with any list of shipped dialects, formatting the result and calling its accessors never panics and never modifies the frame. Decoding returns a message with the frame's ID, or one of the documented errors (for an unknown ID together with the unknown message), and never neither. Payloads shorter than the definition decode as if zero-padded.",
 ["inputs", "configurations"], "every complete frame of either version, every message ID, payload length 0..255 and content",
 "Tests decode no message.",
 ["dialect.go", "message.go", "common", "ardupilotmega"],
 [("fixed-size decode buffer", "<dialect>/<message>.go:Read"), ("unknown message fallback", "dialect.go:Dialects.GetMessage")], [], ["Dialects.GetMessage", "Message.String"])

prop("C23", "Messages cross a link of two streams unchanged and in order",
 "When two streams are connected back to back and messages are built, written on one side, read on the other and decoded, each side receives exactly the sequence of messages the other side wrote, with the same field values, header values and order, in both directions at once and for any mix of versions and message types. Noise injected between frames on the link changes nothing about this as long as it contains no start byte.",
 ["histories", "schedules", "inputs"], "every sequence of messages in both directions, every link segmentation and interleaving",
 "Each test uses one direction of one stream and never decodes.",
 ["stream.go", "dialect.go", "frame.go", "common"],
 [("write loop, scanner, codec together", "stream.go, dialect.go, <dialect>/<message>.go")], [], ["FrameStream.Write()", "FrameStream.Read()", "Dialects.GetMessage"])

prop("C24", "Goroutines sharing dialects do not affect each other",
 "Any number of goroutines may use the same dialects and dialect lists at once, each with its own messages, frames and checksum objects: every encoding, decoding, building, validation, checksum, accessor and text-field call returns exactly what it would return if it ran alone, and no data race occurs.",
 ["schedules", "inputs"], "every interleaving of independent calls from several goroutines, for every message",
 "No test calls the codec from two goroutines.",
 ["dialect.go", "frame.go", "x25.go", "util/util.go", "common"],
 [("calls without shared state", "dialect.go, x25.go, util/util.go, <dialect>/<message>.go")], [], ["Dialects.GetFrame", "Dialects.GetMessage", "Dialects.Validate", "Message.Write", "Message.Read"])

prop("C25", "A frame taken from bytes is those bytes",
 "Taking a frame from any byte string by its first n bytes (n not beyond its end) gives a version 1 or version 2 frame according to the first byte, and the frame's bytes begin with exactly these n bytes. If a copy was asked for, the frame consists of just these n bytes and shares no memory with the source in either direction. An empty string yields the frame-too-short error, any other first byte the unknown-start-byte error, both without a frame, and the source is never changed.",
 ["inputs"], "every byte string, length and copy mode",
 "Tests take a frame from two byte strings, never as a copy.",
 ["frame.go"],
 [("frame construction", "frame.go:FrameFromBytes")], [], ["FrameFromBytes"])

prop("C26", "Text forms show exactly what a message or frame holds",
 "The text form of a message names its dialect and message and lists every base field exactly once, by name and with exactly its value, and every extension field exactly if the message holds extension values. The text form of a frame shows its version, length, system, component, message ID and checksum, for version 2 also its flags, whether it is signed, and exactly then the signature, and that of an unknown message shows its ID, version and raw payload. Formatting never fails and changes nothing.",
 ["inputs"], "every message type with any field values, decoded or set, and every complete frame of either version",
 "Tests never look at the text form of anything.",
 ["frame.go", "message.go", "common", "ardupilotmega", "asluav", "autoquad", "icarous", "matrixpilot", "paparazzi", "slugs", "uAvionix", "ualberta"],
 [("generated formatting", "<dialect>/<message>.go:String"), ("frame formatting", "frame.go:FrameV1.String, FrameV2.String"), ("unknown message", "message.go:UnknownMessage.String")], [], ["fmt.Stringer of messages and frames"])

prop("C27", "An endpoint owns exactly the address and port it was made for",
 "Creating a UDP endpoint for an address and port succeeds exactly if a UDP socket can be bound there at that moment: it fails with an error, no endpoint, and nothing left behind if the address is not a local one, the port is not a valid port number, or another socket owns the place. A created endpoint receives exactly the datagrams sent to its port at its address (at every local address if the address is empty or unspecified), and what it writes leaves from that address and port. Any number of endpoints coexist, each with a peer of its own. Closing one frees its address and port at once, even while a read was pending, affects no other endpoint, and an endpoint made there afterwards starts without a peer.",
 ["histories", "inputs"], "every history of creating, using and closing endpoints on overlapping addresses and ports, next to other programs' sockets",
 "Each test uses one endpoint, or none.",
 ["util/udpreadwritecloser.go"],
 [("binding", "util/udpreadwritecloser.go:NewUDPReadWriteCloser"), ("release", "util/udpreadwritecloser.go:Close"), ("peer", "util/udpreadwritecloser.go:Read")], [], ["NewUDPReadWriteCloser", "UDPReadWriteCloser.Read", "UDPReadWriteCloser.Write", "UDPReadWriteCloser.Close"])

prop("C28", "Streams in one process do not affect each other",
 "Any number of frame streams may exist in one process at the same time and one after another, sharing dialects: what each of them delivers, writes, logs and announces as its close reason is what it would be if it were the only one. Closing, failing, cancelling or blocking one of them (a consumer that never comes, a transport or logger that does not return) neither closes, delays nor changes another, and no data race occurs between them.",
 ["histories", "schedules"], "every history of every number of streams side by side, in every interleaving",
 "Every test uses one stream at a time.",
 ["stream.go", "frame.go", "dialect.go", "x25.go"],
 [("all state is the stream's own", "stream.go:FrameStream, NewFrameStreamWithLogger"), ("read and write loops", "stream.go:ReadContext, WriteContext"), ("closing", "stream.go:Close")], [], ["NewFrameStream", "FrameStream.ReadContext", "FrameStream.WriteContext", "FrameStream.Close", "FrameStream.GetCloseErr"])

prop("C29", "Messages, frames and payloads are independent values",
 "A message, an unknown message, a frame and an encoded payload each hold a value of their own. Creating, encoding, building a frame, decoding and copying make one new object and change none; setting a field, setting a text, reading a frame into an existing message and writing into a frame's, payload's or unknown message's bytes change that one object and no other; appending behind bytes, validating, formatting and calling accessors change nothing. What an operation yields depends on the values its operands have at that moment, not on what they held before or on operations carried out earlier: a message read into keeps nothing of its former contents, an object encoded or decoded again yields its present value, and a failed operation leaves everything as it was.",
 ["histories", "inputs"], "every history of operations on any number of messages, frames and payloads of every type",
 "Tests make each call once, on fresh objects, and look only at its result.",
 ["frame.go", "message.go", "dialect.go", "<dialect>/*.go"],
 [("encoding", "<dialect>/<message>.go:Write"), ("decoding", "<dialect>/<message>.go:Read"), ("building", "dialect.go:GetFrame"), ("unknown messages", "message.go:UnknownMessage.Read")], [], ["Message.Read", "Message.Write", "Dialects.GetMessage", "Dialects.GetFrame", "Frame.Bytes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
