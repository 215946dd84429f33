#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": hook}})

E = "pkg/encoding/"
p("C01", "Varints round-trip, are canonical and fail cleanly on short buffers",
  "Encoding any unsigned 64-bit integer and decoding it from a byte slice or from a byte stream yields the same integer and consumes exactly the bytes written, and those bytes are the ones the SPOE/peers varint specification prescribes. Encoding into a buffer that is too small fails with the insufficient-space error and never writes outside the given buffer; decoding any proper prefix of an encoding fails with the unterminated-sequence error. The slice decoder and the stream decoder agree (value, length, error) on every byte string.",
  ["inputs"], "every 64-bit value, every destination size, every byte string offered to the decoders",
  "The unit test encodes a handful of values into big buffers; off-by-one errors sit at the 240 / 2288 / 264432 ... length boundaries and at exact-fit buffers.",
  [E+"varint.go"], [("prefix byte < 240, then 4 bits + 7 bits per continuation byte", "PutVarint / Varint / ReadVarint")],
  ["encoding.PutVarint", "encoding.Varint", "encoding.ReadVarint"])
p("C02", "Key/value lists written are read back identically, or the write is refused",
  "Any sequence of typed key/value writes that succeed is read back by the key/value scanner as the same names, types and values in the same order with nothing left over, and the bytes are those of the SPOE specification. A write that does not fit in the destination (or carries an invalid address) returns an error, never panics or writes outside the buffer, and leaves the entries written before it intact and readable, so later smaller writes still work.",
  ["inputs", "histories"], "all sequences of the ten typed setters over boundary values and every destination capacity",
  "The tests write one or two entries into a large buffer; capacity boundaries, all type combinations and recovery after a failed write are never reached.",
  [E+"kvwriter.go", E+"kvscanner.go", E+"encoding.go"],
  [("typed setters", "KVWriter"), ("typed decoding", "KVScanner.Next")],
  ["encoding.KVWriter", "encoding.KVScanner", "encoding.KVEntry"])
p("C03", "Action lists are encoded exactly as the SPOE specification says",
  "For any sequence of set-variable and unset-variable calls, with any names, scopes and values and whatever the size of the initial buffer, the bytes produced are exactly the concatenation of the specified encodings of those actions in call order, and earlier actions are never altered by later ones. A call that returns an error (an invalid address) contributes no bytes at all. Writers obtained from the pool never expose or overwrite data of another user.",
  ["inputs", "histories"], "all sequences of the action calls over boundary names/values, every initial capacity and offset",
  "The unit test covers one action with a roomy buffer; growth at exact capacity boundaries, sequences and error paths are unreached.",
  [E+"actionwriter.go"], [("grow-on-demand buffer", "ActionWriter.grow"), ("action header", "ActionWriter.actionHeader")],
  ["encoding.ActionWriter"], [("data/off", "buffer and write cursor", "ActionWriter")])
p("C04", "Scanners survive arbitrary bytes: error, never panic or over-read",
  "Feeding arbitrary bytes to the key/value scanner or the message scanner never panics, never yields a name or value that lies outside the given bytes, and always terminates; malformed or truncated input ends the scan with a non-nil error that stays set, and well-formed input scans completely with no error. A scanner created for N entries yields at most N entries and leaves the rest of the input unconsumed.",
  ["inputs"], "every byte string (all strings over a boundary alphabet up to a depth, all truncations and single-byte corruptions of valid inputs)",
  "Tests only feed well-formed input produced by the library's own writer.",
  [E+"kvscanner.go", E+"messagescanner.go", E+"varint.go"],
  [("length checks before slicing", "KVScanner.Next"), ("length checks before slicing", "MessageScanner.Next"), ("entry count", "KVScanner.left")],
  ["encoding.KVScanner", "encoding.MessageScanner"])
p("C05", "Struct decoding assigns exactly the tagged fields and never aliases input",
  "Decoding a key/value list into a struct sets every field tagged with a key of its own to the value of the last matching entry converted to the field type, sets pointer fields to nil when the key is absent or null, ignores unknown keys and leaves untagged fields alone. An entry whose type does not match its field, an unsupported field, a malformed list or a non-struct target gives an error rather than a wrong value or a panic. Nothing that was decoded changes later: not when the input buffer is reused, and values copied out of the struct not when the struct is decoded into again.",
  ["inputs", "programs"], "all short entry lists (names x types x values, duplicates, order, count limits) against every supported field type, with reused targets",
  "Tests check one happy-path list per type; duplicates, null/absent pointers on reused structs, mismatches and buffer reuse combine multiplicatively.",
  [E+"kvunmarshal.go", E+"kvscanner.go"], [("type switch per field", "KVScanner.Unmarshal / setValue")],
  ["encoding.KVScanner.Unmarshal"])

S = "spop/"
p("C06", "Every NOTIFY gets exactly one ACK carrying its ids and its actions",
  "On an established SPOP connection, every well-formed NOTIFY frame is answered by exactly one ACK frame with the same stream-id and frame-id, the FIN flag set, and exactly the actions its handler calls wrote, in order; no ACK is ever sent for anything else. This holds for any frame sizes within the negotiated limit, any segmentation of the byte stream, any number of connections and in-flight frames, and any scheduling of the agent's goroutines.",
  ["schedules", "inputs", "configurations"], "all interleavings (bounded deviations) of 1-3 connections with several pipelined NOTIFYs, all read segmentations, worker counts 1-3, reordering of workers",
  "Tests send sequential or unsynchronised traffic and check a few ACKs; cross-talk via pooled frames or id mixups needs specific interleavings.",
  [S+"protocol.go", S+"frames.go", S+"frame.go", S+"scheduler.go"],
  [("per-frame metadata copied to the ACK", "protocolClient.onNotify"), ("frame pool", "acquireFrame/releaseFrame")],
  ["bytes received by a fake HAProxy on the connection"],
  [("work queue", "frames waiting for a worker", "asyncScheduler.q")])
p("C07", "Frames written concurrently on one connection never interleave",
  "The bytes the agent writes on a connection are always a concatenation of complete, well-formed frames whose length prefix matches their content, no matter how many ACKs and disconnect frames are produced concurrently and how the writes are scheduled. Only the end of the connection itself may cut the last frame short.",
  ["schedules"], "all interleavings (bounded deviations) of concurrent workers and connection close writing to the same connection",
  "Needs two workers to be preempted between partial writes of the same connection; tests do not control scheduling.",
  [S+"frame.go", S+"frames.go", S+"protocol.go"],
  [("exclusive frame write", "frame.writeTo")],
  ["bytes received by a fake HAProxy on the connection"])
p("C08", "Handlers see exactly the messages sent, isolated from all other traffic",
  "For every NOTIFY the handler is called once per message, in order, with that message's name and with exactly its declared arguments (names, types, values), whether or not the handler consumed the arguments of earlier messages. While a handler runs, the message and its arguments never change because of other frames, connections or earlier traffic.",
  ["schedules", "inputs", "histories"], "multi-message NOTIFYs with every argument-count split and every handler consumption pattern; all interleavings of handlers of 2-3 connections over shared pools",
  "Tests use one message per frame and do not interleave handlers; buffer recycling bugs show only under specific schedules.",
  [S+"protocol.go", S+"frame.go", E+"messagescanner.go", E+"kvscanner.go"],
  [("argument count per message", "MessageScanner/KVScanner"), ("frame owned until the ACK is written", "protocolClient.frameHandler")],
  ["spop.Handler callback arguments"])
p("C09", "The HELLO handshake is enforced and answered exactly once",
  "A connection processes no other frame before a valid HAPROXY-HELLO; a valid one (max-frame-size between 256 and 2^31-1) is answered by exactly one AGENT-HELLO with version 2.0, the same max-frame-size and a capabilities list, before any other agent frame. A first frame of another type or a HELLO with a missing, out-of-range or malformed max-frame-size gets no AGENT-HELLO, reaches no handler, and the connection is closed after an AGENT-DISCONNECT. A health-check HELLO is answered with AGENT-HELLO and the connection is then closed.",
  ["inputs", "histories", "schedules"], "all short sequences of frame kinds at connection start and all HELLO entry lists over a boundary alphabet, any segmentation, frames pipelined behind the HELLO",
  "Tests send one valid HELLO; ordering violations, limits and pipelined frames are combinatorial.",
  [S+"protocol.go", S+"agent.go"], [("hello gate", "protocolClient.Serve / onHAProxyHello")],
  ["bytes received by a fake HAProxy; handler invocations"],
  [("gotHello/maxFrameSize", "negotiation state", "protocolClient")])
p("C10", "The negotiated frame size binds both directions",
  "After negotiation a received frame is accepted exactly when its declared length is at most the negotiated max-frame-size (65535 before negotiation); a longer one is refused without being processed and ends the connection. The agent never sends an ACK longer than the negotiated size: an ACK that fits is sent completely and unmodified even when larger than the initial buffers, one that does not fit is not sent at all and other frames are unaffected.",
  ["inputs", "configurations"], "every frame length around each negotiated limit, in both directions, with smaller and larger frames before and after",
  "Tests probe single sizes; off-by-one at each limit and state carried over by pooled buffers of other sizes are not covered.",
  [S+"protocol.go", S+"frame.go", S+"frames.go", "pkg/buffer/slicebuf.go"],
  [("limit check on read", "frame.readFrom"), ("limit check on ACK", "AckFrame.writeTo"), ("buffer growth", "SliceBuffer.Grow")],
  ["bytes received by a fake HAProxy; handler invocations"])
p("C11", "Malformed frames and panicking handlers are contained",
  "No byte sequence from a peer and no panic of a user handler terminates the process, stops the agent from accepting and serving other connections, removes processing capacity, or causes another connection's or an earlier frame's data to be processed or sent. A NOTIFY whose payload is malformed or whose handler panics produces no ACK and no partial frame, and the same connection continues to serve well-formed NOTIFYs that follow.",
  ["inputs", "histories", "schedules"], "all truncations and single-byte corruptions of valid frames and payloads, panicking handlers at every message position, repeated more often than there are workers, with healthy traffic alongside",
  "Tests send a single bad frame; capacity loss and stale-buffer processing show only after repetition or with specific lengths.",
  [S+"agent.go", S+"scheduler.go", S+"frame.go", S+"protocol.go"],
  [("panic containment", "wrapPanic"), ("worker survives errors", "asyncScheduler.queueWorker")],
  ["process survival, other connections' traffic, handler invocations"])
p("C12", "The work queue loses, duplicates and strands nothing",
  "Every frame read from a connection that is not closed is handed to exactly one worker, and whenever a worker is idle no frame stays queued: bursts larger than the queue and any mix of producing connections and workers never deadlock or lose a wake-up. Processing of different frames proceeds concurrently up to the number of workers, so one blocked handler never stalls the others while a worker is free.",
  ["schedules", "configurations"], "all interleavings (bounded deviations) of 1-3 producers and 1-3 workers with bursts around the queue capacity, and handlers that block until another frame has been handled",
  "Lost wake-ups and full-queue deadlocks depend on exact interleavings between producers and workers.",
  [S+"scheduler.go"], [("bounded ring buffer with two conditions", "queue.Put / queue.Get"), ("worker pool", "newAsyncScheduler")],
  ["which frames are ACKed once the system is quiescent"],
  [("elems/head/tail/size", "ring buffer", "queue")])
p("C13", "SPOP connection and agent shutdown are clean at every point",
  "When the peer disconnects (HAPROXY-DISCONNECT), closes, resets, or sends a frame that must be refused (an invalid first frame, an oversize frame), at any byte and any moment, the connection's handler context is cancelled (and never before), the network connection is closed, its reader goroutine ends and the agent keeps serving other connections; a HAPROXY-DISCONNECT or a refused frame is answered by an AGENT-DISCONNECT; at most one is sent and nothing follows it except ACKs of already received frames. Handler contexts carry the base context's values and deadline. Cancelling the base context cancels them, closes the listener and makes Serve return, and a failing Accept makes Serve return an error; the open connections are served on, and Serve can be called again. ListenAndServe serves on the given address, reports an address that cannot be opened and leaves no listener open when it returns.",
  ["crash_points", "schedules", "fault_sequences"], "connection loss at every byte of a session, interleaved with in-flight handlers; disconnect codes; base-context cancellation at every point",
  "Tests close connections only at quiet moments.",
  [S+"agent.go", S+"protocol.go"], [("deferred close", "Agent.Serve"), ("context cancellation", "protocolClient.Close / onHAProxyDisconnect")],
  ["context passed to handlers, Close calls on the connection, return of Serve"])

Q = "peers/"
p("C14", "Peer sessions deliver every table update exactly once, decoded and in order",
  "For any valid sequence of table definitions, entry updates (timed, incremental or both), acknowledgements and control messages, in any segmentation of the byte stream, the handler receives exactly the entry updates, once each and in order, each with the most recent table definition, the update id sent or the previous id plus one, the expiry when present, and exactly the key and values encoded. An update already delivered is never altered by later traffic.",
  ["inputs", "histories"], "all message sequences up to a depth over two table definitions x four update kinds x key and data types, all read segmentations",
  "Tests decode single captured messages; sequencing of ids, definition switches and segmentation are not explored.",
  [Q+"protocol.go", Q+"sticktable/sticktables.go", Q+"sticktable/values.go"],
  [("message dispatch", "StickTableUpdateMessageType.OnMessage"), ("entry decoding", "EntryUpdate.Unmarshal")],
  ["peers.Handler.HandleUpdate arguments"],
  [("lastTableDefinition/lastEntryUpdate", "decoder state", "protocolClient")])
p("C15", "Pushed updates are atomic on the wire with strictly sequential ids",
  "Everything written to a peer connection after the handshake is a concatenation of complete peer-protocol messages, even when several goroutines push definitions and entries while heartbeats and synchronisation replies are sent. Each successful push appears exactly once, complete and flushed when the call returns, batches stay contiguous and in order, and entry-update ids on the wire strictly increase, by exactly one when no push failed. On a healthy connection a push of well-formed content succeeds, at least up to 4 KiB for a definition and 64 KiB for an entry. A push that fails to encode sends no partial message and does not prevent later pushes.",
  ["schedules", "histories", "fault_sequences"], "all interleavings (bounded deviations) of 2-3 concurrent writers, heartbeat and sync replies; all short sequences of good and failing pushes",
  "Interleaving of partial buffered writes needs specific schedules; failing pushes between good ones are not tested.",
  [Q+"writer.go", Q+"protocol.go"], [("shared write mutex", "Writer.mu / protocolClient.lockedWrite"), ("update id counter", "Writer.nextUpdateID")],
  ["bytes received by a fake HAProxy peer"],
  [("nextUpdateID", "next id", "Writer")])
p("C16", "Stick-table definitions, keys and values round-trip bit-exactly",
  "Encoding any table definition or entry update and decoding it yields an equal value and consumes exactly the bytes written, and those bytes are what the HAProxy peers protocol prescribes for that key type and data type, for every combination of scalar, rate and dictionary data types listed in ascending order (the array types are not supported). Encoding into a buffer that is too small, or of a value the format cannot carry, returns an error instead of panicking or reporting success for truncated output.",
  ["inputs"], "all key types x boundary values, all data types x boundary values, all pairs/triples of data types, every destination size",
  "Tests round-trip a few captured values in large buffers; dictionary framing, glitch rates, padding and short buffers are unreached.",
  [Q+"sticktable/sticktables.go", Q+"sticktable/values.go", Q+"sticktable/constants.go"],
  [("per-type codecs", "MapKey / MapData implementations"), ("definition codec", "Definition.Marshal/Unmarshal")],
  ["sticktable.Definition", "sticktable.EntryUpdate", "sticktable key and data types"])
p("C17", "Malformed peer traffic never crashes the process or other sessions",
  "No byte sequence received from a peer terminates the process, makes it allocate memory out of proportion to the bytes received, delivers an update containing data that was not in the message, or disturbs other sessions or later connections. A message that is truncated, inconsistent or of unknown kind ends that session (connection closed, context cancelled) or is ignored; it never produces a made-up update; in particular, the updates behind a malformed table definition are never delivered under an earlier definition.",
  ["inputs", "histories"], "all truncations and single-byte corruptions of valid sessions, huge declared lengths at every length field, all short strings over a boundary alphabet, with a healthy session alongside",
  "Tests only feed valid captures.",
  [Q+"peers.go", Q+"protocol.go", Q+"sticktable/sticktables.go", Q+"sticktable/values.go"],
  [("bounds checks in decoders", "Unmarshal methods"), ("panic containment", "Peer.Serve"), ("length handling", "rawMessage.ReadFrom")],
  ["process survival, handler invocations, other sessions' traffic"])
p("C18", "Heartbeats keep sessions alive and silent peers are disconnected",
  "After the handshake, for as long as a peer session is open, at least one message is sent to the peer in every 3-second interval, even if no updates are pushed and regardless of what the peer sends. A peer that sends nothing for 5 seconds is disconnected (connection closed, handler closed, context cancelled) at that time and not earlier: as long as its complete messages arrive less than 5 seconds apart and the handler returns promptly, a peer is never disconnected for silence.",
  ["schedules", "histories"], "virtual-time exploration of all arrival patterns of messages on a grid around the 3 s and 5 s deadlines, up to a horizon of several periods, including messages split across the deadline",
  "Wall-clock tests cannot enumerate timings around the deadlines; no existing test waits that long.",
  [Q+"protocol.go"], [("heartbeat ticker", "protocolClient.heartbeat"), ("silence timer", "protocolClient.lastMessage / resetLastMessage")],
  ["timestamps of bytes received by a fake peer, Close of the connection"],
  [("nextHeartbeat/lastMessageTimer", "timers", "protocolClient")])
p("C19", "Peer session teardown runs once and releases everything",
  "However and whenever a peer session ends (end of stream, reset, protocol error, timeout, write failure, base-context cancellation followed by end of stream), the handler's Close is called exactly once, no update is delivered after that, the handler context is cancelled, the network connection is closed and the session's goroutines end. Handler contexts carry the base context's values and deadline and are cancelled with it. Serve keeps accepting other sessions until the base context is cancelled or Accept fails, then it returns; open sessions are served on, and Serve can be called again. ListenAndServe serves on the given address, reports an address that cannot be opened and leaves no listener open when it returns.",
  ["crash_points", "schedules", "fault_sequences"], "session loss at every byte and at every write, in all interleavings (bounded deviations) with heartbeat, silence timeout and base-context cancellation",
  "Double Close and missed Close need the timer, the heartbeat failure and the reader to race.",
  [Q+"peers.go", Q+"protocol.go"], [("deferred close", "Peer.Serve"), ("close guard", "protocolClient.Close")],
  ["handler Close calls, context state, Close of the connection, live goroutines"])
p("C20", "The peer handshake and control messages follow the protocol",
  "A handshake written by one side is parsed by the other into the same fields, in any segmentation, and consumes not a byte more than its three lines, so messages sent right behind it are processed. For a well-formed handshake the first bytes sent to the peer are exactly the success status line, and the handler sees the handshake once, before any update; a malformed or truncated handshake gets no success status, no updates, and ends the session. Each synchronisation request is answered by exactly one partial-synchronisation reply and no other control message gets any reply.",
  ["inputs", "histories", "schedules"], "all field combinations over a boundary alphabet, all segmentations of handshake plus following messages, all control message sequences up to a depth",
  "Tests hand the parser a complete reader; loss of bytes read ahead depends on segmentation.",
  [Q+"messages.go", Q+"protocol.go"], [("line parser", "Handshake.ReadFrom"), ("status reply", "protocolClient.peerHandshake"), ("sync reply", "ControlMessageType.OnMessage")],
  ["bytes received by a fake peer, Handler callbacks", "peers.Handshake"])

B = "pkg/buffer/"
p("C21", "Byte buffers hand out exactly the bytes that were stored, in order",
  "For every sequence of writes, reads, growths and resets of a slice buffer within its stated room, what is read is exactly what was written, in order and once; Len is the number of bytes written and not yet read; growing provides at least the room asked for, loses nothing and never shrinks the room there was; resetting empties the buffer and gives its whole room back. Bytes handed out stay unchanged until the buffer is reset, and nothing outside a caller's slice is ever written.",
  ["histories", "inputs"], "all operation sequences up to a depth over small and frame-sized buffers, including buffers made from a caller's slice",
  "Frames and acknowledgements are built and parsed in these buffers; no unit test covers them directly, and growth in the middle of a partly read buffer needs a specific operation history.",
  [B+"slicebuf.go"], [("cursor arithmetic", "SliceBuffer.WriteNBytes / ReadNBytes"), ("growth", "SliceBuffer.Grow")],
  ["buffer.SliceBuffer"])
p("C22", "Pooled encoder objects carry nothing from one use to the next",
  "Scanners, entries, messages and writers obtained from the package's pools behave like new ones, however the previous user left them (finished, abandoned half-way, after an error, growing or failing writes) and however many are in use at once: every use yields exactly the result it would yield alone. Independent goroutines that share nothing but the package itself - its pools and any state it keeps about struct types - never influence one another's results.",
  ["histories", "schedules"], "all sequences of uses up to a depth, all nestings and interleavings of two uses, all schedules (bounded deviations) of two to three concurrent users",
  "The tests use fresh objects one at a time; leftovers show only when a particular kind of use follows another one on the same pooled object.",
  [E+"kvscanner.go", E+"messagescanner.go", E+"kvwriter.go", E+"actionwriter.go", E+"kvunmarshal.go"],
  [("pools", "Acquire*/Release* in pkg/encoding")],
  ["encoding.Acquire*/Release*, encoding.KVScanner, MessageScanner, KVWriter, ActionWriter"])

p("C23", "A frame written through the public frame types is whole, exact or refused",
  "Writing an AckFrame, AgentHelloFrame or AgentDisconnectFrame to any writer puts exactly one complete frame there, the one the SPOE specification prescribes for its ids, actions, version, capabilities, size or status (with the text of every status code), and reports the number of bytes written; or it is refused with an error and not a byte is written: when it is longer than 65535 bytes, or when the action callback fails (its error is returned) or panics. When the writer fails at any byte, its error and the number of bytes it took are returned. Goroutines that write frames at the same time, to writers of their own or to one shared writer that can be locked, never mix their bytes, lose a frame or leave the writer locked, and nothing of an earlier, failed or refused frame shows up in a later one.",
  ["inputs", "fault_sequences", "schedules"], "all ids and lengths of a boundary alphabet, all status codes to 300, a write failure at every byte, all sequences of two (thorough three) frames and failures, all schedules (bounded deviations) of two or three concurrent writers",
  "Tests write single frames to in-memory buffers; leftovers of the pooled frames and interleaving need particular histories and schedules.",
  [S+"frames.go", S+"frame.go", S+"error.go"], [("frame assembly and limits", "AckFrame.WriteTo / frame.writeTo"), ("pooled frames", "acquireFrame / releaseFrame"), ("writer lock", "frame.writeTo")],
  ["spop.AckFrame, AgentHelloFrame, AgentDisconnectFrame WriteTo"])
p("C24", "Entries, keys, values and protocol codes print truthfully",
  "Printing a table entry never panics or changes it and shows its update id, its key and every value under HAProxy's name of its data type, in the definition's order; keys and values print the number, address, text or bytes they hold, rates their tick, current and last counts, dictionary values their id and bytes. Data types, key types, handshake statuses, message classes and message types print under their own names and values without a name as the type's name with the number; data types are told to be rates exactly when HAProxy defines them as such.",
  ["inputs"], "every code within and beyond the defined ranges; all keys and values of the boundary alphabets, alone and in pairs, as decoded and as built, printed repeatedly",
  "Handlers log what they receive; tests print a few captured entries.",
  [Q+"sticktable/sticktables.go", Q+"sticktable/values.go", Q+"sticktable/constants.go", Q+"constants_string.go"],
  [("entry text", "EntryUpdate.String"), ("names", "DataType.String and the generated stringers")],
  ["String methods of sticktable and peers, sticktable.DataType.IsDelay"])
p("C25", "The in-memory connection and the repeating reader are faithful transports",
  "What is written on either end of testutil.PipeConn arrives at the other end exactly once and in order, in both directions at once and for any sizes of reads and writes; each Write stays contiguous when several goroutines write, returns when all its bytes were read or the connection was closed, and reports how many were taken. Closing either end at any moment ends every pending and later Read and Write on both ends: the other end reads io.EOF, the closed end gets net.ErrClosed or io.ErrClosedPipe, writes fail on both, and closing again is harmless. A RepeatReader yields its data over and over without loss or repetition for any sequence of read sizes, and io.EOF when it has none.",
  ["schedules", "inputs"], "all schedules (bounded deviations) of readers, writers and closers on both ends, small and large transfers; all sequences of read sizes up to a depth",
  "Agents and peers are driven over this connection; its only test sends three bytes each way and never closes it.",
  ["pkg/testutil/pipeconn.go", "pkg/testutil/reader.go"], [("two pipes, one per direction", "newRWPipe"), ("close guard", "rwPipeConn.Close"), ("repetition", "RepeatReader.Read")],
  ["testutil.PipeConn", "testutil.RepeatReader"],
  [("offset", "position in the data", "RepeatReader")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sch:
    for x in P: jsonschema.validate(x, sch)
print(len(P))
