#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, run, commit both."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

E, D = "asn1/encode.go", "asn1/decode.go"

p("C01", "Integers survive the wire, shortest form, and bad integers are refused",
  "Every 32-bit integer written through the integer or enumerated writer and every 64-bit integer written through the long-integer writer becomes tag, length and the shortest big-endian two's-complement content, and reading it back with the integer reader of that width yields the identical number with the reader standing exactly after it. An integer whose content is cut short, whose length is zero, indefinite or wider than the reader's width (4 or 8 bytes), or whose tag is not INTEGER is refused with an error instead of yielding a number.",
  ["inputs"], "all 32-bit and 64-bit integers; all tag/length/content prefixes of INTEGER encodings",
  "The tests write two integers and read none back on their own; sign boundaries at every byte width, and truncated or over-long contents are never reached.",
  [E, D], [("minimal two's complement sizing loops", E), ("sign extension and length guards in ReadInt/ReadInt64", D)],
  observe=["asn1.ASNWriter.WriteInt/WriteInt64/WriteEnum", "asn1.ASNReader.ReadInt/ReadInt64"])

p("C02", "Reals survive the wire bit for bit",
  "Every 64-bit floating point value written as a REAL reads back as the same value (infinities, NaN, subnormals and the largest magnitudes included; negative zero may read back as zero), and the bytes written are a base-2 REAL (sign, exponent width, exponent of the leading bit, odd significand) denoting exactly that value. A REAL whose content is malformed (empty significand, missing exponent, unknown special, exponent outside the double range) yields an error or a well-defined value, but never a crash or an endless loop.",
  ["inputs"], "all signs, exponents and significand shapes of float64; all short REAL contents",
  "One value (123.456) is tested each way; multi-byte exponents, subnormals and degenerate contents are never tried.",
  [E, D], [("significand/exponent split and shortening", E), ("preamble, exponent and significand reassembly", D)],
  observe=["asn1.ASNWriter.WriteReal", "asn1.ASNReader.ReadReal"])

p("C03", "Strings, octets, object paths and booleans survive at every length",
  "A string, an octet buffer, a relative object identifier of non-negative numbers and a boolean each read back identical to what was written, for every content length, with the reader standing exactly after the item, and the length field written always announces exactly the content that follows. An identifier containing a negative number is refused by the writer, and each typed reader refuses an item that carries another type's tag or fewer bytes than announced. A null is written as an item of no content.",
  ["inputs"], "all lengths across every length-field boundary (127/128, 255/256, 65535/65536, 2^24), all byte values, all identifier numbers at every 7-bit boundary",
  "Tests use one 5-byte string and two short identifiers; no item ever needs a long-form length.",
  [E, D], [("definite length forms", E), ("7-bit group encoding of identifiers", E), ("length parsing and content extraction", D)],
  observe=["asn1.ASNWriter.WriteString/WriteBuffer/WriteRelativeOID/WriteBoolean", "asn1.ASNReader.ReadString/ReadBitString/ReadOID/ReadBoolean"])

p("C04", "Definite and indefinite length encodings mean the same",
  "Two encodings of the same Ember+ message that differ only in how container lengths are expressed (short definite, long definite of any width, or indefinite with end marker, chosen independently for every container) decode to the same tree or object. This includes containers with no content.",
  ["inputs"], "every assignment of length forms to the containers of each message shape, up to a bounded number of containers that deviate from the default form plus the uniform assignments",
  "Each test decodes one byte string with a uniform length form; mixed forms and empty containers never occur.",
  [D, "embertree/elementFactory.go", "embertree/root.go", "embertree/node.go", "embertree/parameter.go", "embertree/function.go", "embertree/matrix.go", "embertree/matrix_element.go", "embertree/connection.go", "embertree/signal.go", "embertree/label.go", "embertree/invocation.go"],
  [("ReadSequenceStart returns a bounded sub-reader or the same reader", D), ("ReadSequenceEnd/CheckSequenceEnd accept end of data or end marker", D)],
  observe=["embertree.RootElement.Decode", "embertree.DecodeElement"])

p("C05", "No input makes a decoder crash, hang or exhaust memory",
  "Whatever bytes a peer sends, every decoding entry point (trees, elements, contents, signals, connections, labels, invocations, values, primitive readers) returns in time and memory proportional to the input, with a result or an error and without panicking. The same holds for printing and re-encoding whatever was decoded, in proportion to what is printed.",
  ["inputs"], "all short byte strings over the protocol's tag/length alphabet, and every single-byte substitution, deletion, duplication and truncation (and selected pairs) of a corpus of valid messages of every kind",
  "Tests only decode well-formed messages.",
  [D, "embertree/elementFactory.go", "embertree/root.go", "embertree/node.go", "embertree/parameter.go", "embertree/function.go", "embertree/matrix.go", "embertree/matrix_element.go", "embertree/connection.go", "embertree/content_parameter.go", "embertree/qualified_element.go"],
  [("error returns on every read", D), ("loop progress in element and contents decoders", "embertree/elementFactory.go"), ("allocation bounded by remaining input", D)],
  observe=["every exported Decode*/Read* function"])

p("C06", "Cut or overrunning messages are rejected, never taken for complete",
  "Decoding any proper prefix of an Ember+ message (tree, element, label, signal, connection, invocation) reports an error instead of presenting the part as a complete message. A message in which some item announces more content than its enclosing container holds is rejected as well.",
  ["inputs", "fault_sequences"], "every prefix of every corpus message in definite, indefinite and mixed length forms, and every inflation of every length field",
  "No test decodes an incomplete message.",
  [D, "embertree/root.go", "embertree/elementFactory.go"],
  [("length check when a sub-reader is created", D), ("end-of-sequence check for open indefinite containers", D)],
  observe=["errors returned by Decode functions"])

p("C07", "Encoding an element states exactly its content",
  "The bytes produced for a node, parameter, function, command or matrix (by number or by full path), with any subset of its properties set to any values and with any set of direct children, form a well-formed Ember+ element that an independent decoder reads as exactly that number or path, that kind, exactly the set properties with those values, and exactly those children. A tree message contains every top-level element exactly once.",
  ["inputs", "configurations"], "all element kinds x all subsets of settable properties (pairwise-exhaustive for the 17 parameter properties, fully exhaustive in the thorough tier) x boundary values x up to 3 children",
  "Tests compare four fixed encodings, each with at most two properties.",
  ["embertree/element.go", "embertree/node.go", "embertree/parameter.go", "embertree/function.go", "embertree/matrix.go", "embertree/command.go", "embertree/content_parameter.go", "embertree/root.go", "embertree/qualified_element.go", E],
  [("context tag per property table", "embertree/parameter.go"), ("sequence start/end pairing", "embertree/element.go")],
  observe=["embertree.Element.Encode", "embertree.RootElement.Encode"])

p("C08", "Decoding an element yields exactly what the message states",
  "For every well-formed message describing a node, parameter, function, command or matrix (by number or by full path, all Ember+ kinds including qualified functions), the decoded object has that kind, number or path and those children, its accessors return exactly the announced properties, and properties not announced report as not set. Encoding the decoded object and decoding it again changes nothing.",
  ["inputs", "configurations"], "messages produced by an independent encoder: all kinds x all property subsets x boundary values of every legal value type x children shapes",
  "Tests decode about ten fixed messages and look at one or two properties of each.",
  ["embertree/elementFactory.go", "embertree/node.go", "embertree/parameter.go", "embertree/function.go", "embertree/matrix.go", "embertree/command.go", "embertree/content_parameter.go", "embertree/root.go"],
  [("dispatch on application and context tags", "embertree/elementFactory.go"), ("per-property storage by context", "embertree/parameter.go")],
  observe=["embertree.DecodeElement", "accessors of the contents objects"])

p("C09", "Matrix crosspoints survive encoding and decoding",
  "A matrix's targets, sources and connections (target, source list, operation, disposition) are transmitted completely, in order and unchanged by encoding, and received completely, in order and unchanged by decoding, for every list length including empty and every legal number, operation and disposition. A matrix that has no signals or connections at all still encodes to a message the library itself decodes.",
  ["inputs", "configurations"], "all combinations of list lengths 0..3, operations, dispositions, boundary numbers, for numbered and path-addressed matrices, both directions, against an independent codec",
  "Tests decode one target list and one matrix and check the target numbers only.",
  ["embertree/matrix_element.go", "embertree/signal.go", "embertree/connection.go", "embertree/matrix.go"],
  [("signal and connection sequences", "embertree/matrix_element.go"), ("connection field tags", "embertree/connection.go")],
  observe=["embertree.Element.EncodeTargets/Sources/Connections and Decode*", "GetTargets/GetSources/GetConnections"])

p("C10", "Function signatures, invocations and labels survive in order",
  "A function's argument and result descriptions (type and name, in order), an invocation's identifier and argument values (type, value and order), and a matrix label's path and text read back identical after encoding and decoding, for every count including none. A description whose type number cannot be held is refused, not taken for another type. Matrix labels received with a matrix are retained and retransmitted whatever other matrix properties surround them.",
  ["inputs", "configurations"], "all sequences up to length 3 over all types and boundary names/values, all surrounding property subsets",
  "Tests round-trip one function with one argument without comparing it, and one label without reading it back.",
  ["embertree/function.go", "embertree/invocation.go", "embertree/label.go", "embertree/matrix.go"],
  [("tuple description sequences", "embertree/function.go"), ("argument sequence", "embertree/invocation.go"), ("label sequence", "embertree/matrix.go")],
  observe=["GetArguments/GetResult", "re-encoded bytes read by an independent decoder"])

p("C11", "Paths and elements correspond one to one",
  "In every tree built by adding children, in any order and with paths queried at any point, each element reports as its path the numbers from the top-level element down to itself, and looking that path up returns that element together with its parent. Looking up a path with no such element never returns an element, and returns a parent only if that parent is at the path minus its last number; querying or extending one element's path never alters another's.",
  ["histories"], "all construction histories (add child, query path, look up) up to 4-5 elements of depth 4, over colliding numbers, with query order enumerated",
  "No test builds a tree deeper than one level or queries two sibling paths.",
  ["embertree/qualified_element.go", "embertree/element.go", "embertree/root.go"],
  [("cached path derived from parent", "embertree/qualified_element.go"), ("descent through children maps", "embertree/root.go")],
  state=[("path", "cached absolute path of an element", "embertree/element.go"), ("Children", "child by number", "embertree/element.go")],
  observe=["embertree.Element.GetPath", "embertree.RootElement.GetElementByPath"])

p("C12", "The tree mirrors everything the provider announced",
  "After any sequence of provider messages, numbered-and-nested or path-addressed in any mix, the tree contains exactly the announced elements at their announced positions; every property shows the latest announced value, and properties, children and crosspoints a message does not mention keep their previous state (signal lists are replaced as a whole, connections per target). A message about a path whose parent is unknown changes nothing in the tree. An element updated from another of the same kind and number directly changes in the same way; one of another kind or number is refused and changes nothing.",
  ["histories"], "all message sequences up to depth 3-4 over an alphabet of announcements and partial updates for colliding paths, explored as a state graph against a reference tree",
  "No test decodes two messages into the same tree.",
  ["embertree/root.go", "embertree/element.go", "embertree/elementFactory.go"],
  [("update by number or by path", "embertree/root.go"), ("recursive merge", "embertree/element.go")],
  state=[("RootElementCollection", "top-level elements by number", "embertree/root.go")],
  observe=["embertree.RootElement.Decode then tree walk"])

p("C13", "Listeners hear exactly about what changed",
  "When a message is applied, every listener registered on the tree is told once, with the tree, and every listener registered on an element is told, with that element, if and only if the message describes that element, one of its descendants along the described branch, or one of its direct children by path; a listener is never called twice for one description of its element. When it is called, the tree and the elements already show all the message announced. A listener registered while a message is being announced hears later messages only. A listener that was removed, or was never registered on the element, is never called, and rejected messages notify no tree listener. An element updated directly tells its own listeners and those of the elements below it that are described, once each.",
  ["histories"], "all sequences of register/remove/message/local-content-change operations up to depth 4 over 2 listeners, 4 elements and both addressing styles, including listeners that remove themselves while being notified",
  "One test checks that one listener hears one local change.",
  ["embertree/element.go", "embertree/root.go"],
  [("listener maps walked after an update", "embertree/element.go"), ("parents of path-addressed elements collected per message", "embertree/root.go")],
  state=[("listeners", "registered callbacks", "embertree/element.go")],
  observe=["embertree.Listener.Receive calls"])

p("C14", "A directory request asks for exactly the chosen element",
  "The message built to request the directory of the root or of any element of any tree (numbered, path-addressed or mixed, at any depth), nested or path-qualified, is a well-formed Ember+ message that an independent decoder reads as one get-directory command for all fields, addressed to exactly that element and nothing else. Building it registers the given listener on that element and leaves the tree otherwise unchanged.",
  ["inputs", "histories"], "all tree shapes up to depth 4 with every mix of numbered and path-addressed elements of every kind, every element as subject, both request styles",
  "The only test ignores the message that is built.",
  ["embertree/element.go", "embertree/qualified_element.go", "embertree/root.go", "embertree/command.go"],
  [("duplicated branch", "embertree/element.go"), ("qualified duplicate", "embertree/qualified_element.go")],
  observe=["GetDirectoryMsg", "GetQualifiedDirectoryMsg", "encoded bytes"])

p("C15", "A typed value is only ever read as what it is",
  "After any sequence of assignments and copies, a value object reports the type and content of the last successful assignment; the accessor of that type returns that content without error and every other accessor reports an error, as do all accessors while nothing was assigned. Copying from another value succeeds exactly if the target is unset or of the same type, and a refused copy changes nothing. Octets and identifiers read earlier do not change by later assignments.",
  ["histories"], "all operation sequences up to depth 4 over all six types, two contents each, and copies between two value objects",
  "Tests set one value of four types once each.",
  ["embertree/content_parameter.go"], [("type tag and set flag next to each payload", "embertree/content_parameter.go")],
  state=[("valueType/isSet", "discriminator of the stored value", "embertree/content_parameter.go")],
  observe=["ContentParameter accessors"])

p("C16", "Illegal matrix settings are refused and change nothing",
  "Matrix type, matrix mode, connection operation and connection disposition accept exactly their defined values; any other value is refused with an error and leaves the previous setting in force, also when it arrives in a message about a connection or a matrix. Signal and connection operations on an element that is not a matrix are refused with an error and have no effect.",
  ["inputs", "histories"], "all 256 values of each 8-bit setting, all integers around the legal range and its byte wrap-arounds, all element kinds, all set/refuse sequences up to depth 3",
  "No test passes an illegal value.",
  ["embertree/matrix.go", "embertree/connection.go", "embertree/matrix_element.go"],
  [("range checks", "embertree/matrix.go"), ("range checks on connections", "embertree/connection.go"), ("matrix flag check", "embertree/matrix_element.go")],
  observe=["setters and getters"])

p("C17", "Every S101 frame sent is well formed",
  "For every payload, the produced frames each begin with the start byte, end with the end byte, contain no raw byte of the reserved range in between, carry a correct CRC-16 and the Ember+ header, mark themselves single, or first/continuation/last in that order, stay within the frame size limit, and their unescaped payloads concatenate to exactly the given payload. Keep-alive frames obey the same framing, and reading a produced frame twice gives the same bytes.",
  ["inputs"], "all payloads up to length 3 over all boundary byte values plus all payload lengths around every frame boundary with escapes placed at and across the boundary",
  "One 4-byte payload is tested.",
  ["socket/frame.go"], [("escaping and splitting", "socket/frame.go"), ("CRC table and finalisation", "socket/frame.go")],
  observe=["socket.EncodeMessage", "socket.GetKeepAliveResponse", "S101FrameList.GetBytesAt"])

p("C18", "A byte stream yields the same messages however it is chopped",
  "Messages encoded as frames and delivered to a stream decoder in pieces of any sizes come out exactly once each, complete, unchanged and in order, and keep-alive frames between or inside messages neither disturb them nor get lost. No call ever needs a piece to end at a frame boundary.",
  ["inputs", "schedules"], "all cut sets of short streams (every subset of cut positions), all single and double cuts of long multi-frame streams, all message/keep-alive sequences up to length 4",
  "One frame is decoded from one piece.",
  ["socket/frame.go"], [("escape flag and frame buffer kept between calls", "socket/frame.go"), ("multi-frame assembly buffer", "socket/frame.go")],
  state=[("escaped, inbuf, emberbuf", "partial escape, partial frame, partial message", "socket/frame.go")],
  observe=["decoder packet handlers"])

p("C19", "Damaged frames are never delivered and do not take neighbours down",
  "If bytes of a frame are damaged, inserted or lost in transit, no message that was not sent is delivered (unless the damage is invisible to the 16-bit CRC), the damage is reported through the error handler when the frame is terminated, and every other single-frame message before and after it is still delivered unchanged. The decoder never panics on any byte stream.",
  ["fault_sequences", "inputs"], "every single-byte substitution (all 255 values), deletion, insertion and transposition at every position, every pair of bit flips, of a three-message stream; all short streams over the reserved bytes",
  "No test feeds a damaged frame.",
  ["socket/frame.go"], [("CRC validation", "socket/frame.go"), ("resynchronisation on the start byte", "socket/frame.go")],
  observe=["decoder packet and error handlers"])

p("C20", "Multi-frame messages are delivered whole or not at all",
  "For every sequence of received frames, a multi-frame message is delivered exactly when its first frame, all continuation frames and its last frame arrived in order with none rejected in between, and it then equals their concatenation; an abandoned or headless sequence delivers nothing, and a new first frame always starts clean. Frames that are not Ember+ data (wrong slot, message type, command, DTD or header length) are refused with an error and never contribute payload.",
  ["histories", "fault_sequences"], "all frame sequences up to length 5 (6 thorough) over {first, continuation, last, single, empty variants, keep-alive, bad CRC, foreign slot/type/command/DTD/short header}",
  "Multi-frame reception is never tested.",
  ["socket/frame.go"], [("flag handling", "socket/frame.go")],
  state=[("emberbuf", "assembled part of the current message", "socket/frame.go")],
  observe=["decoder packet and error handlers"])

p("C21", "Every keep-alive request is answered",
  "While connected, every keep-alive request a peer sends is answered with exactly one well-formed keep-alive response, ahead of requests still queued, wherever it falls between or inside other traffic; keep-alive responses from the peer are never answered. Answering neither disturbs nor drops queued requests or received data.",
  ["schedules", "histories"], "11 scripts of keep-alive traffic and messages x queue lengths x arrival times, cut at every byte, all schedules and clock deviations within the bound",
  "The client has no passing test.",
  ["socket/client.go", "socket/frame.go"], [("keep-alive handler", "socket/client.go")],
  observe=["bytes the client writes to its connection"], hook="none in /repo: the client sources are compiled through an overlay that routes net, time, sync, go and channel operations to a controlled scheduler")

p("C22", "Fetching the whole tree ends once, with the whole tree",
  "When a client asks a provider for its whole tree, the given listener is called exactly once; with a provider that answers every request, each in one message describing the requested element and its children, it receives the complete tree (every element and property the provider holds) and no error, whatever the tree's shape and size, the addressing style of the replies, their timing, their packetisation and the thread schedule (one fetch at a time, one that timed out included while its requests may still be answered; the peer sends nothing unasked but keep-alive traffic). If answers are missing, or the peer is lost, and a timeout is configured, it is still called exactly once.",
  ["schedules", "configurations", "fault_sequences"], "all provider trees up to 4-5 elements in five reply styles, all read cuts, reply delays and lost replies and all schedules within the deviation bound; big trees in the default schedule",
  "The only client test needs a real device and always fails.",
  ["socket/client.go", "embertree/root.go", "embertree/element.go"],
  [("pending request counter", "socket/client.go"), ("per-element callbacks issuing child requests", "socket/client.go")],
  state=[("pendingGetDirectory", "requests not answered yet", "socket/client.go")],
  observe=["listener passed to GetTree"], hook="overlay, as C21")

p("C23", "A request either gets its answer or one timeout, and leaves nothing behind",
  "With a timeout configured, a directory request whose answer is processed before the timeout never produces a timeout error, and one that stays unanswered produces exactly one, not earlier than the configured time. Either way no thread, timer or internal registration created for the request outlives it; with no timeout configured no timeout error is ever produced.",
  ["schedules", "fault_sequences"], "1 to 3 requests from 1 or 2 threads, answers after 0 to 35 ms or never, timeouts of 20 ms, 1 ms or none, all schedules and clock deviations within the bound, under virtual time",
  "Timeouts are never exercised by a passing test.",
  ["socket/client.go"], [("timer goroutine per request", "socket/client.go")],
  state=[("timerCallbacks", "running request timers", "socket/client.go")],
  observe=["listener calls", "live threads at quiescence"], hook="overlay, as C21")

p("C24", "Accepted requests are sent once, in order; overload is refused",
  "Every request the client accepts while connected is written to the connection exactly once, complete and in the order accepted, whichever threads submit and however the I/O loop is scheduled. When more requests are waiting than the queue may hold, further requests are refused with an error rather than lost silently, and accepted ones are unaffected.",
  ["schedules", "histories"], "1-3 submitting threads x 1-3 requests, disconnects and lost peers, under all schedules within the deviation bound; every queue fill level up to and over the limit",
  "The queue is never tested.",
  ["socket/client.go"], [("bounded FIFO", "socket/client.go"), ("send loop", "socket/client.go")],
  state=[("outQ", "requests waiting to be sent", "socket/client.go")],
  observe=["bytes written to the connection", "returned errors"], hook="overlay, as C21")

p("C25", "Connecting and disconnecting is safe at any moment",
  "Connect, Disconnect and requests may be issued in any order and at any moment relative to the I/O loop and to the peer closing the connection: nothing panics or blocks forever, Connect calls exactly the given host (a name, an IPv4 or an IPv6 address) and port, a second Connect and a Disconnect while not connected are refused with an error, and the client reports itself connected exactly between a successful Connect and the Disconnect or the detected loss of the peer. After either, its I/O thread ends, and a later Connect serves requests normally with exactly one I/O thread.",
  ["schedules", "histories"], "all sequences of 4 (thorough 5) of {connect, failing connect, disconnect, query, request, peer close, reset, pause}; pairs of threads making 2 or 3 of these calls; all schedules within the deviation bound; results explained by a sequential model",
  "Connection handling has no passing test.",
  ["socket/client.go"], [("connection field as state", "socket/client.go"), ("I/O loop condition", "socket/client.go")],
  state=[("conn", "current connection or none", "socket/client.go")],
  observe=["return values", "live threads", "connection close calls"], hook="overlay, as C21")

p("C26", "Client calls from several threads never race",
  "Requests, tree fetches, listener registration, connection queries and disconnects may be issued from any thread while the I/O loop receives, and timers expire: no two conflicting accesses to the client's or the tree's shared bookkeeping are unordered.",
  ["schedules"], "every pair of 12 calls from two threads and the scenarios of C21-C25, next to the I/O loop and timers, under all schedules within the deviation bound, each execution monitored by the race detector with scheduler hand-offs invisible to it",
  "No test runs two threads, and the race detector is not part of the test command.",
  ["socket/client.go", "embertree/element.go", "embertree/root.go", "embertree/qualified_element.go"],
  [("locks around queue, timers, connection and listeners", "socket/client.go")],
  observe=["race detector reports"], hook="overlay, as C21")

p("C27", "Loggers print exactly the enabled levels",
  "A console logger set to a level prints the messages of that severity and of every more severe one, and nothing else, formatted from its arguments; changing the level takes effect for all following messages and is reported back. The null logger never prints, whatever its level.",
  ["configurations", "histories"], "all level values x all logging methods x all level-change sequences up to length 3",
  "The logger has no tests.",
  ["logger/logger.go"], [("level comparison in each method", "logger/logger.go")],
  state=[("logLevel", "current threshold", "logger/logger.go")],
  observe=["standard output"])

p("C28", "Errors keep their cause and collect their trail",
  "Wrapping a standard error keeps that error as the cause, a formatted error carries the formatted text, and each propagation step appends exactly one location (the caller's file and line) to the trail of the same error while cause and earlier locations stay. No error in, no error out: wrapping or propagating the absence of an error yields the absence of an error.",
  ["histories"], "all chains up to length 6 of create/wrap/propagate operations from distinct call sites",
  "The error package has no tests.",
  ["errors/errors.go"], [("caller lookup and stack append", "errors/errors.go")],
  observe=["Message and Stack of returned errors"])

p("C29", "Reader positions and nesting are exact",
  "Whatever sequence of reader operations is applied to a message (peek, read byte, enter a container, check for or read its end, read items), every reader reports as remaining length and absolute offset exactly where it stands in the whole message, peeking and unsuccessful end checks consume nothing, and a sub-reader of a definite container can never see bytes beyond that container.",
  ["histories", "inputs"], "all operation sequences up to depth 5 over nested definite/indefinite messages, against a cursor model",
  "One test checks offsets along one path through one message.",
  [D], [("startingOffset and remaining length arithmetic", D), ("unread of peeked bytes", D)],
  state=[("startingOffset", "absolute position of a sub-reader", D)],
  observe=["Len, Offset, TopOffset, Peek"])

p("C30", "Encoding and printing only observe; decoding keeps nothing of its input",
  "Encoding or printing an element, tree, message or value any number of times never changes it: each encoding has the same content as the first. What was decoded does not change when the caller reuses the input buffer, and objects decoded from one input share no state with each other.",
  ["histories"], "all sequences up to length 4 of {encode, print, scribble over input, decode again, modify the other copy} on every corpus message and constructed element",
  "No test encodes or decodes anything twice.",
  ["embertree/element.go", "embertree/root.go", "embertree/content_parameter.go", D, "socket/frame.go"],
  [("fresh writer/reader buffers", D)],
  observe=["encoded bytes and accessors before and after"])

p("C31", "Logging only observes, and tells of what went wrong",
  "Whatever logger is set on a client, a decoder, a tree or an element, and at whatever level, everything else stays the same: the same bytes are sent at the same times, the same messages, answers, timeouts and errors reach the listeners and handlers, the same tree is built and the same encodings are produced. Setting no logger (nil) keeps the one in use. A client's logger is told of an error for every damaged frame, undecodable message, request that cannot be encoded and connection broken by the peer, and of none (in particular no absent error) while nothing goes wrong.",
  ["histories", "schedules", "configurations"], "all sessions of three (thorough: four) moves out of twelve x nine loggers compared with the same session without logger; all pairs of messages and all triples of frames x loggers; keep-alive and fetch sessions with a verbose logger under all schedules within the deviation bound",
  "No test sets a logger.",
  ["socket/client.go", "socket/frame.go", "embertree/root.go", "embertree/elementFactory.go", "logger/logger.go"],
  [("log calls between the steps of decoding and of the I/O loop", "socket/client.go")],
  observe=["bytes sent, listener calls, tree accessors and encodings with and without logger; calls of the logger"], hook="overlay, as C21")

p("C32", "Printed elements show what is set, and only that",
  "The text printed for an element or tree (ToString) shows every element once, below its parent, with its number or path, and each property that is set with its value, whatever the value is (zero, empty, negative, with format verbs or line breaks in it): identifier and description of all kinds; is-root and is-online of a node; type and mode of a matrix; value, minimum, maximum, default, access, format, enumeration, factor, step, is-online, type and stream identifier of a parameter. Properties that are not set are not shown; different values of a property print differently.",
  ["inputs"], "every subset of the printed properties with two values each, by number or path, built by setters or decoded; every pair of some 660 values of the six types; every forest of up to five (thorough six) elements",
  "No test looks at printed text.",
  ["embertree/element.go", "embertree/root.go", "embertree/parameter.go", "embertree/node.go", "embertree/function.go", "embertree/matrix.go", "embertree/content_parameter.go"],
  [("per-kind text of contents", "embertree/parameter.go")],
  observe=["the text returned by ToString"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
