#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, level_note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, state=state, observe=observe))

A, T, S, L, E = "asn1/", "embertree/", "socket/", "logger/", "errors/"
BER = [A + "decode.go", A + "encode.go"]

prop("C01", "Integers survive BER encoding unchanged",
     "Writing any 32-bit or 64-bit signed integer produces a canonical (shortest two's complement) BER INTEGER, and reading it back yields the same number and consumes exactly that value. Reading any well-formed INTEGER, shortest or padded, yields its numeric value; an integer that does not fit the requested type, is empty or is truncated is an error.",
     ["inputs"], "every int32 and int64, every tag, every content of 0..10 bytes",
     "The tests try about ten integers; 2^64 values and the sign/length boundaries cannot be sampled.",
     BER, [("integer writers choose the shortest length", A + "encode.go: WriteInt, WriteInt64"), ("integer readers sign-extend", A + "decode.go: ReadInt, ReadInt64")],
     "All 2^32 / 2^64 values are symbolic: exhaustive over values; padded contents up to 10 bytes.")
prop("C02", "Strings, byte buffers and length headers survive BER encoding",
     "Any string or byte buffer that is written is read back byte for byte, with a length header that is correct and minimal for every content length. A length that exceeds the data at hand is an error, never a shortened, padded or shifted value, and the values that follow are not disturbed.",
     ["inputs"], "all contents up to 5 bytes, all lengths around the one-, two-, three- and four-byte header boundaries, every header of 1..6 bytes",
     "The tests write a few short strings; the boundaries at 127/128, 255/256, 65535/65536 and truncated headers are not reached.",
     BER, [("length header writer", A + "encode.go: writeLength"), ("length header reader and content slicing", A + "decode.go: ReadLength, ReadString, ReadBitString, ReadIndifiniteLengthData")],
     "Exhaustive over contents <=5 bytes and over header bytes; long contents have most bytes fixed.")
prop("C03", "Booleans, null and enumerated values survive BER encoding",
     "Booleans, nulls and enumerated values are written as complete, canonical values that are read back unchanged and leave the following values intact. A boolean whose length is not one byte is refused.",
     ["inputs"], "both booleans, every boolean content byte and length byte, every int32 enumerated",
     "The tests check single examples and never a value that follows.",
     BER, [("boolean/null/enumerated writers and readers", A + "encode.go, decode.go: WriteBoolean, WriteNull, WriteEnum, ReadBoolean")],
     "Exhaustive over the stated values.")
prop("C04", "Relative object identifiers survive BER encoding",
     "Every relative identifier with non-negative 32-bit arcs is written in canonical base-128 form and read back arc for arc; a negative arc is refused when writing. Reading rejects a truncated arc and an arc above 32 bits instead of returning wrong numbers.",
     ["inputs"], "0..3 arbitrary arcs, 127..130 one-byte arcs, every content of 0..6 bytes, every pair of tags",
     "The tests use one or two identifiers with small arcs; the 7-bit group boundaries are not reached.",
     BER, [("base 128 encoding", A + "encode.go: WriteRelativeOID"), ("base 128 decoding", A + "decode.go: ReadOID")],
     "All int32 arcs symbolic for up to 3 arcs.")
prop("C05", "Real numbers survive BER encoding exactly",
     "Every finite double, both infinities and NaN are written as BER REAL values that read back as the same number (a negative zero as zero). Reading arbitrary real contents returns either a value or an error and consumes exactly that value on success; the number does not depend on how the exponent or mantissa is padded.",
     ["inputs"], "every 64-bit pattern of a double; every content of 0..5 bytes",
     "The tests try a handful of numbers; rounding, subnormals and exponent sizes need all 2^64 patterns.",
     BER, [("mantissa/exponent split", A + "encode.go: WriteReal"), ("recomposition", A + "decode.go: ReadReal")],
     "All bit patterns symbolic (bit-vector encoding of the float operations used). Base other than 2 and decimal reals are outside.")
prop("C06", "Typed readers refuse wrong tags and truncated values",
     "Reading a typed value succeeds only when the next tag is the expected one and the complete value is present, and then consumes exactly that value. A valid value cut at any byte is always an error, never a crash or a partial value.",
     ["inputs"], "every buffer of 0..6 bytes under every typed reader, every cut of valid values",
     "The tests only feed well-formed values to the reader of the right type.",
     BER, [("tag and length checks of each typed reader", A + "decode.go")],
     "Exhaustive over buffers up to 6 bytes.")
prop("C07", "Container readers are confined to their container",
     "A reader opened on a container of definite length sees exactly that container's bytes, however containers are nested, and its parent continues right behind the container. A value inside a container can never take bytes from beyond its end, and reported offsets are absolute positions in the original buffer.",
     ["inputs"], "up to three nested containers with any tags and surrounding bytes, short and long headers",
     "The tests open one container and read it fully; over-long inner values and offsets are not checked.",
     BER, [("sub-readers", A + "decode.go: NewReader, ReadSequenceStart, ReadSequenceEnd, Offset")],
     "Bounded nesting (3) and padding (0..2 bytes).")
prop("C08", "BER reading never crashes, hangs or over-allocates on any input",
     "Whatever bytes arrive, every reading operation of the BER layer terminates with a value or an error: it never panics, never loops without progress, and never allocates memory out of proportion to the input.",
     ["inputs", "histories"], "every buffer of 0..5 (6) bytes under every sequence of 2 (3) read operations, longer buffers under each reader",
     "Hostile input is not in the tests; a crash needs one specific combination of bytes and operations.",
     BER, [("bounds checks before every slice or allocation", A + "decode.go")],
     "Bounded input size and operations; a known finding about announced definite container lengths is listed in known_findings.json.")
prop("C09", "Parameter values keep their type and value",
     "A parameter value holds the last value assigned, of the last type assigned; asking for another type is an error and an assignment of a different type from another parameter is refused without change. Integers, reals, strings, booleans, octets and identifiers survive encoding and decoding with type and value intact, and an unset value is not encoded.",
     ["inputs", "histories"], "up to two successive assignments of any of the six types, all values, every context number",
     "The tests set one value of some types.",
     [T + "content_parameter.go"], [("type tag of the value and setters/getters", T + "content_parameter.go")],
     "Values symbolic; strings and buffers up to 3 bytes.")
prop("C10", "Node contents survive encoding and decoding",
     "For every combination of fields that are set on a node, encoding writes exactly the set fields and decoding restores exactly them with the same values, for plain and qualified nodes and for definite and indefinite containers. A field that was never set is reported as missing rather than as a default.",
     ["inputs", "configurations"], "all 64 field subsets, strings of 0..2 arbitrary bytes, every int32 number or paths of 1..2 arcs",
     "The tests set one or two fields of one node.",
     [T + "node.go", T + "element.go"], [("per-field encode/decode", T + "node.go")],
     "Field values bounded in length, subsets exhaustive.")
prop("C11", "Parameter contents survive encoding and decoding",
     "For every combination of fields that are set on a parameter (value, range, access, format, step, default, factor, enumeration and others), encoding writes exactly the set fields and decoding restores them unchanged; fields the API cannot read still survive decoding followed by re-encoding. Contents with an unknown field are refused.",
     ["inputs", "configurations"], "each single field with wide values, every pair of fields, all but one field",
     "The tests set a few fields; field number mix-ups only show for particular pairs.",
     [T + "parameter.go", T + "element.go"], [("per-field encode/decode with context numbers", T + "parameter.go")],
     "Field subsets of size 0,1,2,n-1,n; values symbolic.")
prop("C12", "Matrix contents, targets, sources and connections survive encoding",
     "For every matrix type and addressing mode and every combination of further fields, encoding and decoding a matrix restores the same contents, targets, sources and connections, plain or qualified. Elements that are not matrices refuse targets, sources and connections, whether set through the API or found on the wire.",
     ["inputs", "configurations"], "every type and mode, at most two or all but at most one other fields, 0..2 targets, sources, connections",
     "The tests decode one matrix.",
     [T + "matrix.go", T + "matrix_element.go", T + "element.go"], [("matrix contents and signal lists", T + "matrix_element.go, matrix.go, signal.go, connection.go")],
     "List lengths up to 2, numbers symbolic.")
prop("C13", "Functions and invocations survive encoding and decoding",
     "Function contents with any subset of fields and their argument and result descriptions, and invocations with any identifier and arguments of any type, are restored unchanged by encoding and decoding. Unknown members are refused.",
     ["inputs", "configurations"], "any subset of fields, 0..2 arguments and results, every int32 id, arguments of every type",
     "Function decoding is barely tested; argument lists and ids not at all.",
     [T + "function.go", T + "invocation.go", T + "elementFactory.go"], [("function contents", T + "function.go"), ("invocation", T + "invocation.go")],
     "List lengths up to 2.")
prop("C14", "Connections, labels and signals survive encoding and decoding",
     "A connection (target, sources, operation, disposition), a label (base path, description) and a signal number are restored unchanged by encoding and decoding, in every combination of present fields. An operation or disposition outside the protocol's enumeration, an unknown field or a missing target is an error.",
     ["inputs"], "every int32 target and number, 0..3 sources, all operations and dispositions, any int32 enumeration value",
     "The tests decode single examples.",
     [T + "connection.go", T + "label.go", T + "signal.go"], [("encode/decode", T + "connection.go, label.go, signal.go")],
     "List lengths up to 3.")
prop("C15", "An element tree survives encoding and decoding",
     "Encoding a tree of nodes, parameters, functions and matrices and decoding the bytes yields the same tree: the same elements at the same paths with the same types and contents, and nothing else. This holds for every shape, every numbering and every order in which siblings are written.",
     ["inputs", "configurations"], "every shape up to 5 (7) elements and 3 levels, any distinct numbers, any map iteration order",
     "The tests encode a tree of one or two levels; deeper descendants and several siblings are not compared.",
     [T + "element.go", T + "root.go", T + "qualified_element.go"], [("recursive encode/decode of children", T + "element.go, qualified_element.go"), ("root", T + "root.go")],
     "Bounded tree size; numbers and one-byte contents symbolic.")
prop("C16", "Definite and indefinite container forms mean the same",
     "A message decodes to the same tree and contents whichever of its containers use the definite and whichever the indefinite length form, in every mixture. The form never leaks into neighbouring elements.",
     ["inputs", "configurations"], "ten messages covering every container kind, every choice of form per container (up to 14)",
     "The tests contain captured messages in one form each.",
     [A + "decode.go", T + "element.go"], [("end-of-contents handling", A + "decode.go: ReadSequenceStart, ReadSequenceEnd; embertree decoders")],
     "All 2^n form choices are covered; message contents are fixed to the listed ten.")
prop("C17", "Decoding a message never crashes, hangs or over-allocates",
     "Whatever bytes a peer sends as a message, decoding them terminates with a tree or an error: no panic, no endless loop, no memory use out of proportion to the input. This holds for every decoder of the tree layer.",
     ["inputs"], "every buffer of 0..5 (6) bytes, valid messages with any 2 (3) adjacent bytes replaced or cut anywhere, valid prefixes followed by arbitrary bytes, paths of 100..2000 arcs and their memory",
     "Hostile messages are not in the tests.",
     [T + "element.go", T + "root.go", T + "matrix.go", T + "command.go", A + "decode.go"], [("error propagation in decode loops", T + "*.go Decode functions")],
     "Bounded mutation window; a known finding about announced definite container lengths is listed in known_findings.json.")
prop("C18", "Enumerations and command numbers are validated",
     "Matrix types and modes, connection operations and dispositions outside their enumeration are refused and leave the object unchanged; values inside are accepted and kept. A command travels with its number and flags unchanged, and a directory request asks for all fields unless told otherwise.",
     ["inputs"], "every int8 type and mode, every int operation and disposition, every int32 flags value, commands 0..33",
     "The tests try one invalid value.",
     [T + "matrix.go", T + "connection.go", T + "command.go"], [("range checks in setters", T + "matrix_element.go, connection.go"), ("command encode/decode", T + "command.go")],
     "Exhaustive over the stated values.")
prop("C19", "Updates merge into the existing tree",
     "When a message arrives for elements already known, each existing element object is kept and takes the new contents, new elements are added at their place, and elements the message does not mention stay as they are. An update whose number or type does not match the existing element changes nothing in it.",
     ["histories", "inputs"], "two successive messages of 18 kinds with symbolic contents, plain and qualified; matrix signal and connection updates",
     "The tests decode a message or two into a tree and look at few elements.",
     [T + "element.go", T + "root.go"], [("update", T + "element.go: Update; root.go: Decode, updateElement, updateQualifiedElement")],
     "Two (thorough three) messages from a fixed catalogue with symbolic numbers and contents.")
prop("C20", "Elements are found and placed by their path",
     "Looking up a path finds an element and its parent exactly when they exist, and never another element; the path an element reports always follows its ancestors. A qualified element received from the peer is placed at its path, updates the element already there, or is refused when its parent is unknown.",
     ["inputs", "histories"], "paths of 0..5 arbitrary int32 arcs; qualified elements with paths of 1..5 arcs; any order of assembling",
     "The tests look up one or two existing paths.",
     [T + "element.go", T + "root.go"], [("path lookup and placement", T + "root.go: GetElementByPath, updateQualifiedElement; qualified_element.go: GetPath")],
     "Fixed tree of eight elements, arbitrary paths.")
prop("C21", "Listeners are notified exactly about their element's updates",
     "A listener added to an element is called once for every update that concerns that element and not for updates of unrelated elements, and receives the element concerned or the error. A removed listener is never called again, even when it is removed from within a notification, and the other listeners are unaffected.",
     ["histories", "schedules"], "two messages of 18 kinds, two listeners per element, every way of removal",
     "The tests attach one listener to one element.",
     [T + "element.go", T + "root.go"], [("listener registry", T + "element.go, root.go: AddListener, RemoveListener, notification after updates")],
     "Two successive messages, two listeners.")
prop("C22", "Directory requests address exactly their element",
     "The request built for an element, of any type and at any depth, is a message that addresses this element by its path with the directory command and carries nothing else; the request for the root is the bare command. The listener given with the request is notified by the reply for that element.",
     ["inputs"], "elements of every type at depth 1..4, any int32 numbers, built or decoded, with or without contents and children",
     "The tests compare one request with fixed bytes.",
     [T + "element.go", T + "root.go", T + "command.go"], [("request construction", T + "element.go: GetDirectoryMsg; qualified_element.go: GetQualifiedDirectoryMsg; root.go: GetDirectoryMsg")],
     "Depth up to 4.")
prop("C23", "S101 framing round-trips any message under any chunking",
     "A message of any length is split into frames of bounded size whose bytes follow the S101 format (delimiters, escaping, flags, checksum). Feeding these bytes to the decoder in any pieces delivers exactly the original messages, once, in order.",
     ["inputs", "schedules"], "every message of 0..5 (7) bytes cut anywhere, lengths around the packet boundaries, several messages in one stream in pieces of 1..2048 bytes, up to 20 (70) packets",
     "The tests encode one message and decode it in one piece.",
     [S + "frame.go"], [("packetising and escaping", S + "frame.go: EncodeMessage"), ("decoder state machine", S + "frame.go: DecodeBuffer")],
     "Arbitrary bytes for short messages, boundary lengths with most bytes fixed.")
prop("C24", "S101 checksums are correct and corruption is detected",
     "The checksum is CRC-16/X.25 for every content, and a frame is accepted exactly when its checksum matches. Any burst of up to 16 corrupted bits and any two flipped bits within a frame are detected: nothing is delivered from such a frame, and the next one is received normally.",
     ["inputs", "fault_sequences"], "0..16 (64) arbitrary bytes; every error burst up to 16 bits at any position; every pair of flipped bits in frames of 2..10 (20) bytes",
     "The tests check the checksum of one frame.",
     [S + "frame.go"], [("CRC table and computation", S + "frame.go: CalculateCRC, CalculateCRCCE"), ("validation", S + "frame.go: ValidateFrame")],
     "Bounded frame length; all contents and error patterns symbolic.")
prop("C25", "The S101 decoder resynchronises after garbage and truncation",
     "After arbitrary garbage, a truncated or damaged frame, or a frame of another kind, the next valid frame is delivered whole and exactly once. Frames that are not Ember messages or keep-alives have no effect.",
     ["inputs", "fault_sequences", "histories"], "0..5 (6) arbitrary garbage bytes, truncation at every point, every header field value, garbage up to 5000 bytes, ten damaged frames in a row",
     "The tests feed clean frames only.",
     [S + "frame.go"], [("decoder state machine", S + "frame.go: DecodeBuffer, HandleFrame")],
     "Bounded garbage and payload.")
prop("C26", "Multi-packet messages are reassembled completely or not at all",
     "A message sent in several packets is delivered exactly once, with the payloads of its packets in order, when its last packet arrives. If any packet is lost, cut off or damaged, no shortened or mixed message is ever delivered, and the following complete message is delivered intact.",
     ["inputs", "fault_sequences", "histories"], "every sequence of 3 (4) packets with arbitrary flags, damaged or lost packets, interleaved keep-alives; longer messages up to 20 packets, abandoned ones up to 3000 bytes",
     "The tests decode one two-packet message.",
     [S + "frame.go"], [("reassembly by first/last flags", S + "frame.go: HandleEmberFrame / DecodeBuffer")],
     "Up to 4 packets arbitrary; up to 20 packets of up to 1000 bytes with most bytes fixed.")
prop("C27", "Keep-alive requests are answered once and at once",
     "Every keep-alive request received from the peer is answered with exactly one keep-alive response frame, without waiting for queued requests. Responses of the peer are never answered, and keep-alives do not disturb messages in progress.",
     ["inputs", "schedules"], "1..3 requests cut anywhere with 0..2 (20) queued messages, any schedule of the client's goroutines",
     "There is no test of a connected client.",
     [S + "client.go", S + "frame.go"], [("keep-alive handler", S + "client.go: keepAliveReqHandler"), ("frames", S + "frame.go: GetKeepAliveResponse, GetKeepaliveRequest")],
     "Simulated network in virtual time; real client code.")
prop("C28", "S101 decoding never crashes on any byte stream",
     "Whatever bytes arrive, in whatever pieces, the frame decoder neither panics nor blocks and never delivers a message that was not framed with a valid checksum.",
     ["inputs"], "every stream of 0..6 (7) bytes in two pieces, every frame content of 0..14 (20) bytes, every stream of 0..9 (11) special bytes",
     "Hostile streams are not in the tests.",
     [S + "frame.go"], [("length checks in the decoder", S + "frame.go")],
     "Bounded stream length.")
prop("C29", "Accepted requests are sent exactly once, in order",
     "Every request the client accepts, before or while connected and from any goroutine, is sent exactly once and in the order it was accepted. At most 256 requests wait at a time; a request beyond is refused with an error and never sent, and requests are accepted again once the queue drains.",
     ["histories", "schedules", "inputs"], "0..6 requests around the connection, 1..30 requests waiting when connections end, 30 requests in bursts, 256..258 requests, 600 requests in the life of a client, messages of several packets, two goroutines with 1..3 requests each, also at the limit, symbolic schedules with preemption",
     "There is no test of a connected client; interleavings cannot be forced by tests.",
     [S + "client.go"], [("outgoing queue", S + "client.go: packetQueue"), ("sending loop", S + "client.go: iomanager")],
     "Simulated network in virtual time; schedules with a bounded number of deviations from round robin.")
prop("C30", "Request time-outs fire exactly when no answer came",
     "With a time-out configured, a request whose element (or root) is not updated in time reports exactly one time-out to its listener, not before the time-out has passed; an answered request never reports one. Without a time-out nothing fires; a late answer is still delivered.",
     ["schedules", "histories"], "time-outs of 1 ms to 24 days, 50..400 ms against answers at seven moments and at the very moment, up to six overlapping requests, settings changed between requests, no time-out",
     "Timing in tests is sampled; each test sees one schedule.",
     [S + "client.go"], [("request timer", S + "client.go: startTimer, GetDirectory")],
     "Virtual time, symbolic choices of moments and schedules (bounded deviations).")
prop("C31", "Fetching the whole tree completes exactly once",
     "When the peer answers each request in one message, fetching the tree requests every element of the peer's tree exactly once and then calls the listener exactly once, with the complete tree, after the last reply. If some element is never answered and a time-out is set, or a request does not fit in the queue, the listener is still called exactly once, with an error; unsolicited updates in between change neither. Without a listener (nil) the same requests are made.",
     ["histories", "schedules", "fault_sequences"], "eleven tree shapes up to 21 elements, 255..300 elements at once, both reply styles, silent elements, unsolicited updates, repeated calls, no listener, connections lost at six moments, symbolic schedules",
     "There is no test of a connected client.",
     [S + "client.go"], [("pending request counting", S + "client.go: GetTree and its listeners")],
     "Virtual time; bounded shapes and schedule deviations.")
prop("C32", "The client follows its connection and survives its loss",
     "The client reports itself connected exactly from a successful connect until it disconnects or the peer closes or resets the connection, and then closes its side. Afterwards a new connection works as if it were the first: nothing left over from the old one is mixed into it, and messages received before the end of a connection are processed. A malformed message does not end the connection.",
     ["histories", "fault_sequences", "schedules"], "every sequence of 4 (5) connect/disconnect/close/reset/refuse operations, disconnection in the middle of a frame or message at every byte, with the rest arriving on the next connection, reconnection within a listener, malformed messages of 0..3 bytes, failing writes",
     "There is no test of a connected client; faults at particular points cannot be sampled.",
     [S + "client.go"], [("connection state", S + "client.go: Connect, Disconnect, IsConnected, iomanager")],
     "Simulated network in virtual time.")
prop("C33", "Loggers print exactly what their level admits",
     "A console logger prints a message exactly when the message's severity is admitted by its current level, for every level and method; a more verbose level prints everything a less verbose one does. The null logger never prints.",
     ["inputs", "configurations"], "every level byte set at creation or later, every method",
     "The tests call each method at one level.",
     [L + "logger.go"], [("level comparison", L + "logger.go")],
     "Exhaustive over levels and methods.")
prop("C34", "Texts and loggers never interfere",
     "The text of any element, contents or tree (ToString) can always be made, changes nothing, and names the number, path, identifier and description of every element and the set fields of a parameter. Attaching any logger, of any level, to a tree, element, decoder or client changes nothing in what is received, delivered, requested or notified; a nil logger is ignored. A path is printed as its numbers joined by dots.",
     ["inputs", "configurations", "histories"], "trees of four elements of every type, 20 kinds of messages with arbitrary contents, ten messages with any two adjacent bytes changed, memory for the text of up to 2000 elements, five loggers on tree, decoder and client",
     "No test makes a text or attaches a logger; the client makes texts of every tree it receives.",
     [T + "element.go", T + "root.go", T + "parameter.go", T + "matrix.go", T + "node.go", S + "client.go", S + "frame.go"], [("texts", T + "*.go: ToString, Path2String"), ("loggers", "SetLogger of Element, RootElement, S101Decoder, S101Client")],
     "Concrete identifiers where the text is inspected; two changed bytes exclude multi-byte lengths.")
prop("C35", "The stack is last-in first-out",
     "Popping returns the most recently pushed value that has not been popped yet, in whatever order values are pushed and popped. Popping an empty stack yields nothing instead of crashing or inventing a value, and the stack stays usable.",
     ["histories", "inputs"], "every sequence of 8 (10) operations with any values",
     "The tests do two pushes and pops.",
     [A + "stack.go"], [("stack operations", A + "stack.go")],
     "Bounded sequences.")
prop("C36", "Errors keep their message and trace",
     "An error created from a message or from another error keeps its text unchanged however often it is propagated, records one position per propagation, and never shares state with another error. Failing operations of the public API return an error with a message and a position; successful ones return none.",
     ["inputs", "histories"], "messages, wrapped errors and nil, 0..6 propagations through two call sites",
     "The tests create one error.",
     [E + "errors.go"], [("error trace", E + "errors.go: New, NewError, Update")],
     "Bounded propagation count.")

prop("C37", "The client may be used from several goroutines and from listeners",
     "Requests, tree fetches, connecting, disconnecting, asking for the connection state and adding or removing listeners may happen at the same time from any goroutines, while messages arrive: the outcome is that of doing them one after the other, without unsynchronised memory accesses, lost requests, false time-outs or connections left open. Messages are processed one at a time. All this may also be done from within a listener.",
     ["schedules", "histories"], "two goroutines with one operation each (all pairs), or two listener changes, against arriving messages; listeners doing six operations or taking 50 ms across a reconnection; symbolic schedules with preemption",
     "A race needs a particular interleaving; no test runs two goroutines.",
     [S + "client.go", T + "element.go", T + "root.go"], [("locks of connection, queue and listeners", S + "client.go: Connect, getConn, closeConn, packetQueue; " + T + "element.go, root.go: AddListener, RemoveListener, getListeners"), ("one message at a time", S + "client.go: iomanager")],
     "Bounded: one or two preemptions at synchronisation operations on top of the blocking ones; happens-before race detection on every path. Settings (time-out, loggers) and reading the tree while messages arrive are outside.")

prop("C38", "Nothing received, written or held shares memory with anything else",
     "Decoding does not change its input and keeps nothing of it: the buffer may be reused or overwritten at once without changing values, trees, or messages delivered by the decoder or the client, and two results never share anything. Encoding does not change what is encoded, gives the same bytes again, and neither later changes of the data or element nor of the bytes returned reach the other side. Decoders, writers, frame lists, keep-alive frames and clients of one process are independent of each other.",
     ["inputs", "histories", "schedules"], "every kind of value up to 3 bytes, ten messages in three container forms, two (three) merged updates of 20 kinds, eight kinds of elements, frames of messages of 0..3 arbitrary bytes and of two packets, three messages in one or two packets, two clients with answers cut anywhere; buffers overwritten after each step",
     "The tests never reuse a buffer; sharing only shows when something else is written later.",
     [A + "decode.go", A + "encode.go", S + "frame.go", S + "client.go", T + "element.go", T + "qualified_element.go"],
     [("copies of what is read", A + "decode.go: readStringBuffer, ReadIndifiniteLengthData, ReadOID"), ("copies of messages and frames", S + "frame.go: EncodeMessage, GetBytesAt, DecodeBuffer, HandleEmberFrame"), ("state per client", S + "client.go: NewS101Client, iomanager")],
     "Values set by the user (SetBuffer, SetRelativeOID, NewQualified...) and references handed out by getters are held, not copied, as usual in Go: their later changes are outside.")

exec(open(os.path.join(V, "tools", "extra_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "extra_props.py")) else None

P.sort(key=lambda p: p["id"])
NA = globals().get("NA", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
na = {n["property"] for n in NA}
for p in P:
    if p["id"] in na: continue
    checks.append({"property": p["id"],
        "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
        "technique": "symbolic execution of the real Go code (go/ssa) with SMT (z3), bounded",
        "level": "model_checking",
        "level_note": p["note"] + " Trusted: the SSA interpreter and stubs of /verif/engine (validated natively on sampled paths every run), z3; counterexamples are replayed on the real code before being reported. Outside the stated bounds nothing is claimed."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: harnesses drive the public API; net.Dial is redirected by the engine and, natively, by a build overlay."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
