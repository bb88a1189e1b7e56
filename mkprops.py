#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe or [],hook_needed=None)))
p("C01","Outgoing message framing is exact",
 "Every message a session sends is written to the transport as the bytes 'Content-Length: ', the decimal byte length of the message, CR LF CR LF, and then exactly the bytes of the message: nothing more, nothing less, in that order. Sending reports success only if the transport accepted all of those bytes, and once the transport refuses the header no message bytes are written after it.",
 ["inputs","fault_sequences"],"every message content and length (including empty and with any byte values) and every point at which the transport refuses a write",
 "The tests write a handful of short ASCII messages to a transport that never fails.",
 ["src/content_stream.cpp","src/content_stream.h"],[("ContentWriter::write","src/content_stream.cpp")],["bytes handed to the Writer","result of the send"])
p("C02","Incoming messages are decoded exactly for any stream and any chunking",
 "When invalid data is to be ignored, reading messages from any byte stream yields exactly the payloads of its well-formed frames: skip to the next occurrence of 'Content-Length:', skip blanks and tabs, read a decimal length greater than zero that fits in size_t, require CR LF CR LF, and return exactly that many following bytes. A header that is malformed (no digits, zero or unrepresentable length, no CR LF CR LF right after the digits) yields no message, and decoding resumes immediately after its digits; if the stream ends inside a frame no message is returned. The result depends only on the bytes, never on how the transport splits them into reads.",
 ["inputs","schedules"],"every byte stream (any garbage, any NUL or high bytes, any number of frames) and every way the transport may split it into partial reads",
 "The tests decode about ten fixed streams, delivered in a few fixed chunk sizes; no test covers NUL bytes, overflowing lengths or arbitrary split points.",
 ["src/content_stream.cpp","src/content_stream.h"],[("ContentReader::read/scan/match/matchAny/buffer","src/content_stream.cpp")],["strings returned by the reader"],
 [dict(name="buf",meaning="bytes delivered by the transport and not yet consumed, in stream order",where="src/content_stream.h")])
p("C03","The decoder never asks the transport for bytes beyond the current frame",
 "While decoding a well-formed frame, the reader never requests bytes past the end of that frame from the transport, so a message is delivered as soon as its last byte has arrived, even if the peer sends nothing more. It also never asks for more bytes than the buffer it passes can hold, and never requests zero bytes.",
 ["inputs","schedules"],"every byte stream and every sequence of partial reads; both invalid-data policies",
 "A blocked read needs a live peer that stays silent at a specific byte position; the tests feed complete streams that simply end.",
 ["src/content_stream.cpp"],[("ContentReader::buffer","src/content_stream.cpp")],["(size) arguments of Reader::read calls"])
p("C04","With the close-on-invalid policy, the first invalid data closes the stream",
 "When invalid data is to close the connection, the reader returns precisely the payloads of the well-formed frames that stand back to back from the start of the stream; at the first position where the next bytes are not a well-formed frame header it closes the transport and returns no message. Bytes are never skipped to find a later header, and the transport is not closed while everything received so far is a prefix of well-formed frames.",
 ["inputs","schedules"],"every byte stream and every chunking under the close policy",
 "The tests have two close-policy streams; whether some malformed header slips through without closing is a question about all streams.",
 ["src/content_stream.cpp","include/dap/session.h"],[("ContentReader::read, badHeader","src/content_stream.cpp")],["strings returned","close() calls on the transport"])
p("C05","In-memory pipe is a lossless FIFO with prompt wakeups",
 "The bytes read from an in-memory pipe are the bytes written to it, each exactly once, in order; a read of n bytes returns n bytes unless the pipe is closed, in which case it returns fewer, and a write succeeds exactly if the pipe was open. A reader blocked on an empty pipe is woken whenever data is written or the pipe is closed, whatever the interleaving, and after close every read and write returns without blocking.",
 ["schedules","histories","inputs"],"every interleaving of any number of readers, writers and closers, and every sequence of read and write sizes",
 "The tests use pipes with one reader and one writer; lost wakeups and reordering need particular interleavings.",
 ["src/io.cpp"],[("Pipe::read/write/close, condition variable protocol","src/io.cpp")],["results of read/write/isOpen"])
p("C06","Message queue is a FIFO that close unblocks",
 "The internal queue between the receiving and dispatching threads hands out each item put exactly once and in put order; take blocks only while the queue is open and empty, and returns nothing only if the queue is closed and drained. Items queued before close are still handed out, reset empties and reopens the queue, and no interleaving leaves a taker asleep while an item is available or the queue is closed.",
 ["schedules","histories"],"every interleaving of putters, takers, closers and resets",
 "The test puts one item and closes once; lost wakeups and reordering depend on interleavings it never creates.",
 ["src/chan.h"],[("Chan::put/take/close/reset","src/chan.h")],["optional returned by take()"])
p("C07","any and variant own one value and behave as values",
 "An any (or variant) holds exactly the value last stored or copied or moved into it: after construction, copy, move, assignment (including from itself) or reset, the type queries and get agree with the stored value, and a copy is independent of its original. Every value it constructs is destroyed exactly once, all memory is released exactly once, and no access goes outside the storage allocated for the value, whatever its size and alignment.",
 ["histories","inputs"],"every sequence of construct/copy/move/assign/reset operations over small and large contained types",
 "The tests try a few operation pairs with a few types and do not detect leaks, double destruction or self-assignment.",
 ["include/dap/any.h","include/dap/variant.h"],[("any::operator=, any::any, alloc, free, reset","include/dap/any.h")],["is<T>(), get<T>(), constructor/destructor counts, allocator calls"])
p("C08","optional behaves as a value with a total order",
 "An optional reports a value exactly when one was stored, copied or moved into it, returns that value, and returns the caller's default exactly when empty; copies are independent of their original. The comparison operators form a consistent total order in which empty equals empty and sorts before every value, and values compare as the contained type does.",
 ["inputs","histories"],"every pair of optionals (empty or not) over every pair of values and every assignment history",
 "Tests compare a few constants; the order laws quantify over all pairs.",
 ["include/dap/optional.h"],[("optional operators","include/dap/optional.h")],["has_value, value, comparison results"])
p("C09","Each accepted request is handled once and answered once, correlated",
 "A received request for which a handler is registered is handed to that handler exactly once, with its decoded arguments. The response sent carries the request's own seq as request_seq, the request's command, and success true with the handler's body or success false with the handler's error message, and the response-sent callback then runs once with the same outcome; the argument object is constructed, destroyed and freed exactly once in every case.",
 ["inputs","histories"],"every request message, every set of registered handlers, success and error outcomes",
 "Tests exercise a few requests with seq values that coincide with the order of sending.",
 ["src/session.cpp","include/dap/session.h"],[("processRequest and the payload it returns","src/session.cpp")],["handler calls","bytes sent"])
p("C10","Each response reaches exactly the request that it answers",
 "A received response is delivered exactly once to the pending request whose sequence number equals its request_seq: as a value decoded from its body when success is true and as an error with exactly the received message when success is false. A response to an unknown or already answered request reaches no handler and is reported as an error, and a matched response always completes its request: its result never stays pending for ever.",
 ["inputs","histories"],"every sequence of sent requests and received responses, in any order, duplicated or malformed",
 "Tests only return responses in order for a single outstanding request.",
 ["src/session.cpp","include/dap/session.h"],[("EventHandlers::response/put, processResponse","src/session.cpp")],["response handler calls","error handler calls"])
p("C11","Concurrent senders: unique sequence numbers and unbroken frames",
 "Whatever threads send requests, events and responses at the same time, each message is written to the transport as one unbroken frame, and all messages of a session carry distinct, positive sequence numbers (for the first 2^31-1 messages). A request or event sent is one message of that type with its own command or event name and the encoding of exactly the object passed, and sending reports success only if the transport accepted it. A request's pending entry exists before its bytes can reach the peer.",
 ["schedules"],"every interleaving of any number of sending threads",
 "A test run samples a few schedules, and two interleaved frames need a preemption between two writes.",
 ["src/session.cpp"],[("send(), sendMutex, nextSeq","src/session.cpp")],["order of Writer::write calls","seq fields"])
p("C12","Malformed and unknown messages are reported and reach no handler",
 "A received message that lacks a required header field, has an unknown type, names a command or event with no registered handler, or whose arguments or body (absent ones included) do not decode, invokes no request or event handler and is reported to the error handler; the session keeps processing later messages and no memory is leaked. The message for which decoding fails is never partially delivered.",
 ["inputs"],"every message content, valid or not",
 "The fuzzer samples; tests cover a handful of bad messages.",
 ["src/session.cpp"],[("processMessage, processRequest, processEvent","src/session.cpp")],["error handler calls","handler calls"])
p("C13","JSON decoding is type-strict",
 "For every JSON backend, decoding a JSON value into a boolean, integer, number, string, array, object or struct with fields succeeds only if the JSON value is of that kind (an integer is also acceptable as a number, and a number with no fractional part may be accepted as an integer), and then yields exactly that value, with every element and member under its own position or name; integers that do not fit 64 signed bits are refused. Otherwise decoding fails. An any takes the kind of the value at hand. A missing required field is a failure; an optional field that is missing, or of another kind, succeeds and is left empty. No JSON document and no text that is not JSON crashes the decoder.",
 ["inputs"],"every JSON document and every requested type",
 "Tests decode mostly what the same library encoded.",
 ["src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp","include/dap/serialization.h"],[("*Deserializer::deserialize, field, array","src/*_json_serializer.cpp")],["deserialize results"])
p("C14","Values survive an encode/decode round trip",
 "For every JSON backend, every boolean, 64-bit integer, finite number (to the precision the library writes), UTF-8 string (embedded NUL characters included), array, object, optional, any and struct value that is encoded successfully is decoded to an equal value: every element of every container is encoded once, in order, under its own name, and nothing else is, whatever the serializer held before (the last value given to it is the one encoded). An empty optional field is omitted and decodes as empty. The boolean, integer and number types hold exactly the value last given to them, by default false or zero. Encoding strings that are not UTF-8 does not crash.",
 ["inputs"],"every value of every supported type, nested to any depth",
 "Tests round-trip a few hand-written structures.",
 ["src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp","include/dap/serialization.h"],[("*Serializer::serialize, array, object, field","src/*_json_serializer.cpp")],["serialize/deserialize results"])
p("C15","Every protocol field is encoded and decoded under its own DAP name",
 "For every request, response, event and type of the protocol, each declared member is encoded and decoded exactly once, under its own DAP name, to and from exactly its own storage with its own type, and no other storage is touched. Each request's, response's and event's registered type name is the DAP command or event name, and each request is paired with its own response type. Fields of a base type are included, and the same holds for struct types users declare with the type-info macros.",
 ["programs","inputs"],"all protocol types (about 200 structs) and all their members",
 "Tests touch about a dozen of the several hundred fields; a swapped name or offset elsewhere goes unnoticed.",
 ["src/protocol_events.cpp","src/protocol_requests.cpp","src/protocol_response.cpp","src/protocol_types.cpp","include/dap/protocol.h","include/dap/typeof.h"],[("DAP_IMPLEMENT_STRUCT_TYPEINFO tables, DAP_FIELD","src/protocol_*.cpp")],["field names, offsets and types seen by a serializer"])
p("C16","Promise values reach their futures and wake every waiter",
 "A future obtained from a promise, before or after the value is set and from any thread, yields exactly the value set; get and wait return only once a value is set, timed waits report ready exactly if it is set by then, and no interleaving leaves a waiter asleep after the value has been set. The shared state is accessed only under its lock and outlives both sides.",
 ["schedules"],"every interleaving of one setter and any number of waiters",
 "Tests have single setters and rarely concurrent waiters.",
 ["include/dap/future.h"],[("promise::set_value, future::get/wait","include/dap/future.h")],["results of get/wait_for"])
p("C17","Reader/writer lock excludes and makes progress",
 "At no time does a writer hold the lock together with another writer or any reader, while any number of readers may hold it together. A waiting writer is woken once the last reader or the current writer leaves, whatever the interleaving, and the scoped lock objects release exactly the lock they hold, exactly once, including when moved or move-assigned.",
 ["schedules","histories"],"every interleaving of any number of lock and unlock operations; every history of scoped-lock moves",
 "Tests sample schedules with a few threads.",
 ["src/rwmutex.h"],[("RWMutex, RLock, WLock","src/rwmutex.h")],["lock/unlock return order"])
p("C18","Sockets: whole writes, honest reads, and each descriptor closed once",
 "A socket write reports success only if every byte was handed to the operating system in order; a read returns, as soon as any bytes arrive, exactly the bytes received, and zero on end of stream, error or closed socket. Connecting returns a connection only if it was established, in blocking mode, and does not wait longer than the timeout given; closing wakes threads blocked on the socket. Each socket descriptor obtained is closed exactly once and is never used after it is closed, and each address list is freed exactly once.",
 ["fault_sequences","histories","inputs"],"every result the operating system may give at each call, including partial sends and failures, and every order of use, close and destruction",
 "The kernel almost never sends partially or fails on loopback in tests.",
 ["src/socket.cpp"],[("Socket::Shared read/write/close/isOpen, Socket::connect","src/socket.cpp")],["system calls made","results returned"])
p("C19","TCP server start and stop",
 "A running server passes each accepted connection to the connect callback exactly once, and reports an error if accepting fails while it has not been stopped. Stopping (or destroying, or restarting) a server ends its accept loop and waits for it before returning, is idempotent, and never reports an error caused by the stop itself; a failed start reports an error and leaves the server stopped and reusable.",
 ["histories","fault_sequences","schedules"],"every sequence of start and stop and every outcome of opening and accepting",
 "Tests start and stop a few servers successfully.",
 ["src/network.cpp"],[("Impl::start/stop","src/network.cpp")],["onConnect/onError calls, thread joins"])
p("C20","Type registry lives while anyone uses it",
 "The library's type registry is usable from first use until both the program's own static lifetime and every initialize call have been matched by exit and a terminate call, whichever comes last; it is then destroyed exactly once. Type queries, from any thread, for the same type always give the same object, which describes that type's name, size and alignment, and distinct types give distinct objects; the objects live as long as the registry, for built-in, composed and struct types alike.",
 ["histories","schedules"],"every sequence of initialize and terminate calls around process exit, and every interleaving of first uses and last releases",
 "Tests call initialize and terminate in one order.",
 ["src/typeof.cpp","include/dap/typeof.h"],[("TypeInfos reference/release","src/typeof.cpp")],["destruction of TypeInfo objects"])
p("C21","I/O adaptors pass bytes through unchanged",
 "The combined reader-writer, file and spy adaptors return exactly the results and bytes of the streams they wrap, forward close to them, and report open exactly if what they wrap is open. A spy writes, for each successful non-empty transfer, one prefix followed by exactly the transferred bytes; a file adaptor closes its file at most once, and only if asked to own it.",
 ["inputs","fault_sequences","histories"],"all buffers and lengths, all partial and failing results of the wrapped streams",
 "No test covers short reads, failing writes or repeated close on these adaptors.",
 ["src/io.cpp"],[("RW, File, ReaderSpy, WriterSpy","src/io.cpp")],["calls on the wrapped streams, results"])
p("C22","Session processing: in order, exactly once, and clean shutdown",
 "Every request and event accepted from the stream is executed exactly once, in arrival order, on the dispatch thread, until the session is destroyed, and the close callback runs exactly once when the stream closes. Binding a session connects it to the streams given before processing starts. Destroying a session closes both streams, stops and joins its threads without deadlock, and connecting or starting twice is reported and has no other effect.",
 ["schedules","histories"],"every message sequence and every interleaving of receiving, dispatching, sending and destruction",
 "Tests rarely destroy a session while messages are in flight.",
 ["src/session.cpp"],[("startProcessingMessages, ~Impl, connect","src/session.cpp")],["handler order, onClose calls, thread joins"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
