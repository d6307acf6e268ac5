# The properties and how each is checked; gen_manifest.py turns this into
# properties.jsonl and MANIFEST.json.
STATEFUL = 'model-based property-based testing: generated histories, schedules and faults against the real client and server over an in-memory network, judged by an oracle over the history; '
EXPL = 'Random search over generated plans with shrinking; the schedule is that of the Go scheduler under a virtual clock, driven by generated latencies, fragmentation, windows, gaps and delays. '

props = [
dict(id='C01', title='Packets survive the wire unchanged, in the documented v1 layout',
 statement='Every packet that the library can build encodes to the version 1 wire layout (14 byte header with version, type, big-endian packet id and payload length, then the fixed fields, then the payload), and decoding those bytes, from a slice or from a reader that fragments them arbitrarily, gives back a packet with the same type, ids, flags, heartbeat, metadata, data, custom data, topic, method and error. A sequence of packets written to one connection is read back as that sequence.',
 over=['inputs'], space='all packet kinds, ids, valid UTF-8 strings, binary payloads incl. empty and large, reader fragmentations',
 why='The one codec test round-trips one packet kind with one value.',
 files=['packet/decode.go','packet/packet.go','packet/packet_conn.go','packet/packet_sess.go','packet/packet_data.go','packet/factory.go'],
 mech=[('encode and decode per packet kind','packet/')], observe=['packet.Encode, packet.Decode, packet.DecodeFromReader, packet.EncodeToWriter'],
 technique='property-based round-trip and differential test against an independent reference encoder',
 note='Random structured search over all packet kinds; trusts the reference encoder in the harness.'),
dict(id='C02', title='Arbitrary bytes cannot crash the decoder or make it take unbounded memory',
 statement='Decoding any byte sequence, from a slice or from a reader, returns a packet or an error: it never panics, never loops, and never takes memory out of proportion to the bytes that were actually received. A packet that announces more payload than arrives is an error and not a packet.',
 over=['inputs'], space='all byte strings: mutated and truncated valid packets, headers with hostile lengths, random bytes',
 why='No test decodes malformed input.',
 files=['packet/decode.go','packet/packet_conn.go','packet/packet_sess.go','packet/packet_data.go'],
 mech=[('length checks while decoding','packet/')], observe=['packet.Decode, packet.DecodeFromReader'],
 technique='structured fuzzing of the decoders with a no-panic / memory-bound oracle',
 note='Random mutated packets, headers and bytes; memory measured by allocation counters.'),
dict(id='C03', title='IDs are unique, also between the two sides of a connection',
 statement='IDs given by a counter are never 0 and never given twice, from any number of goroutines and as time passes; even and odd counters keep their parity, and a counter of unique IDs gives none that is in use or reserved. So the streams opened at the same time from both sides of a connection have distinct IDs other than that of the default stream, which both sides agree on, and no two messages or requests made at either end of a connection share an ID.',
 over=['inputs','histories','schedules'], space='operation sequences on counters of every mode, concurrent use, streams opened concurrently from both sides, messages and requests made concurrently',
 why='No test looks at IDs.',
 files=['pkg/id/id.go','multiplexer/dialogue_mgr.go','multiplexer/dialogue.go','packet/factory.go','client/end_options.go','server/end_options.go'],
 mech=[('ID counters','pkg/id/id.go'),('dialogue IDs negotiated with the server','multiplexer/')], observe=['IDCounter.GetID, Stream.StreamID, Message.ID, Request.ID'],
 technique=STATEFUL+'oracle: set model of IDs in use', note=EXPL),
dict(id='C04', title='Both ends agree on the outcome of the handshake',
 statement='When a client connects, either both ends come up, with the same client ID, metadata and default stream, and with the addresses of their network connection, or both fail. The ID is the one that the delegate of the server chose, or else one that no other client was assigned. The delegate is asked for the ID once, with the wanted ID and metadata of that client, and then told online once; if it refuses either, the client gets the text of the refusal, the server an error, nobody is told online or offline afterwards, and both network connections are closed. Connecting clients do not disturb each other.',
 over=['inputs','schedules','histories'], space='concurrent clients, wanted IDs, metadata, delegates that choose, grant, leave or refuse, quickly or slowly, buffer sizes, link timing',
 why='No test has a delegate or looks at IDs.',
 files=['conn/conn_client.go','conn/conn_server.go','client/end.go','server/end.go','packet/packet_conn.go'],
 mech=[('conn and conn ack','conn/'),('assembly of an end','client/end.go, server/end.go')], observe=['NewEnd results, ClientID, Meta, addresses, delegate callbacks, net.Conn closed'],
 technique=STATEFUL+'oracle: model of the decision of the delegate', note=EXPL),
dict(id='C05', title='Heartbeats keep living connections and give up dead ones',
 statement='A connection whose both ends live stays up and usable for as long as nothing breaks it, however little is sent over it and however its delays vary below the heartbeat interval, and the server is told about a heartbeat of the client about once per 20 seconds. When a client falls silent, the server notices by itself within twice the heartbeat interval plus the time a connection takes to finish, without any operation on it: everything blocked at the server end returns, ConnOffline is called exactly once, and the network connection is closed; a client that can still hear the server ends too.',
 over=['histories','timings','fault_sequences'], space='idle times up to minutes, sparse traffic, stalls shorter than a heartbeat, a client that falls silent at any moment in one or both directions with any operations pending',
 why='The tests last milliseconds; no test reaches a single heartbeat.',
 files=['conn/conn_client.go','conn/conn_server.go','conn/conn_base.go','server/end.go'],
 mech=[('heartbeats and their timeout','conn/conn_client.go, conn/conn_server.go')], observe=['delegate callbacks Heartbeat and ConnOffline, results of operations, net.Conn closed'],
 technique=STATEFUL+'oracle: model of when a connection lives, in virtual time', note=EXPL),
dict(id='C06', title='Messages arrive once, intact, in order, at the stream they were published on',
 statement='Over a healthy connection every message published on a stream is received exactly once at the other side of that same stream, with the same data, topic, custom data, consistency and time limit, and messages of one publisher are received in the order in which they were published. A publish that waits for the acknowledgement returns only after, and with, the answer (success or error text) that the receiver gave to that very message. Several goroutines may receive at one stream, and a Receive that ends with its context takes no message with it: the next one gets it.',
 over=['histories','schedules','inputs'], space='concurrent publishers on both sides, concurrent receivers and receivers with deadlines, several streams, payload sizes, sync/async/at-most-once, answers in any order and from any goroutine, link timing and fragmentation',
 why='The tests publish one kind of message sequentially over loopback and count them.',
 files=['application/message.go','application/stream.go','application/types.go','multiplexer/dialogue.go','conn/conn_base.go'],
 mech=[('message and acknowledgement paths','application/'),('channel pipelines','multiplexer/, conn/')], observe=['Publish, PublishAsync, Receive, Message.Done, Message.Error'],
 technique=STATEFUL+'oracle: per-message delivery ledger', note=EXPL),
dict(id='C07', title='Every publish completes exactly once, whatever happens to the stream',
 statement='Each accepted publish completes exactly once: with the answer of the receiver, or with an error once its time limit passes, its stream or end is closed by either side, or the connection breaks. A publish never reports success for a message that the receiver did not acknowledge, and never stays pending after the stream is gone.',
 over=['histories','fault_sequences','schedules'], space='sync and async publishes with and without time limits, unanswered and failed messages, closing of streams and ends and breaking of the connection at any moment',
 why='No test closes or breaks anything while publishes are in flight.',
 files=['application/message.go','application/stream.go'],
 mech=[('completion bookkeeping','application/message.go'),('failing what is pending when a stream ends','application/stream.go')], observe=['Publish result, Publish.Done channel'],
 technique=STATEFUL+'oracle: exactly one completion per operation, consistent with what the receiver did', note=EXPL),
dict(id='C08', title='Each call gets the response of its own request',
 statement='Over a healthy connection every call reaches the handler registered for its method on the other side of the same stream exactly once, with the same data, custom data and method, and its caller gets exactly the data, custom data or error that this handler run produced. This holds for any number of concurrent synchronous and asynchronous calls in both directions, whatever order the handlers finish in, also if a handler itself calls back over the stream or waits for another call, and a call of an unregistered method fails with an error naming it.',
 over=['histories','schedules','inputs'], space='concurrent callers on both sides, several streams, handler delays and errors, payload sizes, link timing',
 why='The tests issue calls with identical payloads and hardly look at the responses.',
 files=['application/rpc.go','application/stream.go','application/types.go'],
 mech=[('request/response matching by ID','application/')], observe=['Call, CallAsync, handler arguments'],
 technique=STATEFUL+'oracle: reference echo model per call', note=EXPL),
dict(id='C09', title='Every call completes exactly once, whatever happens to the stream',
 statement='Each accepted call completes exactly once: with the response of its handler, or with an error once its time limit passes, its stream or end is closed by either side, or the connection breaks. A call never succeeds unless its handler ran to the end, and never stays pending after the stream is gone.',
 over=['histories','fault_sequences','schedules'], space='sync and async calls with and without time limits, slow handlers, closing of streams and ends and breaking of the connection at any moment',
 why='No test closes or breaks anything while calls are in flight.',
 files=['application/rpc.go','application/stream.go'],
 mech=[('completion bookkeeping','application/rpc.go'),('failing what is pending when a stream ends','application/stream.go')], observe=['Call result, Call.Done channel'],
 technique=STATEFUL+'oracle: exactly one completion per operation, consistent with what the handler did', note=EXPL),
dict(id='C10', title='Time limits, deadlines and cancellation are kept, on both sides',
 statement='A publish or call, sync or async, with a timeout, a context deadline or a cancellable context completes no later than when the first of its limits passes (within the resolution of the timer), with the error of that limit, however slow the connection or the other side is; it never fails for a limit that has not passed, and an answer that arrives before the limits is never discarded. The context of a handler carries the earliest deadline of the call, ends exactly then, is cancelled when the caller cancels a pending call, sync or async, and otherwise does not end while the handler works. Answers that arrive too late do no harm: later operations get their own, and one with the same message or request that or the earlier one. Receive with a context returns when that ends and loses no message.',
 over=['histories','timings','schedules'], space='operations of all four kinds with any combination of limits, answers before, about and after the limits or never, repeated sends, latencies and stalls, several streams and both sides',
 why='One test uses one timeout; cancellation, deadlines, late answers and their races are never exercised.',
 files=['application/rpc.go','application/message.go','application/stream.go'],
 mech=[('limits of the sender','application/rpc.go, application/message.go'),('context of the handler','application/stream.go handleInRequestPacket, doRPC')], observe=['results of Call, CallAsync, Publish, PublishAsync, Receive and when they come; the context of handlers'],
 technique=STATEFUL+'oracle: model of limits and answers in virtual time', note=EXPL),
dict(id='C11', title='Calls are dispatched to the handler registered on that stream',
 statement='A call is handled by the hijack of the other side of its stream if there is one and the method (does not) match its pattern, otherwise by the function last registered there for the method, and otherwise fails with "no such rpc"; a later Register or Hijack replaces the earlier one, a pattern that does not compile changes nothing, a function whose registration failed because its context ended is not called, and streams do not share handlers. The handler sees the method, and the caller gets the data, custom data or error the handler set. With the check of remote methods on, a call fails at once exactly when its method was not registered by the other side on that stream. An end that waits for remote methods comes up as soon as all of them are registered and not before, and fails when the other end closes. Each registration is told to the delegate of the other side once, with its client and stream.',
 over=['histories','schedules','inputs'], space='histories of registrations, hijacks, patterns, calls and streams on both sides, concurrent in batches, arbitrary method names, all combinations of options',
 why='The tests register one method and call it; patterns, overwriting, scoping by stream and the options are untested.',
 files=['application/rpc.go','application/stream.go','application/end.go','client/end.go','server/end.go','options/hijack.go'],
 mech=[('dispatch','application/stream.go handleInRequestPacket'),('registration and its options','application/rpc.go, application/end.go')], observe=['which handler ran with what, results of Call, CallAsync, Register, Hijack, NewEnd, RemoteRegistration'],
 technique=STATEFUL+'oracle: reference model of the dispatch table with sets of possible states for concurrent changes', note=EXPL),
dict(id='C12', title='A stream carries raw bytes like a TCP connection',
 statement='The bytes written to one side of a stream are read at its other side in that order, each exactly once, without gaps and without bytes of other streams or of messages, whatever the sizes of writes and of read buffers. A successful write reports the full length.',
 over=['histories','inputs','schedules'], space='chunk sizes incl. empty, read buffer sizes from 1 byte, slow readers, several streams in both directions, fragmentation',
 why='The one raw test uses a single write and a matching buffer.',
 files=['application/raw.go','application/stream.go'],
 mech=[('buffering of unread bytes','application/raw.go')], observe=['Stream.Read, Stream.Write'],
 technique=STATEFUL+'oracle: byte-exact prefix model per direction', note=EXPL),
dict(id='C13', title='Deadlines of the byte stream end what is blocked and lose nothing',
 statement='A stream keeps the deadlines of net.Conn: a Read or Write that is blocked when its deadline passes, or is set to a moment that has passed, ends right then with os.ErrDeadlineExceeded, and none ends with it while no deadline in effect has passed, whichever deadlines were set, extended or cleared before and by whom. A deadline that has passed affects neither the bytes already under way nor later operations once it was extended or cleared: the bytes of the successful writes, and only those, arrive once, in order, however they meet deadlines, buffers of any size and pauses of the reader.',
 over=['histories','timings','schedules'], space='deadlines of either kind set, extended and cleared at any moment by concurrent goroutines, with one or more readers and writers, buffers and writes of any size, and queues that fill up',
 why='The deadline tests are sequential and use one deadline in wall-clock time with wide margins.',
 files=['application/raw.go','application/stream.go'],
 mech=[('deadlines, Read and Write','application/raw.go')], observe=['results of Read and Write, when they end, the bytes read'],
 technique=STATEFUL+'oracle: history of the deadlines in effect in exact virtual time, and the stream of bytes written', note=EXPL),
dict(id='C14', title='Concurrent traffic of all kinds neither interferes nor deadlocks',
 statement='Messages, calls and raw bytes may be used at the same time, on any number of streams, in both directions and from any number of goroutines: each keeps its own guarantees. As long as both sides keep receiving, every operation over a healthy connection completes, whatever the bursts, also those of handlers that call back or wait for other calls.',
 over=['histories','schedules'], space='up to 10 concurrent actors, 5 streams, bursts of thousands of operations, slow receivers, windows down to a few bytes',
 why='The tests exercise one kind of operation in one direction at a time.',
 files=['application/stream.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','conn/conn_base.go'],
 mech=[('pipelines of bounded channels without cyclic waits','conn/, multiplexer/, application/')], observe=['completion of every operation within a bounded virtual time'],
 technique=STATEFUL+'oracle: delivery ledgers of C06/C08/C12 plus progress', note=EXPL),
dict(id='C15', title='A stream opened at one end is accepted at the other, the same at both',
 statement='Opening a stream at either end over a healthy connection makes exactly one stream available to be accepted at the other end, by AcceptStream, Accept or the accept function, in the order of opening: with the same ID, metadata, peer name and client ID, with the addresses of its end, the opener being its initiator and the other its recipient. What the opener writes, publishes or registers at once is not lost, however late the other end accepts, also when the opener closes the stream, or its end, right afterwards, and what an accept function registers or hijacks is there for the first call of the opener. Both ends list exactly the default stream and the open streams; a closed stream leaves both lists and its closed function is called once, while the others remain usable.',
 over=['histories','schedules','inputs'], space='up to 24 streams from both sides, at once or spread, metadata and peer names, early data, messages and methods, late and concurrent acceptors, link timing, some closed again, some closed right after opening, ends that open, write and close',
 why='No test looks at metadata, peers, IDs or lists, or opens streams from both ends at once.',
 files=['multiplexer/dialogue_mgr.go','multiplexer/dialogue.go','application/end.go','packet/packet_sess.go'],
 mech=[('session negotiation','multiplexer/'),('stream list','application/end.go')], observe=['OpenStream, AcceptStream, Accept, ListStreams, ID, Meta, Peer, Side, addresses, accept and closed functions'],
 technique=STATEFUL+'oracle: model of the streams that are open', note=EXPL),
dict(id='C16', title='Closing a stream ends that stream, flushed, and nothing else',
 statement='Closing a stream from either or both sides, any number of times, ends it at both sides: what the closing side had written arrives before the end, blocked and later operations on it fail instead of hanging, and it disappears from the list of streams with one closed notification. Other streams of the connection, and the connection itself, go on undisturbed.',
 over=['histories','schedules'], space='mixed traffic on up to 5 streams, closes from both sides at any moments incl. simultaneous and repeated, opening of others meanwhile',
 why='No test closes a stream while others carry traffic.',
 files=['application/stream.go','application/end.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go'],
 mech=[('dismiss handshake','multiplexer/dialogue.go'),('stream finish','application/stream.go')], observe=['Stream.Close, reads and operations after it, ListStreams, closed-stream callback'],
 technique=STATEFUL+'oracle: delivery ledgers, flush-before-close, stream-list model', note=EXPL),
dict(id='C17', title='Closing an end ends everything on both sides, flushed, without hanging',
 statement='Closing one or both ends, any number of times and at any moment, returns within bounded time and makes every blocked or later operation on every stream at both sides fail, including opening and accepting of streams. What had been handed over before an orderly close by one side arrives at the other, no stream stays listed, and the network connection is closed at both sides.',
 over=['histories','schedules'], space='mixed traffic, closes at any moments from both sides, simultaneous and repeated, streams being opened and closed meanwhile',
 why='The tests close ends only when all traffic is over, and do not look at the other side.',
 files=['application/end.go','multiplexer/dialogue_mgr.go','conn/conn_client.go','conn/conn_server.go','conn/conn_base.go'],
 mech=[('close handshake','conn/'),('finishing of streams','application/, multiplexer/')], observe=['End.Close, all operations after it, net.Conn closed'],
 technique=STATEFUL+'oracle: everything blocked ends in bounded virtual time; flush-before-close', note=EXPL),
dict(id='C18', title='A broken connection ends everything promptly and crashes nothing',
 statement='When the network connection breaks, after any byte in either direction and in any phase including the handshake, every blocked and later operation on both sides ends with an error within bounded time, ends and streams become closed, and neither side crashes or hangs. An end that did not come up is reported as an error.',
 over=['crash_points','schedules','histories'], space='every byte position of the handshake and sampled positions of mixed traffic, cuts by time, half-written packets',
 why='No test breaks a connection.',
 files=['conn/conn_base.go','conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue_mgr.go','application/stream.go','application/end.go'],
 mech=[('error propagation through the layers','conn/, multiplexer/, application/')], observe=['all blocked operations, process survival'],
 technique=STATEFUL+'fault injection at byte positions; oracle: all ends in bounded virtual time, nothing crashes', note=EXPL),
dict(id='C19', title='Online and offline notifications are paired and exact',
 statement='The delegate of the server is told online once and offline once, later, for every connection whose handshake succeeded, and never for others; that of a client is told offline once when its connection is gone. Every stream accepted is told online once and offline once at the accepting side and every stream opened is told offline once at the opening side, whatever ended it, and also when only the connection broke.',
 over=['histories','fault_sequences','schedules'], space='opening and closing of streams and ends, simultaneous closes, cuts at any moment',
 why='No test looks at notifications.',
 files=['conn/conn_server.go','conn/conn_client.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','delegate/delegate.go'],
 mech=[('notifications at the end of handshakes and in the finish paths','conn/, multiplexer/')], observe=['delegate callbacks'],
 technique=STATEFUL+'oracle: pairing model over the recorded notifications', note=EXPL),
dict(id='C20', title='A retrying end comes back by itself, whole',
 statement='When the connection of a retrying end ends, for whatever reason, the end dials again by itself until a dial leads to a connection that the server accepts, one dial at a time, each at least a second after the last, having closed the connection that ended. It then has the same methods and hijack (with its pattern) registered at the new connection as the user last registered, tells its delegate EndReOnline once for that connection, is the end of that connection in all it tells (client ID, stream ID, side, meta, addresses, listed streams) and in the deadlines set on it, and goes on with receiving, accepting, calling and publishing, so that no operation reports success that no server saw or fails while a restored connection lives, and one that finds the connection gone waits for the next and goes on over it. If the first dial or handshake fails, the constructor fails and leaves nothing. After Close it dials no more, everything blocked at it returns, its connection is closed and nothing is left.',
 over=['histories','fault_sequences','timings'], space='sequences of up to 6 dials that succeed, fail, are refused, stay mute or break in the handshake, connections ended at any moment by a cut, by the server end or its net.Conn, operations at any time, slow delegates, with and without timer, delegate, methods, hijack',
 why='No test uses a retrying end with a connection that breaks.',
 files=['client/end_retry.go','client/client.go','client/end.go','application/end.go'],
 mech=[('reconnecting','client/end_retry.go'),('restoring of methods and hijack','client/end_retry.go')], observe=['dialer calls, net.Conn closed, calls by the server, results of operations, EndReOnline'],
 technique=STATEFUL+'oracle: model of the sequence of connections, methods and deliveries', note=EXPL),
dict(id='C21', title='A listener serves every client that comes up, whatever the others do',
 statement='Over real TCP and unix sockets: every client whose handshake succeeded and that stays is accepted once by AcceptEnd or Accept within bounded time, and its calls are answered, no matter how many other clients (fewer than 32 at a time) stay mute, stop in the middle of the handshake, send junk, are refused or leave; none of those is ever accepted or stops the listener. Closing the listener ends every blocked and later AcceptEnd and Accept with an error, leaves the ends accepted before working, and closes the connections of clients that were not accepted; closing it twice is harmless. Once everything is closed nothing is left.',
 over=['schedules','fault_sequences','histories'], space='up to 60 clients of 6 kinds arriving within 40 ms, 1 to 3 accepting goroutines that start late or are slow, closing of the listener at any time',
 why='The tests use a listener with one well-behaved client.',
 files=['server/server.go','server/end.go','conn/conn_server.go'],
 mech=[('accept loop and handshakes','server/server.go'),('finish of failed ends','server/end.go')], observe=['AcceptEnd, Accept, clients\' constructors, calls and Receive, goroutines of the library'],
 technique=STATEFUL+'real sockets and time; oracle: model of who must be, may be and must not be accepted, and of what a close does', note=EXPL),
dict(id='C22', title='Closed ends leave nothing behind',
 statement='Once both ends of a connection are closed or failed to come up, whatever happened before, no goroutine of the library is left and both network connections are closed. Where the connection broke and the user closed nothing yet, both network connections are closed too and no goroutine but those of the ends\' timers is left.',
 over=['histories','fault_sequences','schedules'], space='mixed traffic, unanswered messages, closes of streams and ends, cuts at any byte incl. the handshake',
 why='No test looks at goroutines.',
 files=['conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','application/end.go','application/stream.go','client/client.go','server/server.go'],
 mech=[('finish paths of all layers','conn/, multiplexer/, application/')], observe=['goroutines running library code, net.Conn.Close'],
 technique=STATEFUL+'oracle: goroutine inventory of the test bubble', note=EXPL),
dict(id='C23', title='A peer that breaks the rules harms only its own connection',
 statement='Whatever a peer sends or leaves out, in the handshake or later, be it packets dropped, repeated, reordered, made up, of another kind, ID or stream, cut short, with wrong lengths or other content, or silence: the process does not crash, operations with a limit end within it, an end that does not come up closes its network connection, opening a stream and closing return within half a minute, after the close everything blocked at the end returns, nothing of it stays behind, and other connections of the process, timer shared or not, go on being served.',
 over=['inputs','fault_sequences','histories'], space='up to 12 tamperings of 16 kinds at generated packets of both directions of a connection with mixed traffic, all packet kinds made up, four ways to end it',
 why='The tests only ever speak to a well-behaved peer.',
 files=['conn/conn_base.go','conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue_mgr.go','multiplexer/dialogue.go','application/stream.go','application/rpc.go','packet/'],
 mech=[('handling of packets that do not fit the state','conn/, multiplexer/, application/'),('close timeout','multiplexer/dialogue.go, conn/')], observe=['process survival, limits of operations, Close, calls over another connection, goroutines of the library'],
 technique=STATEFUL+'packet-level tampering between two ends; oracle: bounds in virtual time, bystander, goroutine inventory', note=EXPL),
dict(id='C24', title='Options take effect, however they are given',
 statement='What an end, a stream, a hijack, a message, a request, a publish or a call is given by options takes effect, split over however many option values: of each option the last value that is set counts, a nil value and an option left unset change nothing. The values are not changed, and serve for any number of ends at once or one after another, retrying clients included: each client comes with the ID and metadata asked for, each end has the delegate, remote method check, local methods and stream functions given. A timer that was given remains the user\'s, and works on after the ends using it are gone, while nothing of an end remains.',
 over=['inputs','histories'], space='up to 4 values, partly nil or empty, for each side of up to 6 connections, and for each of up to 8 operations of 6 kinds at both sides',
 why='The tests give each constructor at most one value and never look at most of the options.',
 files=['client/end_options.go','server/end_options.go','options/','client/end.go','client/end_retry.go','server/end.go','application/rpc.go','application/message.go'],
 mech=[('merging of options','client/end_options.go, server/end_options.go, options/'),('ownership of timers','client/end.go, client/end_retry.go, server/end.go')], observe=['delegate calls, Meta, ClientID, streams, received messages, answers, time limits, the option values afterwards, the timers afterwards, goroutines of the library'],
 technique=STATEFUL+'oracle: the last set value per option', note=EXPL),
dict(id='C25', title='Messages, requests and responses go by the stream they name',
 statement='A message or request names the client and stream it was made at, and is sent by exactly that: given to a stream of another client or number, the operation fails at once with the mismatch and nothing is sent, while its own stream still sends it. Whoever sets its IDs to those of another stream can send it there, one that was received included, with topic, custom data and time limit as they were or as changed meanwhile. Wherever it arrives it has its ID, content and attributes and names the client and stream it came by; so does the response, whatever the handler sets, with the method and ID of its request. Of several answers to a message the first counts.',
 over=['inputs','histories'], space='messages and requests of all kinds on up to 3 connections of up to 4 streams, made at any side of any stream, given to any other, passed on by those who receive them to any other',
 why='The tests use messages and requests only where they were made.',
 files=['application/types.go','application/message.go','application/rpc.go','application/stream.go','packet/factory.go'],
 mech=[('checks of client and stream','application/message.go, application/rpc.go'),('acknowledgement by the stream it came by','application/types.go, application/stream.go')], observe=['errors of Publish, PublishAsync, Call, CallAsync; what arrives where; ID, ClientID, StreamID, Method, Topic, Custom, Timeout on both sides'],
 technique=STATEFUL+'oracle: where it may be sent and what arrives there', note=EXPL),
dict(id='C26', title='Connections and dialogues carry packets by themselves',
 statement='The lower layers hold without the ends above them: the two connections of a link come up with the client ID and metadata of the handshake on both sides, and dialogues opened over them from either side, at the same time too, get different IDs, come with their metadata and peer at the other side exactly once, and are listed and found by their ID until they close. Packets of every kind written to a connection or dialogue arrive once, unchanged, in the order of their writer, at the other side of just that dialogue, be it read by Read or from the channel, under timers and packet factories given or not and any buffer sizes; those written before one side closes the dialogue or connection arrive still. Closing twice is harmless. A closed dialogue is told once to whoever accepts closed ones, gone from the list and refuses writes; once the connection ends, by a close or a break, everything blocked returns, writes and openings are refused, both network connections are closed and no goroutine is left.',
 over=['inputs','histories','fault_sequences','schedules'], space='bare connections, or up to 10 dialogues of both sides over them, with writers of 3 packet kinds at either side of any, closed one by one during traffic or after it, 5 ways to end it at any time',
 why='The tests of these layers send one kind of packet one way over one dialogue.',
 files=['conn/conn_client.go','conn/conn_server.go','conn/conn_base.go','multiplexer/dialogue_mgr.go','multiplexer/dialogue.go'],
 mech=[('reading, writing and closing of connections','conn/'),('opening, keeping and closing of dialogues','multiplexer/dialogue_mgr.go, multiplexer/dialogue.go')], observe=['Read, ReadC, ChannelRead, Write, WriteWait, OpenDialogue, AcceptDialogue, ClosedDialogue, ListDialogues, GetDialogue, IDs, Meta, goroutines of the library'],
 technique=STATEFUL+'oracle: model of the dialogues and of what was written to each', note=EXPL),
]
