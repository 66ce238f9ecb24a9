#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with the claims by hand)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Messages cross a connection whole, unmodified and in order",
  "Every message of one or more frames (each frame 0 bytes to megabytes, arbitrary content) that a socket sends successfully over tcp, ipc or inproc arrives at its connected compatible peer with exactly the same sequence of frames, whether it was sent as a plain or as a multipart message, whether the sender dialed or listened, and whatever the application does with its buffers once Send has returned without error. Messages sent one after the other on one connection arrive in sending order, none lost and none duplicated.",
  ["inputs", "configurations"], "all message sequences x frame counts and sizes (around 0, 255/256, 64 KiB, MBs) x {tcp, ipc, inproc} x {Send, SendMulti} x {who binds} x socket pairs",
  "Existing tests send a handful of short fixed strings; frame sizes at the encoding boundaries, empty frames and inproc with frames longer than 255 bytes are never tried.",
  ["conn.go", "msgio.go", "socket.go", "internal/inproc/conn.go"],
  [("frame writer (plain and gathered)", "conn.go Conn.send, Conn.sendMulti"), ("frame reader", "conn.go Conn.read"), ("reader queue", "msgio.go qreader")],
  ["Socket.Send / SendMulti / Recv"])

p("C02", "The byte stream conforms to ZMTP 3.0 in both directions",
  "What a socket writes to its transport is exactly the ZMTP 3.0 encoding of the greeting, the handshake commands and the messages it was given (short frames for bodies up to 255 bytes, 64-bit big-endian length above, MORE on all but the last frame, COMMAND on commands), and plain and multipart sends produce the same bytes. Any well-formed ZMTP stream, however the transport cuts it into reads, is decoded to exactly the frames it encodes, also where heartbeats lie between the frames of a message.",
  ["inputs"], "all messages, commands and metadata; all segmentations of the peer's byte stream",
  "Tests always run this implementation against itself, so an encoder and decoder wrong in the same way agree; segmentation is whatever loopback produced.",
  ["conn.go", "protocol.go", "msg.go"],
  [("greeting codec", "protocol.go greeting"), ("frame codec", "conn.go send/sendMulti/read"), ("command codec", "msg.go Cmd")],
  ["bytes written to the net.Conn handed to Open", "SendMsg, SendCmd, RecvMsg, RecvCmd"])

p("C03", "No peer byte stream can crash, bloat or confuse a socket",
  "Whatever bytes a peer sends, in the greeting, during the handshake or afterwards, the process does not panic, memory use stays in proportion to the bytes actually received, and no message is delivered that is not a complete well-formed message of that stream. The receiving socket stays usable and goes on serving its other peers.",
  ["inputs", "fault_sequences"], "all byte strings (mutated and truncated valid streams, random bytes, hostile lengths) x every socket type x the point where the stream ends",
  "Tests contain a few fixed malformed greetings; a panic happens only for particular truncated or oversized fields in handshake metadata and frame lengths.",
  ["conn.go", "protocol.go", "socket.go", "security.go", "security/plain/plain.go", "socket_types.go", "msgio.go", "rep.go", "router.go", "pub.go"],
  [("metadata decoding bounds", "protocol.go Property.Write, Metadata.UnmarshalZMTP"), ("frame length handling", "conn.go Conn.read"), ("peer type validation", "conn.go Conn.init, socket_types.go IsCompatible")],
  ["process survival", "Socket.Recv results", "a second, healthy peer of the same socket"])

p("C04", "A handshake succeeds exactly for compatible peers and exchanges identities",
  "A connection is established if and only if both sides use the same security mechanism, the peer's protocol version is at least 3.0, and the two socket types form one of the pairs ZMTP allows; otherwise both sides report an error and no message crosses. An established connection shows each side the other's socket type, the other's identity (up to 255 bytes of any content) and its server flag exactly as the other side sent them.",
  ["inputs", "configurations"], "all pairs of the 11 ZMTP socket types, both mechanisms on both sides, generated identities, versions and server flags",
  "Tests check a few pairs; the full matrix with identities of arbitrary bytes, version numbers and mechanism mismatches is not explored.",
  ["conn.go", "protocol.go", "socket_types.go", "security.go", "security/plain/plain.go"],
  [("compatibility matrix", "socket_types.go SocketType.IsCompatible"), ("greeting validation", "protocol.go greeting.validate"), ("handshake", "conn.go Conn.init")],
  ["Open's result", "Conn.Peer", "Dial's result"])

p("C05", "Handshake metadata round-trips, and malformed metadata is rejected",
  "Every metadata set with non-empty names of at most 250 bytes (letters, digits and the punctuation ZMTP allows in names) that are distinct up to letter case, and values of any length and content, encodes to ZMTP property lists that decode to the same values, with application names prefixed as ZMTP requires. Empty, duplicate (ignoring case) or overlong names are refused on encoding, and on decoding every truncated or inconsistent property list is refused with an error, never a panic and never a partly invented value.",
  ["inputs"], "all metadata maps and all byte strings offered to the decoder, including every truncation of valid encodings",
  "Tests use two or three short properties; long values and truncation points inside a property are never generated.",
  ["protocol.go"],
  [("metadata codec", "protocol.go Metadata.MarshalZMTP, UnmarshalZMTP, Property.Read, Property.Write")],
  ["Metadata.MarshalZMTP", "Metadata.UnmarshalZMTP"])

p("C06", "A subscriber receives exactly the published messages matching its subscriptions",
  "For every history of subscribe, unsubscribe and publish operations on any number of publishers and subscribers (PUB or XPUB with SUB or XSUB), a subscriber receives precisely those messages whose first frame starts with one of its current subscriptions, each once and in publishing order, with all frames intact. This also holds for SUB sockets whose subscriptions were made before connecting and for topics that are empty, binary or prefixes of one another; the topics a socket reports are exactly the current subscriptions.",
  ["histories", "inputs", "configurations"], "operation histories over subscribe/unsubscribe/publish/connect with generated prefix-related topics, several publishers and subscribers, tcp/ipc/inproc",
  "Tests subscribe once to one literal topic; overlapping prefixes, unsubscription, late joiners and several publishers interact only in longer histories.",
  ["pub.go", "sub.go", "xpub.go", "xsub.go", "conn.go", "socket.go"],
  [("subscription table per connection", "conn.go Conn.subscribe, Conn.subscribed"), ("per-subscriber queue", "pub.go pubMWriter"), ("subscription replay to new connections", "socket.go addConn, sub.go SetOption")],
  ["Recv of each subscriber", "Topics() of publisher and subscriber"])

p("C07", "Publishing never blocks and overload loses messages only for the slow peer",
  "Send on a publisher returns promptly however many subscribers have stopped reading. A subscriber that stopped reading loses only messages beyond the send high-water mark: what it receives later is an in-order selection without duplicates of what was published, starting with at least the first high-water-mark messages, while every subscriber that keeps up receives everything.",
  ["schedules", "histories", "configurations"], "stall/resume schedules of subscribers, message sizes, high-water marks 1..N, numbers of healthy and stalled subscribers",
  "Needs a subscriber that stops reading while kernel buffers and the queue fill up, then resumes; no test resumes a stalled subscriber and compares what it got.",
  ["pub.go", "xpub.go"],
  [("bounded queue per subscriber with drop", "pub.go pubMWriter.write"), ("writer goroutine per subscriber", "pub.go pubMWriter.addConn")],
  ["duration of Send", "messages read by raw stalled subscribers and by healthy subscribers"])

p("C08", "Each reply reaches the requester that asked, with both bodies intact",
  "In every interleaving of requesters served by one replier, each request body (any frames, including empty ones) is received by the replier exactly as sent, and the reply sent after receiving a request reaches exactly the requester that sent it, exactly as sent. Routing envelopes added by intermediate routers are returned unchanged and are never visible in the bodies.",
  ["inputs", "schedules", "histories"], "several concurrent requesters (real and raw peers with 0..3 routing frames), generated bodies with empty frames, REQ-REP, REQ-ROUTER, DEALER-REP",
  "Tests use one requester with fixed non-empty strings; the envelope delimiter is an empty frame, so bodies with empty frames or nested envelopes are exactly what is not covered.",
  ["req.go", "rep.go", "router.go", "dealer.go"],
  [("envelope split", "rep.go splitReq"), ("reply routing state", "rep.go repState"), ("delimiter handling", "req.go reqWriter.write, reqReader.read")],
  ["Recv of REP and of each REQ", "bytes seen by raw peers"])

p("C09", "A requester rotates over its live repliers and fails over",
  "A requester connected to several repliers sends successive requests to them in turn, every live replier being used equally. When some of them die it never panics, and its requests go on succeeding via the remaining ones as long as at least one is alive; only with none left does Send report an error.",
  ["fault_sequences", "histories", "configurations"], "1..5 repliers, generated sequences of request/kill steps in any order",
  "The existing failover test kills one of a fixed pair; index arithmetic goes wrong only for particular positions of the dead connections.",
  ["req.go", "socket.go"],
  [("round-robin over connections", "req.go reqWriter.write"), ("connection removal", "req.go reqWriter.rmConn, socket.go connReaper")],
  ["which replier receives each request", "Send/Recv results"])

p("C10", "ROUTER delivers to exactly the addressed peer and labels senders truthfully",
  "A router's received message is the sender's identity followed by exactly the frames that sender sent, in per-sender order, whatever the application does with messages it received before, and a message it sends is delivered, without the address frame, to exactly the connected peer with that identity and to nobody else; a message for an unknown identity is dropped without affecting others. Peers without an identity of their own get distinct non-empty ones that work for replies.",
  ["inputs", "histories", "configurations"], "several dealers with generated identities (including prefixes of each other, long and binary), generated interleavings of sends in both directions, tcp/ipc/inproc",
  "Tests use a few short ASCII identities and symmetric traffic; similar or missing identities and unknown addresses are not tried.",
  ["router.go", "dealer.go", "socket.go"],
  [("identity prefixing", "router.go routerQReader.listen"), ("addressed write", "router.go routerMWriter.write"), ("identity assignment", "socket.go addConn")],
  ["Recv on router, Recv on each dealer"])

p("C11", "Each pushed message is consumed exactly once and load is shared",
  "Every message sent through a PUSH or DEALER socket with several connected peers is delivered to exactly one of them, whole and unmodified; peers that are all ready share the messages evenly, and from one sender each peer sees its share in sending order. A PULL (or DEALER, ROUTER, PAIR) socket with several senders delivers every sender's messages exactly once, per-sender order preserved.",
  ["histories", "configurations", "schedules"], "1..5 consumers, 1..5 producers, generated message batches, tcp/ipc/inproc",
  "All existing push/pull tests use one producer and one consumer or only count a total.",
  ["push.go", "pull.go", "dealer.go", "msgio.go"],
  [("outbound distribution", "msgio.go writer pool"), ("fair-queued inbound", "msgio.go qreader")],
  ["Recv on every consumer"])

p("C12", "Send honours its deadline and a timed-out send never corrupts the stream",
  "For every socket that can block in Send (PUSH, PAIR, DEALER, REQ, ROUTER, REP), a Send that cannot complete because no peer is connected or the peer has stopped reading returns an error within the configured timeout plus a small margin, never success for a message that went nowhere and never hanging. If the stalled peer resumes, the byte stream it reads is still a well-formed sequence of whole messages, in order and without duplicates, containing every message whose Send succeeded.",
  ["schedules", "fault_sequences", "configurations"], "stall points, message sizes relative to kernel buffers, numbers of sends during the stall, timeouts, socket types, resume or not",
  "One existing test checks a single timeout on one socket type and never reads the stream afterwards.",
  ["socket.go", "msgio.go", "router.go", "req.go", "rep.go", "conn.go", "internal/errgroup/errgroup.go"],
  [("context-bounded write", "msgio.go mwriter.write, router.go routerMWriter.write, req.go reqWriter.write"), ("one writer at a time per connection", "conn.go")],
  ["duration and result of Send", "bytes read by a raw peer after the stall"])

p("C13", "Close ends every blocked call and releases everything the socket held",
  "Closing a socket, in whatever state and with whatever operations in flight, makes blocked Recv and Send calls on it return with an error, later Send, Recv, Listen and Dial calls fail, a second Close fail harmlessly, and every peer see the connection end. Shortly afterwards all its goroutines, connections and listening endpoints are gone, so the same endpoint can be bound again, and endpoints or socket files belonging to other sockets are untouched; cancelling the context the socket was created with unblocks blocked calls likewise.",
  ["histories", "schedules", "configurations"], "generated life cycles (listen/dial/send/recv/close in generated order, undrained queues, mid-traffic) for every socket type and transport",
  "Tests close sockets at the end and do not look at what remains; the leaks appear only when queues are full or subscribers were connected.",
  ["socket.go", "msgio.go", "pub.go", "rep.go", "router.go", "internal/inproc/inproc.go", "internal/inproc/conn.go"],
  [("life-line context", "socket.go Close"), ("listener goroutines", "msgio.go qreader.listen, router.go, rep.go, pub.go"), ("ipc file clean-up", "socket.go Close")],
  ["results of blocked and later calls", "goroutine dump filtered on this module", "re-Listen on the endpoint", "EOF at a raw peer"])

p("C14", "Dialing retries, and lost connections are re-established automatically",
  "Dial keeps retrying, at the configured interval and number of times, while the endpoint is not yet listening, succeeds once it is, and otherwise fails after exactly that many retries or promptly when the socket's context ends. With automatic reconnection on, a dialed peer that went away and came back on the same endpoint is talked to again without help (subscriptions included) exactly once per dialed endpoint, other endpoints unaffected; with it off, no attempt is made.",
  ["fault_sequences", "configurations", "histories"], "generated sequences of server start/stop, several endpoints, retry settings, socket types, auto-reconnect on and off",
  "Tests cover one reconnect of one socket; several endpoints and repeated restarts are never combined, and the reconnect path can deadlock depending on who notices the loss.",
  ["socket.go", "conn.go", "sub.go"],
  [("dial retry loop", "socket.go Dial"), ("close callback and reconnect", "socket.go scheduleRmConn, conn.go checkIO"), ("reaper", "socket.go connReaper")],
  ["connection attempts counted at a raw listener", "messages after restart", "Dial's result and duration"])

p("C15", "Concurrent senders never interleave or lose messages",
  "When several goroutines send on the same socket at the same time, every peer receives each message whole, with its frames contiguous, exactly as often as that socket type delivers it, and the messages of each goroutine in its own sending order.",
  ["schedules", "inputs"], "2..8 goroutines x generated multi-frame messages x Send/SendMulti mixes x every sending socket type, with and without a timed-out or answering (ping) writer in between",
  "Existing tests send from one goroutine; interleaving of header and body writes requires concurrency on one connection.",
  ["conn.go", "msgio.go", "pub.go", "router.go", "socket.go"],
  [("write serialisation", "msgio.go mwriter.write; conn.go Conn.SendMsg, SendCmd")],
  ["byte stream at a raw peer", "Recv at real peers"])

p("C16", "An in-process connection is a faithful full-duplex byte stream",
  "For every sequence of writes, reads with buffers of any size, deadline changes and closes on the two ends of an in-process connection, the bytes read at one end are exactly the bytes written at the other, in order, with the written buffers free for reuse once the write returns; after one end closes, the other reads what was already written and then end-of-file. Blocked reads and writes return when a deadline passes (with a timeout error, the connection staying usable) or when either end closes.",
  ["histories", "inputs", "schedules"], "generated operation sequences on both ends with write sizes 0..64 KiB, read sizes 1..64 KiB, deadlines in the past/future/none, closes at any point",
  "Existing tests exchange one short message per direction with equally sized buffers.",
  ["internal/inproc/conn.go", "internal/inproc/inproc.go"],
  [("pipe read/write", "internal/inproc/conn.go read, write"), ("deadlines", "internal/inproc/conn.go pipeDeadline")],
  ["net.Conn methods of both ends"])

p("C17", "In-process endpoints behave like a network namespace",
  "For every sequence of listen, dial, accept and close operations over in-process addresses, an address has at most one listener at a time, a dial succeeds only while the address is bound and yields a connection joined to exactly one accepted connection of that listener, dialing an unbound address is refused, and closing a listener unblocks its pending calls and frees the address for reuse.",
  ["histories", "schedules"], "generated operation histories over a few addresses, concurrent dialers and acceptors",
  "Existing tests bind one address once.",
  ["internal/inproc/inproc.go", "internal/inproc/transport.go"],
  [("address registry", "internal/inproc/inproc.go Listen, Dial, Accept, Close")],
  ["inproc.Listen, Dial, Listener.Accept, Close"])

p("C18", "A proxy forwards every message both ways, unchanged and in order",
  "While a proxy runs between two sockets, every message received on one side is sent on the other exactly once with the same frames in the same order, in both directions independently, so that request-reply through ROUTER/DEALER with several clients and workers, PULL/PUSH pipelines, PAIR links and SUB/PUB or XSUB/XPUB forwarders (whose upstream side the application subscribes) behave as without the proxy apart from latency. It returns an error when one of its sockets is closed (at the latest with the next message it has to forward), and refuses at once missing sockets and sockets between which nothing can be forwarded.",
  ["histories", "schedules", "configurations"], "generated client/worker numbers, messages (including empty frames) and interleavings over ROUTER/DEALER, PULL/PUSH, PAIR/PAIR, SUB/PUB, XSUB/XPUB and mixtures",
  "The proxy tests of the repository are skipped; nothing runs it.",
  ["proxy.go", "router.go", "dealer.go"],
  [("forwarding loops", "proxy.go Proxy")],
  ["messages at clients and workers", "Proxy's return"])

p("C19", "Networking nodes deliver broadcasts and direct messages exactly once",
  "Between connected nodes, a broadcast reaches every node that connected to the sender exactly once, and a direct message reaches exactly its addressee exactly once; the handler registered for the message type at that time gets type, sender, session, height, round and payload unchanged, messages of unregistered types reach no handler, and a node never handles its own broadcast. The sent, received and dropped counters count exactly these events.",
  ["histories", "inputs", "configurations"], "2..4 nodes, generated connection graphs, handler registrations and message histories with generated fields",
  "There are no tests of the networking package.",
  ["networking/transport.go"],
  [("broadcast/direct send", "networking/transport.go Broadcast, Send"), ("dispatch", "networking/transport.go processMessage")],
  ["handler invocations", "GetMetrics"])

p("C20", "Networking peer management is consistent and robust",
  "After every sequence of connect and disconnect calls (repeated, for unknown peers, for unreachable peers), a node lists exactly the connected peers in order of connection, connecting again is a no-op, a failed connect and a disconnected peer leave no trace, sending to an unlisted peer fails, and after disconnect and reconnect each broadcast still arrives once. Starting a node again, after stopping it or on ports in use fails and leaves nothing behind. Stopping a node, even twice or without starting, never panics, ends all its goroutines and frees its ports; malformed input on its ports is counted as dropped and otherwise ignored.",
  ["histories", "fault_sequences"], "generated sequences of connect/disconnect/send/stop with valid, duplicate, unknown and unreachable peers; junk bytes as messages",
  "There are no tests of the networking package.",
  ["networking/transport.go"],
  [("peer table", "networking/transport.go ConnectPeerWithAddress, DisconnectPeer, GetPeers"), ("shutdown", "networking/transport.go Stop")],
  ["GetPeers", "Send results", "goroutines and ports after Stop"])

p("C21", "The message queue is a FIFO of unbounded size",
  "For every sequence of push, peek, pop, length and reset operations, the queue behaves exactly like an ideal first-in first-out queue: peek returns the oldest message without removing it (and reports emptiness), pop removes exactly it, length counts the rest, reset empties it. Messages are never altered, and popping an empty queue panics without damaging it.",
  ["histories"], "generated operation sequences long enough to cross the internal block size several times",
  "The test covers fixed sequences around one block boundary.",
  ["queue.go"], [("block list", "queue.go Push, Pop, front")], ["Queue methods"])

p("C22", "Message values construct, concatenate, print and copy faithfully",
  "For all frame contents, the constructors build a message with exactly the given frames, the byte view is the concatenation of the frames in order, the printed form shows every frame unambiguously quoted, and a clone has equal frames and equal type but shares no memory with the original, so changing either never affects the other. Constructing from strings is independent of the caller's slice.",
  ["inputs"], "all frame lists (none, empty, nil, long, binary) and mutations of original or clone",
  "Tests use two or three literal messages.",
  ["msg.go"], [("constructors and Clone", "msg.go")], ["Msg methods"])

p("C23", "Interoperates with libzmq in every pattern, both ways",
  "Replacing either end of a PUSH-PULL, REQ-REP, PUB-SUB, XPUB-XSUB, DEALER-ROUTER or PAIR connection over tcp or ipc by the C library's socket changes nothing observable: the same messages with the same frames arrive, in the same order, with the same identities and the same subscription filtering, whichever end binds. Heartbeat commands from the C library, which it sends also between the frames of a message, never surface as messages, are answered, and disturb no message.",
  ["inputs", "configurations"], "pattern x direction x who binds x transport x generated messages",
  "The interoperability tests send a few fixed strings in one configuration each.",
  ["conn.go", "cxx_zmq4_compat.go", "protocol.go", "req.go", "rep.go", "router.go", "pub.go", "sub.go"],
  [("ZMTP implementation", "conn.go, protocol.go"), ("C socket wrapper", "cxx_zmq4_compat.go")],
  ["Recv on either side"])

p("C24", "The PLAIN handshake follows its protocol and is repeatable",
  "With PLAIN on both sides every connection attempt, including later and repeated ones of the same socket, sends a HELLO with exactly the configured user and password and completes HELLO, WELCOME, INITIATE, READY in that order, after which messages flow as without security. Any command out of that order, wrongly named or truncated makes the handshake fail on the side that sees it, and credentials that do not fit the protocol are refused rather than sent altered.",
  ["inputs", "histories", "fault_sequences"], "generated credentials (0..300 bytes, binary), generated command scripts played by a raw peer on either side, several connections per socket",
  "Tests perform one handshake with one pair of credentials.",
  ["security/plain/plain.go", "conn.go"],
  [("handshake state machine", "security/plain/plain.go Handshake")],
  ["bytes at a raw peer", "Open's result"])

p("C25", "Pluggable security mechanisms transform traffic transparently",
  "For every security mechanism supplied by the application whose decryption inverts its encryption (also when the encrypted form is longer or shorter), all messages and commands sent over a connection arrive exactly as sent, only the encrypted form appears on the wire in correctly delimited frames, and each frame is passed through the mechanism exactly once and in order. An error from the mechanism makes the operation fail instead of delivering or sending anything else.",
  ["inputs", "configurations", "fault_sequences"], "generated invertible transforms (identity, xor, padding, compression-like), generated messages via plain and multipart sends, injected mechanism errors",
  "Only identity-like mechanisms exist in the tree, so the transforming path is never exercised.",
  ["conn.go", "security.go"],
  [("encrypt before framing", "conn.go send, sendMulti"), ("decrypt after framing", "conn.go read")],
  ["wire bytes", "SendMsg/RecvMsg results"])

p("C26", "Endpoint strings are interpreted uniformly or refused",
  "An endpoint is accepted exactly if it has the form transport://address with a registered transport and an address that transport accepts; wildcard or empty tcp hosts mean all interfaces and wildcard, empty or zero ports mean a free port, which the bound address then reports concretely so that it can be dialed. Everything else is refused with an error by both Listen and Dial, without panicking, binding anything or making the socket unusable for a later correct call; transports can be registered once per name and are listed sorted.",
  ["inputs", "histories"], "generated endpoint strings from a grammar with mutations, generated transport registrations",
  "Tests use a dozen fixed strings.",
  ["utils.go", "transport.go", "transport/transport.go", "socket.go"],
  [("endpoint parsing", "utils.go splitAddr, transport/transport.go Addr"), ("registry", "transport.go transports")],
  ["Listen/Dial results", "Addr()", "Transports()", "transport.Addr"])

p("C27", "Options and role restrictions behave as documented for every socket type",
  "For every socket type and every sequence of option calls, reading an option yields the value last accepted and an error if there was none, invalid publisher and subscriber options are refused with the documented error without panicking or taking effect, and operations a socket type does not support (receiving on PUB and PUSH, sending on PULL) always fail and never block. The reported type, the absence of a bound address before listening and its presence afterwards, and the refusal of a second Listen hold for all types.",
  ["histories", "inputs", "configurations"], "all socket types x generated option names and values x generated call sequences",
  "Tests set a few options once.",
  ["socket.go", "pub.go", "sub.go", "push.go", "pull.go", "options.go"],
  [("option store", "socket.go SetOption, GetOption; pub.go, sub.go SetOption"), ("role stubs", "push.go, pull.go, pub.go")],
  ["SetOption/GetOption/Type/Addr/Send/Recv results"])

p("C28", "The context-aware task group reports the first failure and honours cancellation",
  "For every set of tasks and every limit, waiting on a group returns only after all tasks ended or the parent context was cancelled, reports the error of the first task to fail or the context's error, cancels the derived context upon the first failure, starts no task function after cancellation, and never runs more tasks at once than its limit while reporting truthfully whether a task was started.",
  ["schedules", "histories"], "generated task sets with generated completion orders, errors, limits and cancellation points",
  "Tests check single scenarios with fixed sleeps.",
  ["internal/errgroup/errgroup.go"],
  [("wrapper around the standard group", "internal/errgroup/errgroup.go wrap")],
  ["Group.Go, TryGo, Wait results"])

p("C29", "A stalled or failing peer does not keep others from being served",
  "While any number of peers have connected but not finished their handshake, stopped reading, or disconnected abruptly, a listening socket of any type goes on accepting new peers and exchanging messages with all healthy ones within its usual time. A peer that vanished is forgotten, so that nothing is delivered to it and the socket's resources do not grow with the number of past peers.",
  ["fault_sequences", "schedules", "configurations"], "generated sets of stalled (at every handshake byte), half-closed, reset and healthy peers on every listening socket type",
  "Tests only connect well-behaved peers.",
  ["socket.go", "msgio.go", "pub.go", "router.go", "rep.go"],
  [("accept loop", "socket.go accept"), ("connection reaper", "socket.go connReaper, rmConn")],
  ["service of a healthy peer", "goroutine and descriptor counts after churn"])

p("C30", "Authentication helpers generate, derive and encode keys consistently",
  "Generated key pairs are fresh every time, the secret is not its own public key, and deriving the public key from the generated secret always gives the generated public key. Encoding any bytes to text and decoding gives the same bytes, and any text that is not such an encoding is refused with an error; starting authentication twice fails until it is stopped.",
  ["inputs", "histories"], "all byte strings and texts; generated start/stop histories; many generated key pairs",
  "Tests check the length of one key pair and one round trip.",
  ["auth.go"], [("key helpers", "auth.go")], ["NewCurveKeypair, AuthCurvePublic, Z85encode, Z85decode, AuthStart, AuthStop"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
