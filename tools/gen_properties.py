#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

p("C01", "Polling payloads are decoded exactly, however they are sized or split",
  "When a client POSTs any well-formed payload (text payload with string and base64 packets, or binary XHR2 payload) to a polling session, the application receives exactly the messages of that payload, in order, with the same kind (text or binary) and byte-identical contents. This holds for every packet size, every number of packets and every way the request body is split into reads.",
  ["inputs"], "every sequence of packets over a boundary-size/kind alphabet, in both payload encodings, and every split of the body into reads",
  "The tests decode one hand-written payload from one contiguous reader with lengths that need no base64 padding; short reads, padding and multi-buffer bodies are never reached.",
  ["engine/payload.go", "engine/polling.go"],
  [("payload decoder", "engine/payload.go: Payload.ReadFrom and packet decoders"), ("POST handler", "engine/polling.go: pollingConn.ServeHTTP")],
  observe=["message event of the engine server after a POST", "HTTP status of the POST"])
p("C02", "Malformed polling payloads are refused whole and leave the session usable",
  "Any POST body that is not a complete well-formed payload (bad length digits, declared lengths that are missing, too small, negative, huge or larger than the body, bad base64, truncation at any byte, wrong content type) is answered with an error status, without a panic and without allocating memory beyond a small multiple of the body. No message of a refused body reaches the application, and the session keeps exchanging messages normally afterwards.",
  ["inputs"], "every byte string up to a length bound over the protocol's structural alphabet, every truncation and every single-byte corruption of representative payloads, in both encodings",
  "No test feeds a malformed payload.",
  ["engine/payload.go", "engine/polling.go"],
  [("payload decoder", "engine/payload.go: decodeHead/decode"), ("POST handler", "engine/polling.go: pollingConn.ServeHTTP")],
  observe=["HTTP status, recovered panics, message events, follow-up traffic on the same session"])
p("C03", "Polling responses carry exactly the emitted packet in the negotiated encoding",
  "Each answered poll of a session carries emitted packets encoded so that a conforming client decodes exactly what was emitted: binary XHR2 framing by default, text framing (base64 for binary data) when b64=1 is requested, and, when a JSONP index is requested, one valid JavaScript call of that callback index whose string argument is the text payload. The response declares the matching content type (application/octet-stream, text/plain, text/javascript).",
  ["inputs"], "every message kind x size/content alphabet x poll flavour, decoded by an independent reference decoder",
  "Tests compare a handful of encodings byte for byte; the HTTP response (headers, JSONP) is never looked at.",
  ["engine/payload.go", "engine/polling.go"],
  [("payload encoder", "engine/payload.go: WriteTo"), ("response writers", "engine/polling.go: writeJSONP/writeXHR/writeXHR2")],
  observe=["HTTP response status, headers as sent, body"])
p("C04", "WebSocket transport preserves every packet in both directions",
  "Over a WebSocket session every message, text or binary, of any length and however the peer fragments it or interleaves control frames, reaches the other side with the same kind, type and bytes, and every outgoing packet is exactly one WebSocket message in engine.io packet framing. Frames with an unknown packet type are ignored without ending the session.",
  ["inputs"], "message kind x frame-size boundary alphabet x fragmentation pattern x interleaved control frame x split of the byte stream into reads",
  "No test opens a websocket.",
  ["engine/websocket.go", "engine/server.go", "engine/client.go"],
  [("frame mapping", "engine/websocket.go: ReadPacket/WritePacket")],
  observe=["bytes on the underlying connection", "message events"])
p("C05", "Handshake and request routing admit exactly the valid requests",
  "A request opens a session only if it names protocol version 3, a supported transport, no session id and passes every origin checker; a request naming a session id is served only if that session is live. A new session's first packet is always OPEN carrying its own unique session id, the configured ping interval and timeout in milliseconds and the offered upgrades; every other request gets an HTTP error and creates, changes and consumes nothing.",
  ["inputs", "configurations"], "the full product of version, transport, method, session id state, origin-checker verdicts and ping configurations",
  "No test drives the HTTP handler of the server.",
  ["engine/server.go", "engine/transport.go", "engine/session.go"],
  [("request routing", "engine/server.go: Server.ServeHTTP"), ("acceptors", "engine/transport.go"), ("session table", "engine/session.go")],
  observe=["HTTP status, open callbacks, first packet of each session"])
p("C06", "Emitted messages arrive once and in order on an un-upgraded session",
  "For a session staying on one transport and a client that keeps reading, every message whose Emit succeeded arrives exactly once, for any number of concurrent emitters, any number of overlapping polls and any queue fill level. Messages emitted one after the other arrive in that order on WebSocket and for a client that polls with one request at a time.",
  ["schedules"], "all schedules of concurrent emitters, pollers and the session's own workers within a deviation bound",
  "No test runs more than one goroutine against a session; ordering and loss depend on the interleaving.",
  ["engine/emitter.go", "engine/socket.go", "engine/polling.go"],
  [("emit queue and writer loop", "engine/emitter.go"), ("polling out-queue", "engine/polling.go: WritePacket/ReadPacketOut")],
  observe=["packets seen by the peer versus Emit results"])
p("C07", "Received messages are handed to the application once, in order, one at a time",
  "Messages a client sends on one session are delivered to the message callback exactly once, in the order sent, and never two at a time for the same session, whatever the interleaving of request handlers, overlapping sessions and slow callbacks, and also when more messages are in flight than the session buffers. Every POST whose body was accepted is answered OK.",
  ["schedules"], "all schedules of posting handlers, reader and callbacks within a deviation bound, on both transports",
  "Nothing tests the receive path of a server session.",
  ["engine/server.go", "engine/polling.go", "engine/socket.go"],
  [("reader loop", "engine/server.go: reader goroutine in NewServer"), ("polling in-queue", "engine/polling.go: ServeHTTP POST / ReadPacket")],
  observe=["message callback entry/exit log"])
p("C08", "Upgrading to WebSocket loses, repeats or reorders no outgoing message",
  "While a polling session is upgraded to WebSocket by a conforming client, every message whose Emit succeeded, whenever it was emitted relative to the upgrade, reaches the client exactly once over one of the two transports, and in emit order, for every interleaving.",
  ["schedules"], "all schedules of emitters, a pending poll, the upgrade handshake and the session workers within a deviation bound, starting from empty, partly filled and full queues",
  "No test performs an upgrade; the loss windows last a few instructions.",
  ["engine/server.go", "engine/emitter.go", "engine/polling.go", "engine/barrier.go"],
  [("upgrade procedure", "engine/server.go: Server.upgrade"), ("barrier and pause", "engine/barrier.go, engine/polling.go: Pause/Resume/FlushOut"), ("writer loop", "engine/emitter.go")],
  observe=["packets received by the client on both transports"])
p("C09", "Upgrading to WebSocket keeps the session alive and incoming order intact",
  "While a polling session is upgraded to WebSocket by a conforming client, every message the client sent, before the upgrade over polling or after it over WebSocket, is delivered to the application exactly once, in the order sent and never two at a time. The upgrade never ends the session: no close event fires, the session id stays valid, and the upgrade event fires exactly once.",
  ["schedules"], "all schedules of the upgrade handshake, a slow message callback, queued incoming messages and the reader within a deviation bound",
  "No test performs an upgrade.",
  ["engine/server.go", "engine/polling.go", "engine/socket.go"],
  [("upgrade procedure", "engine/server.go: Server.upgrade"), ("reader loop and pause", "engine/server.go, engine/polling.go: ReadPacket/FlushIn")],
  observe=["message callback log, close and upgrade events"])
p("C10", "A failed upgrade attempt leaves the polling session intact",
  "Whatever a client does on a second transport for a live session short of completing the upgrade (closing at any step, sending wrong, malformed or unexpected packets, staying silent, repeating the attempt, asking for an unsupported change), no message is lost or taken by that attempt, messages keep flowing over the original transport once the attempt has ended, and a later correct upgrade succeeds.",
  ["fault_sequences", "histories"], "every deviation from the handshake at every step, every pair of attempts, with messages emitted at every point, within a schedule deviation bound",
  "No test performs an upgrade, failed or not.",
  ["engine/server.go", "engine/polling.go", "engine/socket.go"],
  [("upgrade procedure", "engine/server.go: Server.upgrade error paths"), ("request routing after upgrade", "engine/server.go: ServeHTTP")],
  observe=["messages received over polling and WebSocket after the attempt"])
p("C11", "Every session end is announced once and releases everything",
  "However a server session ends (client closes the connection, client sends a close packet, the application closes it, it times out, or several of these at once), the close event fires exactly once, the session id stops being accepted, all requests and workers of the session terminate, and closing never deadlocks, including when done from inside a callback or during an upgrade.",
  ["schedules", "fault_sequences"], "every combination of up to two ending causes, on both transports and during an upgrade, over all schedules within a deviation bound",
  "No test closes a session.",
  ["engine/socket.go", "engine/server.go", "engine/emitter.go", "engine/session.go"],
  [("close path", "engine/socket.go: Socket.Close"), ("reader exit", "engine/server.go"), ("emitter shutdown", "engine/emitter.go")],
  observe=["close events, session lookup, goroutines still alive at quiescence"])
p("C12", "Close flushes what was emitted before it and refuses what comes after",
  "On a WebSocket session with a responsive peer, every message whose Emit returned success before Close was called is written to the peer, in order, before the connection is closed. Once Close has returned every Emit returns an error and nothing more is written; an Emit concurrent with Close either writes its message or not but never blocks forever or corrupts the stream.",
  ["schedules"], "all schedules of emitters and closers within a deviation bound, from empty to full emit queues",
  "No test closes a session with queued messages.",
  ["engine/emitter.go", "engine/socket.go"],
  [("flush on close", "engine/emitter.go: close/loop/flush/submit"), ("Socket.Close", "engine/socket.go")],
  observe=["frames on the wire, Emit results"])
p("C13", "Heartbeats are answered and only silent sessions time out",
  "Every ping a client sends is answered by exactly one pong carrying the same data. A session that receives at least one packet in every window of ping interval plus ping timeout stays open indefinitely, a session that receives nothing is closed when that window has elapsed and not before, and a Go client sends a ping once per ping interval and gives up on a server that has been silent for interval plus timeout.",
  ["histories"], "every sequence of packets and pauses (just below, at and beyond the window) up to a depth, in virtual time, on both transports and on the client",
  "No test waits for a heartbeat window; doing so takes real seconds and samples one timing.",
  ["engine/server.go", "engine/client.go", "engine/socket.go", "engine/polling.go"],
  [("read deadline refresh", "engine/socket.go: Read"), ("ping answering", "engine/server.go: handle"), ("client pinger", "engine/client.go: Dial")],
  observe=["virtual time of close events, pongs received, pings on the wire"])
p("C14", "Sessions never see each other's traffic",
  "With several sessions open on one server, on any mix of transports, each message is delivered only to the session it was sent on or emitted to, each callback names the session that caused it, every session has its own id, and ending or upgrading one session does not disturb another. A session whose client or callbacks have stalled holds up neither the others nor the opening of new ones.",
  ["schedules", "histories"], "all schedules of two or three sessions opening, exchanging, upgrading and closing concurrently within a deviation bound, also beside one that is stuck in each callback and at each step of its client, and every operation sequence over two sessions up to a depth",
  "No test opens two sessions.",
  ["engine/session.go", "engine/server.go", "server.go"],
  [("session table", "engine/session.go"), ("socket table", "server.go: Server.sockets")],
  observe=["per-session message logs on both ends"])
p("C15", "A closed server opens no further session and leaves no request hanging",
  "Once the server's Close has returned, every request to open a session is answered promptly with an error, no open callback runs for it and nothing of it is retained; Close may be called at any time and any number of times and never blocks.",
  ["schedules"], "all schedules of Close against handshakes in flight within a deviation bound",
  "No test closes a server.",
  ["engine/server.go", "server.go"],
  [("shutdown", "engine/server.go: Server.Close and the accept loop")],
  observe=["HTTP responses, open callbacks, goroutines alive at quiescence"])
p("C16", "Default parser round-trips every packet",
  "For every packet of any type, namespace, id and argument list of JSON values and binary values, encoding with the default parser and feeding the resulting frames to a decoder yields exactly one packet with the same type, namespace and id whose event name and arguments equal the originals, binary arguments included and in place. Encoding the same logical packet again yields the same frames.",
  ["inputs"], "every packet over boundary alphabets for type, namespace, id (0 to 2^64-1), event name (including characters JSON escapes), and argument lists up to a length with every binary/JSON placement",
  "Tests round-trip seven packets and never compare the decoded data; binary packets are only encoded.",
  ["parser_default.go", "packet.go", "parser.go"],
  [("encoder", "parser_default.go: encodeTo/preprocess"), ("decoder", "parser_default.go: decode/Add/ParseData/UnmarshalArgs")],
  observe=["Packet and arguments obtained from Decoder"])
p("C17", "Default parser speaks the socket.io revision 4 wire format",
  "Frames produced by the default encoder are exactly those an independent reference encoder of the socket.io revision 4 format produces, up to JSON whitespace and escaping, and the decoder accepts every spelling a conforming peer may send (any JSON whitespace and escapes, placeholders first, last or anywhere in the list, namespace with or without trailing comma or query string) with the meaning the format gives it.",
  ["inputs"], "reference-encoded frames over the packet alphabet x spelling variants",
  "Tests pin a few literal frames.",
  ["parser_default.go"],
  [("encoder/decoder", "parser_default.go")],
  observe=["frames from Encoder, packets from Decoder"])
p("C18", "Decoders survive any frame sequence and resynchronise",
  "Feeding any sequence of text and binary frames, well-formed or not, to a default or msgpack decoder never panics or blocks; a malformed frame is reported as an error and produces no packet. After any such sequence the next complete well-formed packet is decoded exactly as on a fresh decoder, and no packet is ever assembled from pieces of different packets.",
  ["inputs", "histories"], "every frame sequence up to a depth over an alphabet of valid, truncated and malformed frames, and every short byte string over the structural alphabet",
  "No test feeds malformed frames or sequences.",
  ["parser_default.go", "parser_msgp.go", "packet.go"],
  [("decoder state", "parser_default.go: defaultDecoder.Add"), ("msgpack decoder", "parser_msgp.go: Add, packet.go: UnmarshalMsg")],
  observe=["Add errors, decoded packets, recovered panics"])
p("C19", "Msgpack parser round-trips packets and arguments",
  "For every packet and every argument list over the supported argument types, encoding with the msgpack parser, sending the resulting frames over a connection and decoding them yields exactly one packet with the same type, namespace, id, event and arguments, and no spurious error or extra frame. Truncated or corrupted msgpack input yields an error, never a panic or an allocation out of proportion to the input.",
  ["inputs"], "packet alphabet x supported argument types x boundary values, all truncations and single-byte corruptions of representative encodings",
  "Tests cover selected types once and never run the parser over a connection.",
  ["parser_msgp.go", "packet.go", "socket.go"],
  [("encoder/decoder", "parser_msgp.go"), ("packet codec", "packet.go"), ("frame emission", "socket.go: emitPacket")],
  observe=["frames on the wire, callback arguments, error callbacks"])
p("C20", "Event arguments are bound to handler parameters faithfully",
  "When an event arrives, its handler runs with the i-th data parameter equal to the i-th transmitted argument of the matching kind, converted to the parameter's type, with the socket of the originating connection and namespace injected wherever a Socket parameter appears, for every mix and order of value, pointer, binary, socket and variadic parameters. Missing arguments become zero values under the default parser, an argument that cannot be converted is reported to the namespace's error handler and the handler does not run.",
  ["inputs"], "every handler signature up to four parameters over a type alphabet x argument lists of equal, shorter and longer length",
  "Tests exercise about ten hand-picked signatures.",
  ["callback.go", "parser_default.go", "parser_msgp.go", "handle.go"],
  [("reflection call", "callback.go: callback.Call"), ("argument decoding", "parser_default.go and parser_msgp.go: UnmarshalArgs")],
  observe=["arguments observed by handlers, error callbacks"])
p("C21", "Each acknowledgement callback runs at most once, for its own request",
  "An acknowledgement callback passed to Emit runs exactly once when the peer acknowledges that request and with the acknowledgement's arguments, and never otherwise: not for another request, another namespace, another connection, a repeated or unknown id, or after its namespace was disconnected. Requests emitted concurrently carry distinct ids.",
  ["histories", "schedules"], "every sequence of emits and acks (in order, reordered, duplicated, unknown, cross-namespace) up to a depth, and all schedules of concurrent emitters with arriving acks within a deviation bound",
  "No test sends an ack over a connection.",
  ["handle.go", "socket.go", "server.go", "client.go"],
  [("ack table", "handle.go: ackHandle"), ("id allocation", "handle.go: onAck")],
  observe=["callback invocations, ids on the wire"])
p("C22", "Every request is acknowledged exactly once with the handler's results",
  "Each received event that carries an id and whose handler runs is answered by exactly one acknowledgement, in the same namespace, with the same id and the handler's return values (an empty list if it returns nothing, binary values as attachments); an event without an id, or whose arguments cannot be decoded, is never acknowledged. This holds on server and client and for every sequence of requests.",
  ["inputs", "histories"], "every sequence of events with and without ids over namespaces, handler result shapes and id boundary values up to a depth, on server and client",
  "No test runs an event through a connection.",
  ["server.go", "client.go", "socket.go"],
  [("event processing", "server.go and client.go: process"), ("ack emission", "socket.go: ack")],
  observe=["ack frames on the wire"])
p("C23", "Events reach only the addressed namespace and event handler",
  "An incoming event runs exactly the handler registered for its event name in its namespace, on the connection it arrived on and with a socket bound to that namespace, and no other handler; an event or ack addressed to a namespace the server does not have is answered with one namespace error in that namespace and runs nothing. A socket emits only into its own namespace, and emitting into a namespace that is not connected returns an error and sends nothing.",
  ["histories"], "every sequence of connect, disconnect, event, ack and emit operations over three namespaces and two event names up to a depth, against a reference model",
  "No test involves two namespaces.",
  ["server.go", "client.go", "socket.go", "handle.go"],
  [("dispatch", "server.go/client.go: process, handle.go: fireEvent"), ("attachment table", "socket.go: attachnsp/detachnsp/emit")],
  observe=["handler log, frames on the wire"])
p("C24", "Connect and disconnect callbacks pair up, whatever ends the connection",
  "For each connection and namespace, the server's connect callback runs before any event handler of that namespace, runs once per connection to the namespace, and is followed by exactly one disconnect callback when that namespace is left or the connection is lost for whatever reason; a disconnect is never reported for a namespace that is not connected. Callbacks may call any method of their socket, including Emit and Close, without deadlock.",
  ["histories", "schedules", "fault_sequences"], "every sequence of namespace connects/disconnects and connection endings up to a depth with callbacks that call back into the socket, and all schedules of connection loss against session start within a deviation bound",
  "No test runs these callbacks.",
  ["server.go", "client.go", "socket.go"],
  [("lifecycle", "server.go: NewServer callbacks, process; socket.go: detachall")],
  observe=["lifecycle callback log"])
p("C25", "Concurrent emits never mix the frames of different packets",
  "When several goroutines emit events or acknowledgements with binary attachments on the same connection, the frames of each packet (header and its attachments) are contiguous on the wire, so the peer decodes every packet with its own attachments.",
  ["schedules"], "all schedules of two or three emitters of binary and plain packets, in one or several namespaces and together with ack replies, within a deviation bound",
  "Needs a particular interleaving of two Emit calls; no test emits concurrently.",
  ["socket.go"],
  [("packet emission", "socket.go: emitPacket")],
  observe=["frames on the wire, decoded packets at the peer"])
p("C26", "Nothing a peer sends right after the handshake is lost",
  "Everything a client sends from the moment it has received the OPEN packet is processed by the server, and everything a server sends from the moment a Go client connects, including the root namespace's CONNECT, is processed by that client, for every interleaving of session setup with the arriving packets.",
  ["schedules"], "all schedules of session setup (server and client side) against arriving packets within a deviation bound",
  "The window is a few instructions wide and depends on goroutine scheduling.",
  ["engine/server.go", "engine/client.go", "server.go", "client.go"],
  [("server session setup", "engine/server.go: accept loop, server.go: open callback"), ("client setup", "engine/client.go: Dial, client.go: Dial")],
  observe=["connect callbacks, handler log, acks"])
p("C27", "Go client and Go server agree on every exchange until either side closes",
  "A Go client connected to a Go server observes exactly the events the server emitted to it and vice versa, each once and in order, with acknowledgements matched, binary data intact and under both parsers; when the connection ends for any reason, both sides run their disconnect callback exactly once and further emits on either side fail instead of vanishing.",
  ["histories", "schedules"], "every sequence of emits, acks and closes by either side up to a depth, and all schedules of short exchanges within a deviation bound",
  "No test connects the two halves.",
  ["client.go", "server.go", "engine/client.go", "engine/server.go"],
  [("client", "client.go, engine/client.go"), ("server", "server.go, engine/server.go")],
  observe=["callback logs on both ends"])
p("C28", "Concurrent use of the documented API is free of data races",
  "Emitting, reading and setting headers, querying addresses, polling, posting, upgrading and closing sessions from different goroutines at the same time involves no unsynchronised conflicting memory access inside the library.",
  ["schedules"], "all schedules of pairs and triples of API operations on shared sessions within a deviation bound, with a happens-before race check on each",
  "The race detector reports only races of schedules that happen to run; no test shares a session between goroutines.",
  ["engine/socket.go", "engine/server.go", "engine/session.go", "socket.go", "server.go", "handle.go"],
  [("locks", "engine/socket.go, socket.go, engine/session.go, handle.go")],
  observe=["vector-clock race detector over instrumented memory accesses"])

p("C29", "A session's id, addresses and headers are its own and survive upgrades",
  "GetHeader returns, for any spelling of the key, the value SetHeader last stored under it on that session, or else the first value the session's opening request carried, from the open callback on, through any number of upgrade attempts and a successful upgrade, in every namespace of a connection and under concurrent setting; headers of polls, posts, failed upgrades and other sessions never show. Setting a header changes neither the request nor the header map a client was dialled with. The session id never changes, and RemoteAddr is the opening request's peer until an upgrade succeeds and the websocket's from then on.",
  ["histories", "schedules"], "every sequence of setting, polling, posting, failing and succeeding upgrades and ending up to a depth over two sessions, and all schedules of setters, readers and an upgrade within a deviation bound",
  "No test reads or sets a header or address of a session.",
  ["engine/socket.go", "engine/transport.go", "engine/polling.go", "engine/websocket.go", "engine/server.go", "socket.go"],
  [("header access", "engine/socket.go: GetHeader/SetHeader"), ("cloning and carrying over", "engine/transport.go: cloneHTTPHeader/copyHeaderFrom; engine/server.go: upgrade")],
  observe=["GetHeader, RemoteAddr, LocalAddr, Sid; the request's and the caller's header maps"])
p("C30", "Dial yields a working client or an error, and nothing in between",
  "Dialling a server either gives a client that has the session id of the server's OPEN packet and exchanges messages, or an error; on an error no callback has run, no worker remains and the connection is closed. Every answer other than an accepted websocket whose first packet is an OPEN packet with valid parameters is an error. The handshake request keeps the URL's path, its other parameters and the given headers, and names version 3 and websocket exactly once. A client whose Dial failed or whose connection is over can be dialled again.",
  ["inputs", "histories", "schedules"], "every server behaviour of an alphabet of refusals, broken handshakes, first packets, fragmentations and connection losses, every pair of them in sequence on one client, every URL of an alphabet, and all schedules of each within a deviation bound",
  "No test dials anything but a well-behaved server.",
  ["engine/client.go", "engine/transport.go", "client.go"],
  [("engine client handshake", "engine/client.go: Dial"), ("websocket dialling", "engine/transport.go: websocketTransport.Dial"), ("socket.io client", "client.go: Dial/open")],
  observe=["error of Dial, callbacks, live goroutines, the connection's end, the handshake request"])
p("C31", "Engine sockets send and report exactly what is asked",
  "Emit sends, for a message, ping, pong, open or close event, exactly one packet of that type whose data is the given bytes or string verbatim or else the JSON encoding of the argument, in the given kind; an argument without JSON encoding gives an error and sends nothing, other events send nothing. For each packet received exactly the callback registered last for its event runs, once, with the session's socket, kind and data, which later traffic leaves as it is; packets without a callback have no effect on those that follow.",
  ["inputs", "histories"], "every event x kind x argument of an alphabet on server sessions of each transport and clients, and every short sequence of registrations and packets, registrations from inside callbacks included",
  "The tests emit a few strings and register each callback once.",
  ["engine/socket.go", "engine/handle.go", "engine/emitter.go", "engine/server.go", "engine/client.go"],
  [("emission", "engine/socket.go: Emit"), ("dispatch", "engine/handle.go: eventHandlers.On/fire")],
  observe=["packets on the wire, callback log, error of Emit"])
p("C32", "Errors are reported where they arise, once, and cost nothing else",
  "A frame that cannot be decoded is reported once to the OnError of its server or client; an event or acknowledgement whose arguments do not fit its callback, and a reply that has no encoding, is reported once to the OnError of its namespace, with a socket of that connection and namespace, and so is each received ERROR packet with its data; nothing else is reported. Emitting something without an encoding returns an error and sends nothing. None of this ends the connection, affects other packets, connections or pending acknowledgements, and without error callbacks everything else happens just the same.",
  ["inputs", "histories"], "every sequence up to a depth of failing and ordinary operations, on server and client, under both parsers, with and without error callbacks",
  "No test makes an operation fail and goes on with the connection.",
  ["server.go", "client.go", "socket.go", "handle.go", "callback.go"],
  [("packet dispatch", "server.go, client.go: process"), ("emission", "socket.go: emit/emitPacket")],
  observe=["error and ordinary callbacks, packets on the wire, error of Emit"])
p("C33", "Nothing is kept of what is over",
  "What a server or client keeps in memory, and the number of its workers, depends on what is open or pending only: sessions, connections and namespaces that have ended, refused requests, failed upgrades and dials, delivered messages, answered or failed requests and rejected frames leave nothing behind, however many there have been.",
  ["histories", "schedules"], "every operation of an alphabet that ends where it began, every pair of them (triples in the thorough tier), repeated, and all schedules of a connection's end within a deviation bound",
  "Tests do not look at what is left when a session is over; a leak shows only after very many of them.",
  ["engine/session.go", "engine/server.go", "engine/polling.go", "engine/emitter.go", "server.go", "client.go", "socket.go", "handle.go"],
  [("session table", "engine/session.go: sessionManager"), ("connection table", "server.go: Server.sockets"), ("pending acknowledgements", "handle.go: ackHandle")],
  observe=["objects reachable from the server or client, live goroutines"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
