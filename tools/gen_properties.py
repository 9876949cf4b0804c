#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so the list stays consistent).
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Wire codec round trip and framing",
 "Encoding any packet the library can build and decoding the resulting bytes yields a packet of the same kind with the same packet id, session/client id, flags and payload (text being valid UTF-8), whether decoding is done from a buffer or from a reader. Every encoding is exactly a 14-byte header whose length field counts the bytes that follow it, so packets written back to back are read back one by one without bytes lost, added or shared. Writing a packet to a connection delivers its whole encoding, in order, even if the connection accepts it in pieces.",
 ["inputs","histories"],"all field values of all 18 packet kinds, all payload lengths, all sequences of partial writes",
 "TestPacketHeader round-trips one header with fixed values; the round trip must hold for every field value, payload length and partial-write pattern.",
 ["packet/packet.go","packet/packet_conn.go","packet/packet_sess.go","packet/packet_data.go","packet/decode.go"],
 [("per-packet Encode / Decode / DecodeFromReader","packet/packet_*.go"),("type dispatch","packet/decode.go Decode, DecodeFromReader"),("partial-write loop","packet/decode.go EncodeToWriter")],
 ["packet.Encode","packet.Decode","packet.DecodeFromReader","packet.EncodeToWriter"])

p("C02","Decoding hostile bytes is safe",
 "For every byte sequence a peer may send, decoding returns either a packet or an error and never panics, indexes outside the data, or reads past the packet it is decoding. A packet whose declared length is too small for its kind, whose type is unknown, or whose payload is not parseable is reported as an error. No allocation made while decoding exceeds the packet length declared in the header (plus a small constant).",
 ["inputs"],"all byte sequences of any length, all declared lengths, all reader error points",
 "Tests decode only bytes produced by the library itself; a remote peer is not bound to do that and one bad length kills the process.",
 ["packet/packet.go","packet/packet_conn.go","packet/packet_sess.go","packet/packet_data.go","packet/decode.go"],
 [("length checks before slicing","packet/packet_*.go Decode / DecodeFromReader"),("header check","packet/packet.go PacketHeader.Decode"),("dispatch default","packet/decode.go")],
 ["packet.Decode","packet.DecodeFromReader"])

p("C03","Packets carry the identity they were built with",
 "Every packet built by the packet factory has the kind asked for, carries exactly the session id, client id, key, value, error text, metadata and flags given, and its error text is that of the error given, empty when none was given. Request-type packets get a fresh id drawn once from the id source (or the caller's id), and every acknowledgement or response carries the id of the packet it answers. Re-tagging a packet with another session id changes only its session id.",
 ["inputs"],"all arguments of all factory constructors, including nil errors, empty and nil byte slices",
 "Tests drive a few constructors indirectly through an end-to-end happy path; one swapped argument among 30 constructors mis-correlates requests only for certain kinds.",
 ["packet/factory.go","packet/packet_data.go","packet/packet_sess.go","packet/packet_conn.go"],
 [("constructors","packet/factory.go"),("SetSessionID / SessionID","packet/packet_*.go")],["packet.PacketFactory"])

p("C04","Identifier allocation is unique and side-separated",
 "Ids drawn from one allocator are distinct: in recycling mode an id is not handed out while it is reserved or outstanding and becomes available again only when given back; in the counting modes every draw advances the allocator by its step, so an id can only repeat after the whole 32-bit range was used up within one second. Ids from an odd-mode allocator are odd and from an even-mode allocator even, so the two sides of one connection never allocate the same id. The counting modes never hand out the null id or the default stream's id.",
 ["inputs","histories","schedules"],"all allocator states, modes and starting points, all interleavings of get / reserve / release",
 "Tests never exercise reserve/release and the parity separation only fails for some random starting points.",
 ["pkg/id/id.go","pkg/id/factory.go"],
 [("counter step and mode","pkg/id/id.go GetID, ReserveID, DelID"),("seed parity","pkg/id/id.go NewIDCounter, randomUint32")],
 ["id.IDFactory"],[("nextid","last id handed out","pkg/id/id.go"),("inuse","reserved and outstanding ids","pkg/id/id.go")])

p("C05","Connection handshake agrees on one client id and metadata",
 "A server accepts a connection by answering the client's connect packet with exactly one acknowledgement that carries that packet's id, and records the client's metadata as sent. The client id both sides report is the one in that acknowledgement: the delegate's choice if it gives a non-zero one, otherwise a generated one when the client asks for an id, and the client's own id when it does not. If the delegate refuses the id or the connection the acknowledgement carries the error, the client's connect fails with that error, and the connection is not reported as established; a connect packet outside the initial state is an error and is never acknowledged.",
 ["inputs","histories"],"all connect packets, metadata, client ids, delegate outcomes and connection states",
 "Tests only run the success path with one delegate behaviour; refusals, re-sent connect packets and id choices need specific peers.",
 ["conn/conn_server.go","conn/conn_client.go","packet/factory.go"],
 [("server handshake","conn/conn_server.go handleInConnPacket, handleOutConnAckPacket, wait"),("client handshake","conn/conn_client.go connect, handleInConnAckPacket, handleOutConnPacket"),("state machine","conn/conn_server.go initFSM, conn/conn_client.go initFSM")],
 ["conn.NewClientConn","conn.NewServerConn","ClientID()","Meta()"])

p("C06","Connection data plane forwards each packet once, in order",
 "While a connection is established every packet of the layers above that arrives is handed up exactly once and unchanged, and every packet written is passed down to the wire exactly once and unchanged, in the order handed over; control packets are never handed up. Before the handshake completes and after closing starts on the receiving side no application packet is handed up. A write on a connection that has finished returns end-of-file and sends nothing.",
 ["inputs","histories"],"all packets of all kinds in every connection state, both sides",
 "Benchmarks count throughput only; they never look at duplicates, state gating or writes after close.",
 ["conn/conn_base.go","conn/conn_server.go","conn/conn_client.go"],
 [("dispatch","handleIn / handleOut in conn/conn_server.go, conn/conn_client.go"),("gating","handleInDataPacket"),("pumps","conn/conn_base.go readPkt, writePkt, Write; handlePkt loops")],
 ["conn.Conn.Write","conn.Conn.Read","ChannelRead"])

p("C07","Connection close handshake and teardown",
 "Closing a connection sends one close request, however often it is called; receiving one is acknowledged with its own id and answered by closing this side too; the connection finishes only after both directions were closed and acknowledged, or on an error. When it finishes, exactly once, the network connection is closed, readers see end-of-file, later writes are refused, a still-waiting connect fails, and packets accepted but never sent are given to the failed-packet sink if one is configured. A close or close-ack packet that is not legal in the current state ends the connection instead of being acknowledged.",
 ["inputs","histories"],"all close/close-ack orders in all states of both sides, all queue contents at teardown",
 "Simultaneous close, repeated close and leftover packets at teardown depend on orders the regression tests do not produce.",
 ["conn/conn_base.go","conn/conn_server.go","conn/conn_client.go"],
 [("close handshake","conn/conn_base.go handleInDisConnPacket, handleInDisConnAckPacket, handleOutDisConn*"),("state machine","initFSM"),("teardown","fini"),("Close once","Close in conn_server.go, conn_client.go")],
 ["Conn.Close","ConnOffline delegate","failed packet channel"])

p("C08","Streams on one connection are isolated from each other",
 "A packet arriving for a stream is handed to the stream with exactly that id and to no other; session replies go to the stream that started that negotiation, and while a stream is being opened packets carrying its negotiation id are handed to it; packets for an unknown stream or without a stream id go to nobody. Every packet a stream sends is tagged with that stream's id whatever tag the caller gave it. Opening, finishing or failing one stream changes the routing of that stream only.",
 ["inputs","histories","schedules"],"all packets, all sets of open and negotiating streams, all interleavings protected by the routing lock",
 "Tests open a handful of streams on a healthy peer; misrouting needs colliding negotiating and established ids or unknown ids.",
 ["multiplexer/dialogue_mgr.go","multiplexer/dialogue.go"],
 [("routing","multiplexer/dialogue_mgr.go handlePkt"),("tagging","multiplexer/dialogue.go Write, WriteWait"),("tables","DialogueOnline, DialogueOffline, OpenDialogue, fini")],
 ["Stream.Read/Receive/Call on a given stream"],[("dialogues","id to stream routing table","multiplexer/dialogue_mgr.go"),("negotiatingDialogues","streams being opened, by local negotiation id","multiplexer/dialogue_mgr.go")])

p("C09","Stream open agrees on id, metadata and peer, or fails",
 "When opening a stream succeeds, both sides report the same stream id, chosen by the accepting side when the opener asks for one and equal to the proposed id otherwise, and the accepting side reports the metadata and peer given by the opener; the opener keeps the metadata it opened with. The accepting side answers each open request exactly once, with the request's own id, and announces the stream before it can carry data. If the accepting side refuses, or the open request is not legal in the current state, opening fails with an error and leaves no stream behind.",
 ["inputs","histories"],"all open requests, metadata, proposed ids, sides, refusals and dialogue states",
 "Tests open streams successfully only, with no metadata or peer check.",
 ["multiplexer/dialogue.go","multiplexer/dialogue_mgr.go","application/end.go","packet/factory.go"],
 [("accept side","handleInSessionPacket, handleOutSessionAckPacket"),("open side","OpenDialogue, open, handleOutSessionPacket, handleInSessionAckPacket"),("announce","DialogueOnline, AcceptDialogue")],
 ["End.OpenStream","End.AcceptStream","Stream.StreamID/Meta/Peer"])

p("C10","Stream close handshake and teardown",
 "Closing a stream sends one close request, however often and from wherever it is called; a close request is acknowledged with its own id and answered by closing this side too; the stream finishes only after both directions were closed and acknowledged, on error, or when the connection goes away. When it finishes, waiters are released, readers see end-of-file, later writes return end-of-file, and the stream is taken out of routing and reported offline once if it had been online. Data is delivered only in the states in which the stream is open or closing; otherwise it is dropped and never delivered. A stream that is closed while packets wait to be read ends at the latest after the close timeout, and neither that nor a failing stream crashes the process, keeps other streams from being served, or keeps the connection from closing. Closing the multiplexer closes its streams first and may be asked for again at any time.",
 ["inputs","histories"],"all close/ack orders in all stream states, all queue contents at teardown",
 "Tests close streams from one side at quiet moments.",
 ["multiplexer/dialogue.go","multiplexer/dialogue_mgr.go"],
 [("close handshake","handleInDismissPacket, handleInDimssAckPacket, handleOutDismiss*"),("state machine","initFSM"),("teardown","fini, closeIO, Close, CloseWait"),("gating","handleInDataPacket")],
 ["Stream.Close","Stream.Read EOF"])

p("C11","Every incoming request is served at most once and answered once",
 "For each request received exactly one response is sent, with the request's id, after at most one handler ran: a matching hijack handler if there is one, else the handler registered for that method, else none and the response reports that no such method exists. The handler sees the request's data, custom data, id, method, client and stream id exactly as sent. The response carries the data and error the handler set; an empty error means success. Handlers run beside the stream: one that takes its time holds up neither other requests nor anything else the stream receives.",
 ["inputs","histories"],"all requests, registration tables, hijack patterns and handler outcomes",
 "TestCall calls one registered method that succeeds; precedence, inverse patterns, unknown methods and duplicated responses are not reached.",
 ["application/stream.go","application/types.go","application/rpc.go"],
 [("dispatch","application/stream.go handleInRequestPacket, doRPC"),("hijack","application/rpc.go Hijack")],
 ["RPC handler invocation","Call result"])

p("C12","A call returns the answer to that very call",
 "A call with a request created for another client or another stream is refused without sending anything. Otherwise exactly one request is sent carrying the caller's method, data and custom data under the request's id, the wait for the answer is in place before the request is handed over, and the call returns the data or the error of the response with that id. A response or error never completes any other call, and an asynchronous call signals its completion exactly once, carrying the response or the error.",
 ["inputs","histories","schedules"],"all requests, responses, errors and arrival orders, including a response that arrives at once",
 "The ordering between registering the wait and sending, and correlation under concurrent calls, are decided by schedules the tests do not control.",
 ["application/rpc.go","application/stream.go"],
 [("call","application/rpc.go Call, CallAsync"),("completion","application/stream.go handleInResponsePacket, handleOutRequestPacket")],
 ["Call","CallAsync"])

p("C13","Deadlines and cancellation of calls reach the serving side",
 "A call's timeout and context deadline travel with the request, and the handler runs under a context whose deadline is the earlier of those present (none if none). Cancelling the caller's context releases the caller with the context's error, drops the wait, and sends one cancel for that request, on which the serving side cancels exactly that request's context; a deadline that passes sends no cancel. The serving side releases the context of a request when its handler returns or when no handler exists, so nothing is left behind.",
 ["inputs","histories"],"all deadline/timeout combinations, all orders of cancel, response and handler completion",
 "TestCall uses no deadline; cancellation has no test at all.",
 ["application/rpc.go","application/stream.go","packet/decode.go"],
 [("deadline propagation","application/rpc.go Call, CallAsync; application/stream.go handleInRequestPacket"),("cancel","Call; handleOut; handleInRequestCancelPacket; doRPC")],
 ["context passed to the handler"],[("rpcCancels","cancel functions of requests being served","application/stream.go")])

p("C14","Publish completes exactly as acknowledged",
 "Publishing sends exactly one message packet with the message's id, data, topic, custom data and deadline; at-most-once messages return at once and wait for nothing, all others return success only when the acknowledgement with that id arrives and the peer's error when it reports one. An acknowledgement completes only the publish with its id, and asynchronous publishing signals its completion exactly once with the error if any. Messages made for another client or stream are refused without sending anything.",
 ["inputs","histories","schedules"],"all messages, consistency levels, timeouts, acknowledgement orders",
 "TestMessage publishes and acknowledges one message; refusal, error acks, async completion and early acks are not covered.",
 ["application/message.go","application/stream.go"],
 [("publish","application/message.go Publish, PublishAsync"),("completion","application/stream.go handleInMessageAckPacket, handleOutMessagePacket")],
 ["Publish","PublishAsync"])

p("C15","A received message is what was published, acked by its own id",
 "Each message packet handed up yields exactly one received message with the same data, topic, custom data and id, in arrival order and bound to this client and stream. Marking it done sends one acknowledgement with that id and no error; failing it sends one with that id and the given error text. After the stream finished, receiving reports end-of-file and acknowledging reports end-of-file without sending.",
 ["inputs","histories"],"all messages, acknowledgements and stream states",
 "Tests check only the data of one message.",
 ["application/message.go","application/types.go","application/stream.go"],
 [("receive","application/message.go Receive"),("acks","application/types.go message.Done, message.Error; application/message.go ackMessage"),("new message","NewMessage")],
 ["Receive","Message.Done/Error"])

p("C16","Raw stream reads and writes preserve the byte sequence",
 "Every successful write sends one packet holding a private copy of exactly the caller's bytes and reports their number. Reads return the bytes of the arriving packets in order with none lost, repeated or altered: a read never returns more than the buffer holds, and what did not fit is returned by the following reads before anything newer. When the stream has finished, writes report end-of-file, and reads do once the bytes that arrived before have been returned.",
 ["inputs","histories"],"all buffer sizes and contents, all splits of packets over reads",
 "Test_stream_Read/Write use one buffer that fits; partial reads across packets and buffer aliasing are not covered.",
 ["application/raw.go","application/stream.go"],
 [("leftover cache","application/raw.go Read"),("copy on write","application/raw.go Write"),("delivery","application/stream.go handleInStreamPacket, handleOutStreamPacket")],
 ["Stream.Read","Stream.Write"],[("cache","bytes read from a packet and not yet returned","application/stream.go")])

p("C17","I/O deadlines time out exactly the operations they cover",
 "An operation on a stream whose deadline has passed and that cannot proceed at once fails with a deadline error; an operation with no deadline never does. Setting a deadline replaces the previous one for that direction, the zero time removes it, and setting both sets each. When a deadline expires every pending operation in that direction, and none in the other, is released with a deadline error exactly once, and operations that completed are not touched. Setting a deadline never waits for anything but another such operation.",
 ["inputs","histories"],"all deadline values relative to now, all sets of pending operations, all orders of set/expire/complete",
 "The mock tests set deadlines sequentially; waiter bookkeeping with several pending operations is not covered.",
 ["application/raw.go"],
 [("deadline set","setReadDeadline, setWriteDeadline, SetDeadline"),("waiter lists","Read, Write, expiry callbacks")],
 ["SetDeadline/SetReadDeadline/SetWriteDeadline","Read/Write errors"])

p("C18","Method registration is mirrored at the peer",
 "Registering a method makes it callable locally and sends exactly one registration with its name; the peer records that name, acknowledges with the registration's id and reports it; registering completes only on that acknowledgement. If registering fails or its context ends the local registration is withdrawn and the error returned, and re-registering replaces the handler. When checking of remote methods is enabled a call to an unregistered method is refused without sending, and leaves the stream usable. An end made with local methods registers each of them; one told to wait for remote methods is made once the peer registered every one of them, whenever each registration arrives, and fails if the connection ends first.",
 ["inputs","histories"],"all method names, registration orders, failures and check settings",
 "Tests register one method successfully.",
 ["application/rpc.go","application/stream.go"],
 [("register","application/rpc.go Register, addLocalRPC, delLocalRPC"),("peer","application/stream.go handleInRegisterPacket, handleInRegisterAckPacket"),("check","application/rpc.go Call; application/stream.go hasRemoteRPC")],
 ["Register","RemoteRegistration delegate","Call with remote check"],
 [("localRPCs","methods served here","application/stream.go"),("remoteRPCs","methods the peer announced","application/stream.go")])

p("C19","A finished stream refuses work and releases its waiters",
 "After a stream has finished every send-side operation - call, publish, register, write, acknowledge, synchronous or asynchronous - reports end-of-file and hands nothing to the layer below. Finishing a stream fails every queued packet's waiter, releases all remaining waiters, closes the receive sides, and removes the stream from its end's list; a timer shared with others is left alone. A failure or an end-of-file of the layer below finishes the stream, once.",
 ["inputs","histories"],"all operations on finished streams, all queue contents when finishing, both pump loops ending in either order",
 "Tests close ends at quiet moments with nothing pending.",
 ["application/stream.go","application/rpc.go","application/message.go","application/raw.go","application/end.go"],
 [("teardown","application/stream.go fini, handlePkt, readPkt"),("guards","Call, CallAsync, Publish, PublishAsync, Register, Write, ackMessage")],
 ["io.EOF results"],[("streamOK","false once the stream finished","application/stream.go")])

p("C20","Merging options keeps the last value set",
 "For every option of every kind of operation, combining several option values yields for each field the value of the last one that sets it, whatever the others set. Values nobody set stay unset. The given option values are not modified.",
 ["inputs"],"all lists of option values of any length and any combination of set fields",
 "No test merges options; the loops must hold for lists of any length.",
 ["options/call_options.go","options/publish_options.go","options/openstream_options.go","options/hijack_options.go"],
 [("merge loops","options/*.go Merge*"),("setters","options/*.go Set*")],["options.Merge*"])

p("C21","Retrying end delegates and remembers across reconnects",
 "Every operation on a retrying end acts on the current connection's end and returns its results unchanged when that connection is healthy. Methods registered and hijack handlers installed are remembered and installed again on every new connection, failures of registering are not remembered, and the stable listing of metadata, ids and addresses always comes from the current connection. After the end was closed by its user no reconnect is attempted.",
 ["inputs","histories","fault_sequences"],"all operations, all reconnect points",
 "Tests do not break connections under the retrying end.",
 ["client/end_retry.go","client/end.go"],
 [("delegation","client/end_retry.go"),("memo","registered methods, hijack"),("reinit","client/end_retry.go reinit / init")],
 ["client.NewRetryEnd"])

p("C22","Accepted and closed streams are announced and tracked by the end",
 "Each stream opened or accepted on an end is a distinct live stream bound to the multiplexer dialogue it came from, appears in the end's stream list from then on until it finishes, and is passed to the accept function once if one is configured. A closed dialogue is reported to the closed function with the stream of that id and with no other, and only if it is known. If opening or accepting fails the error is returned and no stream is added.",
 ["inputs","histories"],"all dialogues, all contents of the stream table, all configurations",
 "Tests open and accept one stream.",
 ["application/end.go","multiplexer/dialogue_mgr.go"],
 [("tracking","application/end.go OpenStream, AcceptStream, AcceptDialogue, ClosedDialogue, delStream, ListStreams")],
 ["OpenStream","AcceptStream","ListStreams","accept/closed functions"])

p("C23","Locks are released on every path",
 "Every public operation and every packet handler of a stream, a dialogue, the multiplexer, a connection, an id allocator and a retrying end releases each lock it takes exactly once on every path, including error and early-return paths, and never unlocks a lock it does not hold or takes one it already holds for writing.",
 ["inputs","histories"],"all paths of the listed operations, whatever their inputs and the results of the layers below",
 "A lock leaked on an error path blocks the next operation on that object for ever; tests take few error paths.",
 ["application/rpc.go","application/message.go","application/raw.go","application/stream.go","multiplexer/dialogue.go","multiplexer/dialogue_mgr.go","conn/conn_base.go","conn/conn_server.go","conn/conn_client.go","pkg/id/id.go","client/end_retry.go"],
 [("lock regions","sync.Mutex / sync.RWMutex uses in the anchored files")],["any later operation on the same object"])

p("C24","Run-once guard runs its action once",
 "The library's run-once guard runs the first action given and no other, every later use returns without running anything, and a guard that has not run yet runs its action on first use. An action that itself uses the guard returns instead of blocking or running again. An action that panics counts as having run: the guard does not run it or another one again.",
 ["inputs","histories"],"all guard states, re-entrant uses",
 "No test covers the guard directly.",
 ["pkg/sync/once.go"],[("Once","pkg/sync/once.go")],["gsync.Once.Do"])

p("C25","Ends are assembled from what the user asked for",
 "An end made by the client or the server is built on exactly the connection dialled, given or accepted, its three layers stacked on one another over that connection and sharing it. Every option the user sets (packet factory, timer, delegate, client id, meta, buffer sizes, methods to register and to wait for, remote method check, accept and closed functions) reaches the layer it is for and is not overridden there; of several option values the last one set wins, and each end has its own copy. The two sides draw identifiers of opposite parity unless given a packet factory. Closing an end closes its streams and then the connection below them, and its timer only if the library made it. If an end cannot be made, the caller gets the error and no end, the connection is closed and a timer made for it is closed, but never the user's. A listener makes one end for each connection it accepts, with its options, and hands each outcome to exactly one caller. A stream that the peer opens or ends while the server's end is being made is announced once, after it is made.",
 ["inputs","histories"],"all option lists, all outcomes of dialling, listening and of each layer's construction, any stream events during construction",
 "Tests make ends with at most one option value over working connections; failures halfway and combinations of options are not taken.",
 ["client/end.go","client/end_options.go","server/end.go","server/end_options.go","server/server.go","conn/conn_client.go","conn/conn_server.go","multiplexer/dialogue_mgr.go","multiplexer/dialogue.go","application/end.go"],
 [("assembly","client/end.go new; server/end.go new"),("options","MergeEndOptions, the Option functions of conn, multiplexer and application and their constructors"),("listener","server/server.go")],
 ["NewEnd*","Listen","AcceptEnd","end.Close"])

p("C26","Heartbeats keep a connection, silence closes it",
 "A client sends one heartbeat at each interval it announced when connecting, for as long as its connection lasts, and stops when it is closed. The server watches a client it accepted for twice that interval: each heartbeat received while connected is answered once, under its own id, reported to the delegate once, and starts the watch anew; nothing else does. A watch that runs out closes the connection like any close, and a finished connection leaves no watch and no heartbeat behind. A heartbeat or its answer arriving while no connection is established does not end the connection.",
 ["inputs","histories"],"all intervals, all packets in every connection state, all points at which a timer runs out",
 "The shortest interval is five seconds; no test waits for a heartbeat, let alone for one that is missing or crosses a close.",
 ["conn/conn_server.go","conn/conn_client.go","conn/conn_base.go"],
 [("watch","conn/conn_server.go handleInConnPacket, handleInHeartbeatPacket, waitHBTimeout, fini"),("beat","conn/conn_client.go newClientConn, sendHeartbeat, handleInHeartbeatAckPacket, Close, fini")],
 ["heartbeat packets on the wire","Heartbeat delegate","ConnOffline delegate"],
 [("hbTick","the armed timer","conn/conn_base.go"),("heartbeat","the interval","conn/conn_base.go")])

# not claimed
p("C30","Accepted packets are eventually delivered",
 "While both peers are alive and keep reading, every packet accepted for sending is eventually delivered.",
 ["schedules","histories"],"all fair schedules of the goroutines of both peers",
 "Liveness over all schedules cannot be sampled.",
 ["conn/conn_base.go","multiplexer/dialogue.go","application/stream.go"],[("bounded channels between pumps","conn, multiplexer, application")])
p("C31","No schedule deadlocks or races",
 "No interleaving of the library's goroutines deadlocks, races on shared data, or sends on a closed channel.",
 ["schedules"],"all goroutine interleavings of one process",
 "Tests see a handful of schedules.",
 ["conn","multiplexer","application"],[("mutexes, channels, once guards","conn, multiplexer, application")])
p("C32","Dead peers are detected within twice the heartbeat interval",
 "A server drops a client it has not heard from for twice the agreed heartbeat interval, and a client sends heartbeats at that interval.",
 ["histories","fault_sequences"],"all timings",
 "Tests do not run that long.",
 ["conn/conn_server.go","conn/conn_client.go"],[("heartbeat timers","handleInHeartbeatPacket, sendHeartbeat, waitHBTimeout")])
p("C33","A retrying end reconnects after any failure history",
 "After any sequence of connection failures a retrying end re-establishes a connection and ends in the same registered state.",
 ["fault_sequences","histories"],"all failure sequences",
 "Tests break no connections.",
 ["client/end_retry.go"],[("reconnect loop","client/end_retry.go")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
