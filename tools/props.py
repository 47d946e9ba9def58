#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

prop("C01","A message leaves only on a connection that may carry it",
"An application message given to Write, Emit or Ask reaches a connection's wire only while that connection is open, is connected to the message's namespace, has joined the message's room if one is named, and is not the explicitly excluded sender; connect/disconnect messages are the only ones exempt from the namespace test and join/left messages from the room test. A message that satisfies all of this is always handed to the transport in the requested frame type (text or binary), and the caller is told false exactly when it was not handed over or the transport failed. The excluded-sender marker itself never goes out on the wire. Calls on the nil handle of a namespace that is not connected have no effect and say so.",
["inputs","schedules","histories"],"every message, every membership state, every interleaving with Close/disconnect/leave",
"the suite sends a handful of messages on connected namespaces; it never writes to unconnected namespaces, unjoined rooms, closed connections or with an excluded sender",
["conn.go","message.go"],[("canWrite gate","conn.go: Conn.canWrite"),("only gated or control payloads reach the socket","conn.go: Conn.Write, Conn.write")],
[("Conn.connectedNamespaces","current namespace memberships","conn.go"),("NSConn.rooms","current room memberships","conn_namespace.go"),("Message.FromExplicit","excluded sender","message.go")],
["Socket.WriteText/WriteBinary calls","result of Conn.Write"])

prop("C02","A namespace is connected only after both sides agreed",
"A side becomes connected to a namespace only if it declares that namespace, it was not connected already, its own connect callback accepted and, when it is the side that asked, the remote side answered without error; on any refusal it stays unconnected and Connect returns that error (a native-only connection, which negotiates nothing, aside). The connected callback runs exactly once per new connection and only after the membership is in effect, and Connect on an already connected namespace returns the existing one without negotiating again. Connected/joined/left notifications cannot be triggered by a message from the remote side.",
["inputs","histories","schedules"],"every order of Connect calls, every callback verdict, every remote answer, either side asking",
"TestConnect samples one accept and three refusals from the client side only; it does not look at membership after a refusal, callback counts, or forged notifications",
["conn.go","conn_handler.go"],[("ask side","conn.go: Conn.askConnect"),("reply side","conn.go: Conn.replyConnect"),("dispatch","conn.go: Conn.handleMessage")],
[("Conn.connectedNamespaces","current namespace memberships","conn.go")],["OnNamespaceConnect/Connected callbacks","Connect result","Conn.Namespace"])

prop("C03","A room is joined only after both sides agreed",
"A connection becomes a member of a room only if its own join callback accepted and, when it is the side that asked, the remote side answered without error; on any refusal it stays out and JoinRoom returns that error. The joined callback runs exactly once per new membership and only after the membership is in effect, and joining a room already joined changes nothing and negotiates nothing locally. A room membership always belongs to the namespace connection and room name that were negotiated.",
["inputs","histories","schedules"],"every order of JoinRoom calls, every callback verdict, every remote answer, either side asking",
"two join/leave tests exercise only accepted joins",
["conn_namespace.go"],[("ask side","conn_namespace.go: NSConn.askRoomJoin"),("reply side","conn_namespace.go: NSConn.replyRoomJoin")],
[("NSConn.rooms","current room memberships","conn_namespace.go")],["OnRoomJoin/Joined callbacks","JoinRoom result","NSConn.Room"])

prop("C04","Leaving and disconnecting take effect only when allowed, once, in order",
"A voluntary leave or disconnect removes the membership only after the remote side answered without error (asking side) or, on a server answering a client, after the local callback accepted; when refused the membership stays and the error is reported to the asker. A removed room always gets its leave callback before and its left callback after removal, each exactly once (when several leaves of one room race, each of them runs the leave callback but only the one that removes the room the left callback), and a namespace that is disconnected has all of its rooms left first. After a successful leave or disconnect the membership is gone.",
["inputs","histories","schedules"],"every disconnect/leave on either side, single or all-at-once, every verdict and remote answer",
"the tests leave one accepted room and never veto, never disconnect explicitly, never combine rooms with disconnects",
["conn.go","conn_namespace.go"],[("askDisconnect/replyDisconnect/DisconnectAll","conn.go"),("askRoomLeave/replyRoomLeave/LeaveAll/forceLeaveAll","conn_namespace.go")],
[("Conn.connectedNamespaces","namespace memberships","conn.go"),("NSConn.rooms","room memberships","conn_namespace.go")],["OnRoomLeave/OnRoomLeft/OnNamespaceDisconnect callbacks","results of Leave/Disconnect"])

prop("C05","Every request from the remote side gets exactly one answer",
"An incoming connect, disconnect, join or leave request that carries a reply token is answered exactly once, under that same token, with success when it was granted (or already in effect) and with the error otherwise, unless the connection closes meanwhile. A request for a namespace that is not declared or not connected is answered with the bad-namespace error instead of being left unanswered, and a request without a token, or a no-op one, changes nothing. An error or reply returned by an ordinary event handler is sent back under the request's own token, namespace, room and event.",
["inputs","histories"],"every incoming message, every membership state and every callback verdict",
"tests observe only requests that succeed or one unknown namespace; nothing counts answers or checks tokens",
["conn.go","conn_namespace.go"],[("handleMessage and the reply* family","conn.go, conn_namespace.go"),("tryNamespace","conn.go")],
[],["frames written in response to an incoming frame"])

prop("C06","Ask returns its own answer, and always returns",
"Ask on a connection registers for its answer before the question is sent, under a token no other pending question shares, and returns only the answer that carries that token together with that answer's error. A blocked Ask is released by its context ending and by the connection closing, and on every way out its registration is gone. An answer that is late, duplicated or unknown never blocks the connection's reader and is never taken for an event.",
["schedules","inputs","fault_sequences"],"every interleaving of concurrent asks, cancellations, duplicate or late answers and Close",
"TestAsk asks sequentially and always gets an answer; cancellation, close during Ask, duplicate answers and concurrent asks are never sampled",
["conn.go","message.go"],[("ask","conn.go: Conn.ask"),("answer delivery","conn.go: Conn.handleMessage"),("token generation","message.go: genWait")],
[("Conn.waitingMessages","pending questions by token","conn.go")],["Ask result","reader progress"])

prop("C07","Server-wide Ask returns its own answer, and always returns",
"Server.Ask registers for the answer before it broadcasts the question, returns the first answer that carries its own token with that answer's error, is released by its context ending, and leaves no registration behind on any way out. Answers arriving late or from several clients never block any connection's reader. With a scale-out backend the question carries a token marked as coming from the backend and the answer is routed back through that backend under the very token the asker waits on.",
["schedules","inputs","fault_sequences"],"every number of answering clients, every timing of cancellation and answers, with and without a scale-out backend",
"TestServerAsk has exactly one answering client and no timeout; the backend path has no test at all",
["server.go","conn.go","message.go"],[("Server.Ask","server.go"),("answer delivery","conn.go: Conn.handleMessage"),("token marking","message.go: genWaitStackExchange, DeserializeMessage, serializeMessage")],
[("Server.waitingMessages","pending server-wide questions by token","server.go")],["Server.Ask result","reader progress"])

prop("C08","Close tears a connection down completely and exactly once",
"However often and from wherever Close is called, the teardown runs once: every connected namespace has its rooms force-left and its disconnect callback fired with the forced and local flags and is then gone, pending asks are dropped, the close notification is signalled, the server is told, and the network connection is closed. The teardown happens on every way the read loop ends. After Close has started the connection reports closed, Write refuses, and it is no longer acknowledged.",
["schedules","fault_sequences","histories"],"every number and timing of Close calls, read errors, write errors and server shutdown",
"tests close once at the end and look at nothing afterwards",
["conn.go","client.go"],[("CAS guarded teardown","conn.go: Conn.Close"),("deferred Close","conn.go: Conn.startReader")],
[("Conn.closed","closed flag","conn.go"),("Conn.closeCh","close notification","conn.go")],["OnNamespaceDisconnect/OnRoomLeave callbacks","NotifyClose","Server.OnDisconnect"])

prop("C09","A client is admitted only by the server's verdict",
"A server connection starts handling application messages only after the client's handshake arrived and the server's connect callback (and scale-out backend) accepted; if either rejects, the client receives the rejection text, no application message of it is handled, and the connection ends in any case. Writing to the connection, or connecting it to a namespace, from inside the connect callback counts as acceptance so far; native-only connections have no handshake. The connection ID on the server comes only from the ID generator and on the client only from the server's acknowledgement: a server ignores acknowledgement frames and a client ignores handshake frames. Dial returns a usable client exactly when the acknowledgement arrived, and otherwise the rejection or read error.",
["inputs","schedules"],"every first frame a client may send, every verdict, every interleaving of broadcasts with the connect callback",
"all tests accept every client and use the bundled well-behaved clients",
["conn.go","server.go","client.go","waiter_once.go"],[("ACK handling","conn.go: Conn.handleACK, Conn.startReader, Conn.sendClientACK"),("verdict","server.go: Server.Upgrade")],
[("Conn.acknowledged","handshake completed","conn.go"),("Conn.readiness","server's verdict","conn.go")],["Dial result","frames handled before/after admission","Conn.ID"])

prop("C10","Shared state is only touched under its lock",
"Every access to a connection's memberships, rooms, pending asks, pre-handshake queue and value store, and to the server's pending asks, happens while one common lock of the owning object is held, exclusively for writes. The set of live connections of a server, and the subscriber tables of the scale-out backends, are only touched by the one goroutine that owns them, except in accessors documented as not thread safe. No access path, on any side of any branch, is exempt.",
["schedules"],"every pair of goroutines using one connection or server",
"a data race shows only in a lucky interleaving; the suite runs with one processor and without the race detector",
["conn.go","conn_namespace.go","server.go","process.go","broadcaster.go","stackexchange/redis/stackexchange_redis.go","stackexchange/nats/stackexchange_nats.go"],
[("per-field mutexes","conn.go, conn_namespace.go, server.go"),("owner goroutines","server.go: Server.start; stackexchange run")],[],[])

prop("C11","No lock is leaked, reversed, or held across callbacks or waits",
"Every lock taken is released exactly once on every way out of the operation, and never released when not held. While an internal lock is held (a transport's frame lock around its own network write aside) no user callback runs, no network or backend operation is performed, and nothing blocks on a channel, wait group or sleep, and the same lock is never acquired again. Any two locks are always nested in the same order.",
["schedules","inputs","fault_sequences"],"every operation, every error path, every re-entrant use of the API from a callback",
"deadlocks need a callback or peer that re-enters at the wrong moment; tests never re-enter while a lock is held",
["conn.go","conn_namespace.go","server.go","process.go","broadcaster.go","gorilla/socket.go","gobwas/socket.go","stackexchange/nats/stackexchange_nats.go"],
[("lock/unlock pairs","all files"),("snapshot then act","Conn.DisconnectAll, NSConn.LeaveAll, NSConn.forceLeaveAll, Conn.Close, Conn.handleQueue")],[],[])

prop("C12","Encoder and decoder agree on every field of the wire format",
"For every message, decoding its encoded form gives back the same reply token, namespace, room, event, no-op flag, and either the body or an error with the same text (a registered error, also one that recognises texts by its own ResolveError, is the identical value), and only separators inside namespace, room and event are escaped and unescaped, symmetrically. The empty acknowledgement has the same field count as a full message. Input with too few fields is marked invalid, or is delivered whole as a native message when native messages are allowed, and native-only connections never parse.",
["inputs"],"every combination of field values, including separators in any field, empty errors and native bodies",
"message_test samples nine messages",
["message.go"],[("field order and count","message.go: serializeOutput, deserializeInput, genEmptyReplyToWait"),("escaping","message.go: escape, unescape")],[],["Message.Serialize","DeserializeMessage"])

prop("C13","No bytes from the remote side can crash the process",
"Whatever bytes arrive, before or after the handshake, the library code that reads, decodes, dispatches and answers them never panics: no out-of-range index or slice, no nil map write, nil dereference or failed type assertion, no double close or send on a closed channel, no explicit panic. Malformed input is dropped or reported as invalid and the connection goes on.",
["inputs","histories"],"every byte string in every connection state",
"the tests only feed well-formed frames produced by the library itself",
["conn.go","message.go","conn_namespace.go","event.go","waiter_once.go"],[("length checks before indexing","conn.go: startReader; message.go: deserializeInput, DeserializeMessage, IsWait")],[],["HandlePayload on arbitrary payloads"])

prop("C14","A broadcast reaches exactly the addressed connections",
"For each message of a broadcast separately, every live connection other than the excluded sender (by connection for a connection or namespace connection, by ID for any other stringer) and, when a recipient is named, only connections with that ID, are offered the message; one message not meant for a connection never suppresses another message of the same call. Delivery to a connection stops early only when that connection is closed. The caller's messages are not modified and are not retained. A namespace connection's Broadcast excludes nobody, its BroadcastOthers exactly its own connection.",
["inputs","histories"],"every number of messages per call, every mix of recipients and exclusions, every delivery mode",
"TestServerBroadcastTo sends one message to one recipient",
["server.go"],[("per connection filter","server.go: publishMessages"),("exclusion marking","server.go: Server.Broadcast")],[],["frames received per connection"])

prop("C15","Asynchronous broadcasts are neither lost nor duplicated",
"In the default delivery mode every connection present when a broadcast starts is handed that broadcast's messages exactly once and in broadcast order, no matter how many broadcasts follow before it gets to run. A connection waiting for the next broadcast is released when it closes. Publishing does not wait for any connection's delivery.",
["schedules","histories"],"every rate and interleaving of broadcasts with connections arriving, delivering slowly and closing",
"a lost or repeated message needs two broadcasts racing one waiting connection; tests broadcast one at a time",
["broadcaster.go","server.go"],[("chain of published batches, one cursor per connection","broadcaster.go"),("delivery loop","server.go: Server.Upgrade, Server.waitMessages")],[],["frames received per connection"])

prop("C16","The server's view of its connections is exact",
"A connection is counted and listed exactly from its registration to its first disconnection, and the count always moves together with the list. The server's disconnect callback runs at most once per registered connection, and is skipped only for connections that never became ready or were rejected, unless configured to fire always; the scale-out backend is told of every disconnection of a registered connection in all cases. After the server is closed every live connection is closed and new upgrades are refused.",
["histories","schedules"],"every sequence of connects, rejections, closes and shutdown",
"no test reads the count, registers a disconnect callback or combines rejection with a backend",
["server.go"],[("single event loop","server.go: Server.start"),("Close","server.go: Server.Close, Server.Upgrade")],
[("Server.connections","live connections","server.go"),("Server.count","their number","server.go")],["GetTotalConnections","OnDisconnect"])

prop("C17","Scale-out backends are driven completely and symmetrically",
"Every server connection is announced to the scale-out backend before the server's connect callback runs, is subscribed to each namespace it connects to after membership is in effect, unsubscribed from each namespace it is disconnected from, and an announcement failure rejects the connection. With a backend, broadcasts go through it only. When several backends are registered every operation is forwarded to all of them with unchanged arguments, a publish succeeds only if all succeed, a connection is accepted only if all accept, and asking or notifying tries the next one when one fails.",
["configurations","histories","fault_sequences"],"zero, one or many backends, every failing one, every lifecycle",
"no test uses a backend",
["stackexchange.go","server.go","conn.go"],[("hooks","conn.go: notifyNamespaceConnected, notifyNamespaceDisconnect; server.go: Upgrade, start, Broadcast"),("composition","stackexchange.go: stackExchangeWrapper")],[],["calls received by the backend"])

prop("C18","Redis and NATS backends address, deliver and clean up alike",
"In each backend the address a message is published to is the address the receiving connections subscribe to: the connection's own for a named recipient, otherwise the namespace's. Each received message is decoded, marked as coming from the backend and written through the connection's normal checks; publish failures are reported and stop the batch. Every backend connection or subscription opened for a client or for a question is closed on every way out, including failures, and a disconnected client's subscriber is closed and forgotten.",
["fault_sequences","inputs","histories"],"every failure point of the backend, every recipient/namespace, every lifecycle",
"both adapters have no tests at all: they need live servers",
["stackexchange/redis/stackexchange_redis.go","stackexchange/nats/stackexchange_nats.go"],[("getChannel/getSubject","both files"),("OnConnect, Ask, run","both files")],[],["commands issued to redis/nats"])

prop("C19","Both transports write whole frames, one at a time, within deadlines",
"Each transport serialises everything it writes to the connection, data frames and control answers alike, together with the write deadline they use, so frames of concurrent writers never interleave and a writer never runs under another's deadline. A read or write with a positive timeout always has its deadline set first. Reads return only complete text or binary messages with their true type, and every error of the underlying connection is returned.",
["schedules","inputs","fault_sequences"],"every set of concurrent writers, every frame sequence from the peer, every failing call",
"interleaving needs two writers in a window of nanoseconds; no test sends control frames or sets timeouts",
["gorilla/socket.go","gobwas/socket.go"],[("write mutex","Socket.write in both packages"),("deadlines and opcode filter","Socket.ReadData in both packages")],[],["bytes on the connection"])

prop("C20","Struct handlers bind the right methods to a private instance",
"Only exported methods with exactly the message-handler signature for their kind of struct become event handlers; lifecycle methods are registered under the lifecycle event's name and bypass the event matcher, and all others under the name the matcher gives, or not at all when it declines. A struct with a namespace-connection field gets a fresh instance for every namespace connection, holding that connection and the preset non-zero exported fields, in place before its connect callback runs, and every later event of that connection is delivered to that same instance.",
["programs","schedules","inputs"],"every handler struct type, every matcher, every number of simultaneous connections",
"three tests use one struct each and a single connection at a time",
["reflect.go","conn_handler.go"],[("makeEventsFromStruct, makeEventFromMethod","reflect.go")],[("NSConn.value","this connection's instance","conn_namespace.go")],["which method and instance handles an event"])

prop("C21","Combining handlers keeps every event and changes no input",
"Combining connection handlers yields every namespace and event of every input, the later one winning when two define the same event of the same namespace, and never modifies or shares the inputs' own tables. A plain events table acts as the empty namespace, and read and write timeouts given with a WithTimeout or struct handler reach every connection created from it, each in its own role, on server and client alike.",
["inputs","programs"],"every list of handlers, overlapping or not",
"one example test joins nothing; no test inspects the inputs afterwards or uses timeouts",
["conn_handler.go","server.go","client.go"],[("JoinConnHandlers","conn_handler.go"),("getTimeouts","conn_handler.go; server.go: New, Upgrade; client.go: Dial")],[],["GetNamespaces of the result","deadlines in force"])

prop("C22","Readiness and connect gates never lose a wake-up",
"Once the readiness verdict is given, every past and future waiter returns with that same first verdict, however the calls interleave, and later verdicts are ignored. Everyone asking for a namespace's connect gate gets the same gate; a finished connect attempt always releases its waiters, also when it fails, and a later attempt on the same namespace holds new messages back again.",
["schedules","histories"],"every interleaving of waiting, verdicts, and concurrent or repeated connect attempts",
"the window between checking and blocking is never hit by a test",
["waiter_once.go","process.go","conn.go"],[("one-shot latch","waiter_once.go"),("per-namespace gate","process.go; conn.go: askConnect, tryNamespace")],[],["who is blocked after a verdict"])

prop("C23","The connection's value store is atomic",
"Get returns the value of the latest Set for that key, or nil when there is none. Increment and Decrement read, change by one and store the value as one indivisible step, also when many goroutines use the same connection, treat a missing or non-integer value as zero, and return the value they stored.",
["schedules","inputs"],"every set of goroutines and keys",
"no test uses the store concurrently",
["conn.go"],[("store mutex","conn.go: Set, Get, Increment, Decrement")],[("Conn.store","the values","conn.go")],["results of Get/Increment/Decrement"])

prop("C24","Only a valid request is turned into a connection",
"A request to a closed server, a HEAD probe, any method other than GET and a failed protocol upgrade each end with their own error and response and create, register and start nothing; a 405 response names GET as allowed and an upgrade failure is reported to the upgrade-error callback. Query parameters with the header prefix become request headers, with the prefix removed and all values kept, before the upgrade, and no other parameter does. A created connection always has its ID, server, timeouts and reconnect count set before it becomes visible to anyone else.",
["inputs","schedules"],"every request method, header and query, every server state",
"tests only perform successful GET upgrades",
["server.go"],[("Server.Upgrade, tryParseURLParamsToHeaders","server.go")],[],["HTTP response","connections registered"])

prop("C25","An event reaches its own handler, once",
"A message accepted for dispatch is given to the handler registered for exactly its event in its namespace, or to the any-event handler if there is none, exactly once, and otherwise to nobody; the handler's verdict is what the dispatcher returns. Messages marked invalid are never dispatched, ordinary messages of a namespace that is not connected are never dispatched, and on native-only connections every message goes to the native handler. A message received from the remote side is never presented to a handler as local, and the lifecycle callbacks of an operation that this side asked for itself (connect, disconnect, join, leave, close) always are.",
["inputs","histories"],"every event name, every handler table, every connection state",
"tests cover one event per namespace and one fallback",
["conn_handler.go","conn.go"],[("Events.fireEvent","conn_handler.go"),("Conn.handleMessage","conn.go")],[],["handler invocations"])

prop("C26","Messages sent before the handshake are kept, in order, once",
"Messages that arrive before the handshake completed are not handled until it has, are then handled exactly once each and in the order they arrived regardless of their frame type, before any message that arrives later (unless a handler of a kept message itself asks, which lets reading go on), and none is dropped. Once the handshake is complete every non-empty message read is handled.",
["inputs","schedules"],"every sequence of text and binary frames around the handshake",
"the bundled client sends nothing before the handshake",
["conn.go"],[("queue","conn.go: Conn.handleACK, Conn.handleQueue, Conn.startReader")],[("Conn.queue","early messages","conn.go")],["order of handler invocations"])

prop("C30","Waiting to be connected ends",
"A Connect on the server side waits for the client's handshake for a fixed time at most, whatever the client does or does not send: it asks, fires and registers something only once the connection is acknowledged, and otherwise gives up with no namespace and an error, which is ErrWrite when it found the connection closed. It can be called inside the server's connect callback. WaitConnect returns a namespace only when it is connected and the connection is acknowledged; once its context has ended it returns no namespace and the context's error instead of waiting on, and a nil context never ends. Neither waits without pausing.",
["schedules","inputs"],"every time at which the handshake, the close or the end of the context comes, or never comes",
"tests only use clients that acknowledge at once; a wait that never ends shows only with one that does not",
["conn.go"],[("Conn.Connect","conn.go"),("Conn.WaitConnect","conn.go")],[("Conn.acknowledged","handshake completed","conn.go")],["return of Connect and WaitConnect","callbacks and frames before the handshake"])

prop("C31","Failures of the transport are recognised and acted on",
"A write to the socket that fails is reported as not sent, and when the failure means that the connection is gone the connection is closed, for text and binary frames alike and for handshake frames too. IsCloseError holds exactly for a CloseError, for the end of the stream (io.EOF, io.ErrUnexpectedEOF), and for a network operation error whose cause is a failed system call or an already closed connection; IsTimeoutError exactly for a network operation error that reports a timeout; IsDisconnectError exactly when one of these two holds. None of them holds for nil.",
["inputs","fault_sequences"],"every error a transport can return, at every write",
"no test makes a write fail",
["conn.go","event.go"],[("Conn.write","conn.go"),("IsCloseError, IsTimeoutError, IsDisconnectError","event.go")],[],["Conn.Write result","Conn.IsClosed","results of the error predicates"])

prop("C32","Bodies are encoded and decoded by their object, or by the configured default",
"Marshal returns what the object's own Marshal method returns if it has one and otherwise what DefaultMarshaler returns, and the text of the error in place of the body when that fails. Message.Unmarshal gives exactly the message's body to the object's own Unmarshal method if it has one and otherwise to DefaultUnmarshaler, once, and returns its error. The defaults are looked up when they are needed, so that programs can set them.",
["inputs","configurations"],"every object type, every failure, every configured default",
"the tests marshal no object",
["message.go"],[("Marshal, Message.Unmarshal","message.go")],[("DefaultMarshaler, DefaultUnmarshaler","used for objects without methods of their own","message.go")],["body","error"])

prop("C27","Messages between two peers arrive in the order they were sent",
"For any two messages written by one goroutine on one connection, the remote side's handlers see them in that order.",
["schedules","histories"],"all write sequences and network behaviours",
"requires all schedules of two processes and the network",["conn.go","gorilla/socket.go","gobwas/socket.go"],[("single reader, ordered transport","conn.go")])
prop("C28","Generated connection IDs and server identities are unique",
"No two live connections of one deployment ever share a generated ID.",["histories","configurations"],"all histories of ID generation",
"uniqueness of random values is probabilistic",["server.go"],[("DefaultIDGenerator","server.go")])
prop("C29","A message published through a backend eventually reaches every node",
"A broadcast published on one server node is eventually delivered to the eligible connections of every other node sharing the backend.",["fault_sequences","schedules","configurations"],"all network and broker behaviours",
"needs brokers and several nodes",["stackexchange/redis/stackexchange_redis.go","stackexchange/nats/stackexchange_nats.go"],[("publish/subscribe","both adapters")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
