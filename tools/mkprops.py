#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
NT="The repository's tests cover only marshal and sbox encodings of a few fixed values; no test "

p("R01","Every request is completed exactly once",
 "However many completions of one request race (a worker's answer, a failure, a timeout, a cancellation, an I/O error, a shutdown), its responder is invoked exactly once. The single response carries the request's own id and message type and the code and body of one completion that was actually attempted; a failure carries no body. Every other completion, earlier refused or later, has no effect on the requester or on the delivered response.",
 ["schedules","histories"],"all interleavings of concurrent completers, senders and timers on one request, and all sequential orders of life-cycle operations",
 NT+"touches a request's life cycle, and a race between completers cannot be sampled by a few runs.",
 ["request.go","response.go"],[("state machine guarded by the request mutex and CAS","request.go:RespondBytes,RespondFail,SetPending,SetInFly,chainResponse")],
 ["Responder.Respond calls","Response fields"],[dict(name="request state",meaning="new/pending/in-flight/prepared/performed",where="request.go")])
p("R02","Interceptors run once each, last added first, before the requester",
 "Interceptors attached to a request see its response exactly once each, in the reverse order of attachment, before the requester does, and can only be attached while the request is new or queued. An interceptor may take the completed request back for a retry; then neither the remaining interceptors nor the requester see that completion, the request can be sent and completed again, and its timeout stays armed. Interceptors that were already passed are not invoked again by the retry.",
 ["schedules","histories"],"all sequences of attach/complete/retry on a request and all interleavings of attaching and retrying with concurrent completions and the timeout",
 NT+"attaches an interceptor or retries a request; the order and once-only guarantees range over histories.",
 ["request.go","response.go","stat.go"],[("bookmark chain","response.go:Bookmark.setReq,unchain"),("chain walk","request.go:chainResponse"),("retry","request.go:ResetToPending,ResetToNew")],
 ["interceptor Respond calls","Responder.Respond calls"])
p("R03","A request completed before service is never executed",
 "A request that has been completed (cancelled, timed out, failed) before a worker takes it is never handed to a handler and never transmitted. Taking a request for work and completing it by failure are mutually exclusive decisions on a queued request: a worker either obtains it before it is completed or not at all, and at most one worker ever obtains it. Sending an already completed request is a harmless no-op.",
 ["schedules","histories"],"all interleavings of send, cancel, timeout and worker pick-up, for function services, queued services, parallel services and network clients",
 NT+"cancels a request; the race between cancellation and pick-up is a schedule property.",
 ["request.go","service.go","parallel_service.go","buffer.go","net/client/connection/connection.go"],
 [("SetInFly succeeds only from pending","request.go:SetInFly"),("worker skips on failed SetInFly","parallel_service.go:Loop; connection.go:writeLoop"),("performed requests ignored by Send","service.go:SimplePoint.Send, SF.Send")],
 ["handler invocations","frames read by the peer","responses"])
p("C01","Cancelling or expiring a context completes everything under it",
 "When the call that cancels or expires a context returns, every request created before from that context or from its unfinished descendant contexts has been answered, with the cancellation code unless another answer had already begun. A request, multi request or child context created from it concurrently with or after that call is itself cancelled and its requests are never executed afterwards. Requests answered before the cancellation keep their answers, and the first of cancel and expire decides the state the context reports.",
 ["schedules","histories"],"all interleavings of creating and sending requests, answering them, and cancelling or expiring a context tree",
 NT+"uses a context; missing one request registered during cancellation needs a particular interleaving.",
 ["context.go","request.go"],[("registration of cancelers","context.go:AddCanceler,RemoveCanceler"),("cancelAll loop until nothing is registered","context.go:cancelAll"),("state check at creation","context.go:NewRequest,NewMulti,Child")],
 ["responses of the requests","handler invocations","return of Cancel/Expire","context state queries"])
p("C02","Context tasks run once and WaitAll waits for all of them",
 "A function started through a live context runs exactly once, with a child context that is cancelled whenever the parent is; a function started through a dead context is not run. Waiting for all work of a context returns only after every task, request and collected multi request registered with it before the wait began has finished, and it does return, for every waiter, once they all have. A child context reports itself dead as soon as it has been cancelled by its parent.",
 ["schedules","histories"],"all interleavings of starting tasks, finishing them, finishing requests, waiting and cancelling",
 NT+"starts a task in a context.",
 ["context.go"],[("child registration","context.go:Child,Go,GoInt,GoAsync,GoIntAsync,Done"),("condition variable","context.go:WaitAll,RemoveCanceler")],
 ["task starts and ends","return of WaitAll"])
p("M01","A multi request yields exactly one response per issued request",
 "Collecting a multi request, as a list or as a stream, yields exactly one response for each request issued through it, tagged with that request's position in issue order, whether the answers arrive before, during or after collection starts and from any number of goroutines. The list is returned, and the stream is closed, only after the last of them and without fail. Cancelling or expiring the multi request, or its timeout, answers every request that is still outstanding with that code (only an expiry leaves requests a parallel service is working on to their handlers) and leaves the others' answers intact.",
 ["schedules","histories"],"all interleavings of issuing, answering, collecting, cancelling and expiring; any number of requests",
 NT+"uses a multi request.",
 ["wait_group.go"],[("counters and hand-over from list to channel","wait_group.go:Request,Respond,Each,Results"),("failing the outstanding ones","wait_group.go:performFailAll")],
 ["responses from Results/Each","closing of the stream"])
p("T01","Timers fire once, never early, and always",
 "An armed timer fires exactly once, never before its delay has elapsed, and it always does fire soon after, whatever other timers are armed, stopped or fire around it and in whatever order. A timer stopped before its deadline never fires. A timer that fired or was stopped can be armed again.",
 ["schedules","inputs","histories"],"all sequences of arming and stopping any number of timers with any delays, and all interleavings with the expiry loops",
 NT+"arms a timer; heap corruption needs particular orders of deadlines and removals and a lost wake-up needs a particular interleaving.",
 ["custom_timer.go","epoch.go"],[("four-ary heaps","custom_timer.go:push,remove,putUnder,sort4"),("expiry loop","custom_timer.go:tHeap.loop")],
 ["Expire callbacks and their times"])
p("S01","A parallel service bounds concurrency and always answers",
 "A parallel service of width N never runs more than N handlers at once and can always run N again, whatever earlier handlers did. Each request it serves is answered with exactly what its handler returned, or with the internal-error code if the handler panicked. While a handler runs, a timeout only expires the handler's context and the handler's own result still becomes the answer, whereas a cancellation answers the requester immediately and cancels the handler's context.",
 ["schedules","histories","inputs"],"all mixes of returning, panicking, slow, cancelled and timed-out requests and all their interleavings, any width",
 NT+"runs a service.",
 ["parallel_service.go","request.go"],[("semaphore of N slots","parallel_service.go:Loop,inc"),("request context as interceptor","request.go:ReqContext")],
 ["handler starts and ends","responses"])
p("S02","Stopping a service answers everything and starts nothing new",
 "After a parallel service is stopped, requests already being handled complete normally, and every other request, whether queued at that moment, racing with the stop or sent later, is answered with the shutdown code. No handler is started for a request that is sent after the stop has returned. Stopping never blocks, panics or loses a request, even while requests overflow the queue.",
 ["schedules","histories"],"all interleavings of sends, handler completions and stop; any queue depth",
 NT+"stops a service.",
 ["parallel_service.go","service.go","buffer.go"],[("exit channel and drain","parallel_service.go:Loop"),("stop","service.go:SimplePoint.Stop")],
 ["responses","handler starts","return of Stop"])
p("Q01","Service queues lose nothing, duplicate nothing and keep order",
 "Every request accepted by a running service reaches a worker exactly once unless it is completed first, in which case it is dropped or ignored without disturbing the others. Requests sent one after the other by the same sender are received in that order. This holds at any queue depth, in particular while the bounded queue overflows into the elastic one and back, and sending never blocks on a slow worker.",
 ["schedules","inputs","histories"],"any number of senders and requests, any consumer speed, all interleavings around overflow and refill",
 NT+"queues a request; overflow takes more than sixteen thousand queued requests.",
 ["buffer.go","service.go"],[("bounded channel plus elastic ring of rows","buffer.go:push,loop")],
 ["order of requests received from the service channel"])
p("N01","A client gives each answer to the request it belongs to",
 "Over one connection the client sends each request with an id that no other unanswered request on that connection uses and that is neither zero nor the ping id. It completes each request with the code and body of the first response frame carrying that request's wire id, in whatever order responses come, under the caller's own id. Responses with unknown ids, repeated responses and responses to requests that already timed out or were cancelled change nothing for any other request, before or after, and never crash the client.",
 ["schedules","inputs","histories"],"any number of concurrently outstanding requests and any sequence of response frames a server may send",
 NT+"opens a connection.",
 ["net/client/connection/connection.go","net/client/connection/request_holder.go"],[("id allocation and lookup","request_holder.go:getNext,remove"),("read loop","connection.go:readLoop")],
 ["frames seen by the server","responses"])
p("N02","Losing connections fails requests promptly and the client recovers",
 "When a connection is lost, at whatever point, every request that was sent over it and not answered is completed with the I/O-error code, within about the ping interval at the latest. Requests waiting while no connection can be established are completed with the I/O-error code as well (or by their own timeout) rather than kept for ever. The client keeps reconnecting, and once the server is reachable again new requests are served.",
 ["fault_sequences","schedules","histories"],"connection loss at any byte or frame boundary, on either side, any sequence of outages, any number of outstanding requests",
 NT+"opens or breaks a connection.",
 ["net/client/connection/connection.go","net/client/server.go"],[("flush of in-flight","connection.go:flushInFly,controlLoopExit"),("reconnect ticker and drain","net/client/server.go:fixConnections,onConnError,AllDisconnected")],
 ["responses","connections accepted by the server"])
p("N03","The client keeps its configured number of connections and stops cleanly",
 "A client keeps as many live connections as configured, restores that number after losses, and follows later changes of the number up and down without dropping requests that are in flight. It closes no connection that is neither lost nor surplus: an idle one is kept by its pings. Stopping it, at any moment and whether or not it is connected, does not block: in-flight requests whose answers arrive are completed with them, all others sent before or after are completed all the same, those sent once its connections are closed with a shutdown or I/O-error code, all its connections are closed, no new one is opened, and its own loop comes to an end.",
 ["schedules","histories","configurations","fault_sequences"],"all pool sizes, resize sequences, stop times and outages",
 NT+"opens a connection.",
 ["net/client/server.go","net/client/connection/connection.go","service.go"],[("pool accounting","net/client/server.go:fixConnections,onConnError,Loop"),("graceful close","connection.go:writeLoop,controlLoop")],
 ["connections accepted and closed at the server","responses","return of Stop"])
p("V01","A server answers every request frame exactly once",
 "For every request frame received on an open connection, whose id no other unanswered request of that connection carries, the server writes exactly one response frame with the same id and message type and with the code and body its service gave, in any order, at any pipelining depth and however slowly the peer reads; a response does not wait for requests that are still in service. Every ping is answered with an empty ping frame of the same id that carries no return code. Requests of one connection never influence the ids, codes or bodies seen on another, even when ids coincide.",
 ["schedules","inputs","histories"],"any number of connections, requests and pings, any order and concurrency of answers, any pipelining depth",
 NT+"runs a server.",
 ["net/server/connection.go","net/server/server.go","net/header.go"],[("in-flight table and out queue with overflow buffer","net/server/connection.go:readLoop,Respond,writeLoop,cleanBuffer")],
 ["bytes read by the peer"])
p("V02","Internal return codes never leave the server",
 "A server never writes a return code of the internal kind. An internal code produced by the service is replaced by the configured substitute if there is one and otherwise by the fatal code with the same upper part, while codes of every other kind are written unchanged. A configuration that maps a non-internal code, or maps to an internal one, is refused.",
 ["inputs","configurations"],"all return codes, all substitution tables",
 NT+"runs a server.",
 ["net/server/connection.go","net/server/server.go"],[("code mapping","net/server/connection.go:Respond"),("validation","net/server/server.go:NewServer")],
 ["return codes in response frames"])
p("V03","Server connections drain on half-close and release everything on loss",
 "When a peer closes its sending side, the server still answers every request received before, flushes the answers and then closes its side. When a peer is lost, requests of that connection that are still in service are cancelled, and other connections are unaffected. Stopping the server stops accepting, drains every connection the same way, and its completion signal is given only after all connections are finished, and always is; none of this panics or leaves a connection open.",
 ["schedules","fault_sequences","histories"],"close, loss or stop at any point relative to reading, serving and answering, any number of connections",
 NT+"runs a server.",
 ["net/server/connection.go","net/server/server.go"],[("control loop states","net/server/connection.go:controlLoop,cancelInFly,closed"),("stop","net/server/server.go:Stop,controlLoop")],
 ["bytes and EOF at the peer","cancellation of request contexts","Running channel"])
p("W01","Frames are encoded and decoded exactly, however the bytes arrive",
 "A frame is the little-endian triple of message type, length and id, followed, in responses other than pings, by a return code of the configured zero, one or four bytes counted in the length, followed by the body. Reading a stream yields exactly the frames that were written, independently of how the bytes are split across reads and writes and for any body size, and a stream that ends inside a frame yields an error instead of a frame. A delivered body never changes afterwards.",
 ["inputs","configurations"],"all frame sequences, body sizes, return-code widths and segmentations",
 NT+"reads or writes a frame; segmentation and buffer boundaries are unbounded.",
 ["net/header.go","net/slice_reader.go","net/buf_writer.go"],[("codec","net/header.go"),("buffering","net/slice_reader.go; net/buf_writer.go")],
 ["bytes written","frames read"])
p("X01","Encoding follows the declared layout and decoding inverts it",
 "Encoding a value of any supported type produces exactly the bytes its layout declares: little-endian fixed-width numbers, base-128 variable-length sizes and numbers most significant group first, sizes and counts in the declared width, skipped fields absent, nested values in place. Decoding those bytes into the same type gives back an equal value and consumes exactly those bytes. The result does not depend on what was encoded or decoded before or concurrently.",
 ["inputs","programs","schedules"],"all supported types (nested structures, arrays, slices, strings, tags) and values",
 "The existing tests encode and decode a handful of fixed values of a few types; the claim is over all types and values.",
 ["marshal/writer.go","marshal/writer_any.go","marshal/writer_reflect.go","marshal/reader.go","marshal/reader_any.go","marshal/reader_reflect.go"],[("reflection-built codecs","marshal/writer_reflect.go; marshal/reader_reflect.go")],
 ["bytes","decoded values","remaining bytes"])
p("X02","Decoding malformed data fails cleanly",
 "Decoding data that is too short, has trailing bytes where none are allowed, or declares impossible sizes or counts reports an error and never panics, reads out of bounds or loops. Once a decoder has failed it stays failed and consumes nothing more. Data that is a valid encoding never produces an error.",
 ["inputs","programs"],"all byte strings (truncations, extensions and mutations of valid encodings) and all supported types",
 "The existing tests decode only well-formed input.",
 ["marshal/reader.go","marshal/reader_any.go","marshal/reader_reflect.go"],[("length checks and sticky error","marshal/reader.go")],
 ["returned error","panics","remaining bytes"])
p("B01","Storage requests are encoded as the protocol prescribes",
 "Every select, store, update, delete and procedure-call request is encoded with its protocol request code, its header fields in order, and a key or tuple count that equals the number of tuples that follow. Each tuple is its field count followed by its fields, each prefixed with its variable-length size. This holds for every accepted form of keys, tuples and operations.",
 ["inputs"],"all accepted shapes and values of keys, tuples, operations, flags and limits",
 "The existing tests encode a few fixed requests.",
 ["sbox/select.go","sbox/modify.go","sbox/rpc.go","sbox/writer.go"],[("request writers","sbox/select.go; sbox/modify.go; sbox/rpc.go"),("tuple writers","sbox/writer.go")],
 ["encoded bytes"])
p("B02","Storage tuples decode into exactly what was sent",
 "Reading a storage response fills the destination with exactly the tuples the response contains, field by field and in order, and reports how many there were and how many were read. A destination with fewer places than tuples takes a prefix, and one with more is left untouched beyond the received ones. A truncated response yields an error and no malformed response a panic, and a tuple that does not fit its destination never changes how the other tuples are read.",
 ["inputs","programs"],"all responses (valid, truncated, mismatching) and destination shapes",
 "The existing tests decode a few fixed responses.",
 ["sbox/result.go","sbox/reader.go"],[("tuple readers","sbox/reader.go"),("result readers","sbox/result.go")],
 ["decoded tuples, counts and errors"])
p("A01","Composed services route each request to exactly one place",
 "A balancer hands every request to exactly one of its children and keeps working while any child does. A statistics wrapper reports every answered request exactly once and leaves the answer unchanged. The automatic client registry gives all concurrent callers the same client for the same address and distinct clients for distinct addresses.",
 ["schedules","histories"],"all interleavings of concurrent callers and completions",
 NT+"composes services.",
 ["balancer.go","stat.go","net/client/auto.go"],[("shared queue","balancer.go"),("interceptor","stat.go"),("copy-on-write registry","net/client/auto.go:Get")],
 ["handler invocations","statistics callbacks","returned clients"])
p("E01","Client and server together behave like a local call",
 "A request sent by this library's client to this library's server is executed at most once, with exactly the message type and body that were sent, and its response carries exactly the code and body the handler produced (after internal codes are substituted). This holds for any number of concurrent requests of any size over any number of connections and for every return-code width. A request whose response is not a timeout, cancellation, shutdown or I/O error was executed exactly once.",
 ["schedules","inputs","configurations","fault_sequences"],"any number of concurrent callers, body sizes, connection counts, return-code widths and connection losses",
 NT+"connects a client with a server.",
 ["net/client/server.go","net/client/connection/connection.go","net/server/connection.go","net/header.go"],[("client and server loops","net/client/connection/connection.go; net/server/connection.go")],
 ["handler invocations","responses"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),[x['id'] for x in P if len(x['title'])>80])
