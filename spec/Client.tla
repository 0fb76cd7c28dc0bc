------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* What a client and the peers behind its connections may do to each      *)
(* other, seen from the two ends: the caller and the peer.                *)
(*                                                                         *)
(* Requests and connections are numbered.  Wire ids, codes and messages    *)
(* are strings; bodies are digests.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"
EnfAny(S) == PROP \in S \/ PROP = "ALL"
Net == {"N01", "N02", "N03"}

IoError == "fe03"
Shut == "ff03"        \* shutdown and cancelled are the same code
NoWire == <<0, "">>

VARIABLE c
\* req: r -> [st: 0 new, 1 sent, 2 done; id, msg, b; kills: codes somebody has tried;
\*            wire: <<connection, wire id>>; late: sent after the client had closed everything;
\*            void: it was completed before it was sent;
\*            stalled: connections that were stalled when it was sent; ban: where it must not appear any more]
\* conn: k -> [pong: the peer has answered the first ping; dead: the peer has begun to end it;
\*             eof: the client has closed its side; ids: wire id -> request;
\*             first: wire id -> first response; sure: wire ids whose first response was written before the end;
\*             gone: requests completed before the pong]
\* need: connections configured; stop: 0 running, 1 being stopped, 2 stop returned, 3 all closed
\* dead: some connection has been lost; shrunk: the number was changed; fails: dialing may have failed
CInit == c = [req |-> <<>>, conn |-> <<>>, need |-> 0, stop |-> 0, dead |-> FALSE, shrunk |-> FALSE, fails |-> FALSE]

Req(r) == c.req[r]
Sent == {r \in 1..Len(c.req) : c.req[r].st = 1}
Done == {r \in 1..Len(c.req) : c.req[r].st = 2}
Put(r, q) == c' = [c EXCEPT !.req[r] = q]
PutC(k, n) == c' = [c EXCEPT !.conn[k] = n]

Conf(n) == c' = [c EXCEPT !.need = n, !.shrunk = @ \/ c.need > 0]
New(r, id, msg, b, to) ==
  /\ r = Len(c.req) + 1
  /\ c' = [c EXCEPT !.req = Append(@, [st |-> 0, id |-> id, msg |-> msg, b |-> b, kills |-> (IF to THEN {"fd03"} ELSE {}),
                                       wire |-> NoWire, late |-> FALSE, void |-> FALSE, stalled |-> {}, ban |-> {}])]
Stalled == {k \in 1..Len(c.conn) : c.conn[k].stall}
\* just before Send
Send(r) == IF Req(r).st = 2 THEN Put(r, [Req(r) EXCEPT !.void = TRUE])
           ELSE Put(r, [Req(r) EXCEPT !.st = 1, !.late = (c.stop = 3), !.stalled = Stalled])
\* somebody is about to complete it
Kill(r, code) == Put(r, [Req(r) EXCEPT !.kills = @ \cup {code}])

(***************************** the peer's side *****************************)
Accept(k) ==
  /\ k = Len(c.conn) + 1
  /\ TRUE = (Enf("N03") => c.stop < 3)
  /\ c' = [c EXCEPT !.conn = Append(@, [pong |-> FALSE, dead |-> FALSE, eof |-> FALSE, stall |-> FALSE,
                                         ids |-> <<>>, first |-> <<>>, sure |-> {}, gone |-> {}])]
\* just before the first ping is answered; a request completed before can not be taken by this connection
Pong(k) == PutC(k, [c.conn[k] EXCEPT !.pong = TRUE, !.gone = Done])
\* the first frame has to be a ping with the ping id and nothing in it, and so have all the others
Ping(k, id, len) == /\ TRUE = (EnfAny(Net) => id = "ffffffff" /\ len = 0)
                    /\ UNCHANGED c
Busy(n, id) == id \in DOMAIN n.ids /\ id \notin DOMAIN n.first
\* a request came over connection k
Recv(k, id, r, msg, b) ==
  LET n == c.conn[k] IN
  /\ TRUE = (EnfAny(Net) => r \in 1..Len(c.req) /\ n.pong)
  /\ r \in 1..Len(c.req)
  /\ TRUE = (Enf("N01") => /\ Req(r).st > 0 /\ Req(r).wire = NoWire
                           /\ msg = Req(r).msg /\ b = Req(r).b
                           /\ id # "0" /\ id # "ffffffff"
                           /\ ~Busy(n, id))
  /\ TRUE = (EnfAny({"R03", "N01"}) => r \notin n.gone /\ k \notin Req(r).ban /\ ~Req(r).void)
  /\ TRUE = (Enf("N03") => ~Req(r).late)
  /\ c' = [c EXCEPT !.req[r].wire = <<k, id>>,
                    !.conn[k] = [n EXCEPT !.ids = (id :> r) @@ @,
                                          !.first = [x \in DOMAIN @ \ {id} |-> @[x]],
                                          !.sure = @ \ {id}]]
\* just before a response is written, perhaps for an id nobody asked with
Resp(k, id, code, b) ==
  LET n == c.conn[k] IN
  IF id \in DOMAIN n.ids /\ id \notin DOMAIN n.first
  THEN PutC(k, [n EXCEPT !.first = (id :> <<code, b>>) @@ @])
  ELSE UNCHANGED c
\* it was written: nothing can keep it from the client any more
Wrote(k, id) ==
  LET n == c.conn[k] IN
  IF id \in DOMAIN n.first /\ ~n.dead THEN PutC(k, [n EXCEPT !.sure = @ \cup {id}]) ELSE UNCHANGED c
\* just before the peer closes it or breaks it off
Dead(k) == c' = [c EXCEPT !.conn[k].dead = TRUE, !.dead = TRUE]
Down == c' = [c EXCEPT !.fails = TRUE]
\* the client closes its side: not without a reason
Eof(k) ==
  /\ TRUE = (Enf("N03") => c.conn[k].dead \/ c.stop > 0 \/ c.shrunk \/ c.fails)
  /\ PutC(k, [c.conn[k] EXCEPT !.eof = TRUE])
\* the peer does not read beyond the header of a frame that fits nowhere
Stall(k) == PutC(k, [c.conn[k] EXCEPT !.stall = TRUE])
\* requests sent since then and completed before the peer reads on were not transmitted and never will be
Resume(k) == c' = [c EXCEPT !.conn[k].stall = FALSE,
                            !.req = [r \in 1..Len(@) |-> IF @[r].st = 2 /\ k \in @[r].stalled
                                                         THEN [@[r] EXCEPT !.ban = @ \cup {k}] ELSE @[r]]]

(**************************** the caller's side ****************************)
\* the connection of the request was lost before its answer
Lost(r) == LET w == Req(r).wire IN c.conn[w[1]].dead /\ w[2] \notin c.conn[w[1]].sure
IoOk(r) ==
  IF Req(r).wire # NoWire THEN Lost(r)
  ELSE c.fails \/ c.dead \/ c.shrunk \/ c.stop > 0
\* a connection that was asked to stop and is lost thereafter
ShutOk(r) ==
  IF Req(r).wire # NoWire THEN Lost(r) /\ (c.stop > 0 \/ c.shrunk)
  ELSE c.stop > 0 \/ (c.shrunk /\ c.dead)
Answer(r, code, b) ==
  LET w == Req(r).wire IN
  /\ w # NoWire
  /\ LET n == c.conn[w[1]] IN w[2] \in DOMAIN n.first /\ n.ids[w[2]] = r /\ n.first[w[2]] = <<code, b>>
Failure(r, code, b) ==
  /\ b = ""
  /\ \/ code \in Req(r).kills
     \/ code = IoError /\ IoOk(r)
     \/ code = Shut /\ ShutOk(r)
\* the requester gets its answer
Delivered(r, id, msg, code, b) ==
  LET q == Req(r) IN
  /\ TRUE = (EnfAny(Net \cup {"R03"}) => q.st < 2)
  /\ TRUE = (EnfAny(Net) => q.id = id /\ q.msg = msg /\ (Answer(r, code, b) \/ Failure(r, code, b)))
  /\ TRUE = (Enf("N03") => (q.late => (b = "" /\ (code \in {Shut, IoError} \cup q.kills))))
  /\ Put(r, [q EXCEPT !.st = 2])

Stop == c' = [c EXCEPT !.stop = 1, !.need = 0]
Stopped == c' = [c EXCEPT !.stop = 2]
\* the client has closed everything
Closed == /\ TRUE = (Enf("N03") => \A k \in 1..Len(c.conn) : c.conn[k].eof \/ c.conn[k].dead)
          /\ c' = [c EXCEPT !.stop = 3]
\* the client's own loop is over
Over == TRUE = (Enf("N03") => c.stop > 0) /\ UNCHANGED c
\* for a while the peer has seen so many connections
Live(n) == TRUE = (Enf("N03") => n = c.need) /\ UNCHANGED c
\* nothing can happen any more
Idle == TRUE = (EnfAny(Net) => Sent = {}) /\ UNCHANGED c
=============================================================================
