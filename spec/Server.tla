------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* What a server and its peers may do to each other, seen from the ends of *)
(* the connections and from the service.                                   *)
(*                                                                         *)
(* Connections and requests are numbered.  A return code is <<hi, lo>>:    *)
(* everything but the last byte (a string) and the last byte; the last     *)
(* three bits are the kind.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"
EnfAny(S) == PROP \in S \/ PROP = "ALL"
Srv == {"V01", "V02", "V03"}

Cancelled == <<"ff", 3>>
Internal == 3
Fatal == 2
Kind(code) == code[2] % 8

VARIABLE s
\* conn: k -> [half, part, drop, lose: the peer has closed its sending side, broken off inside a frame, closed everything,
\*             stopped to read; eof: it has seen the end; open: id -> request; pings: id -> how many; late: opened after the stop]
\* req: r -> [k, id, msg, b; st: 0 written, 1 in service, 2 completed, 3 response seen; tries: what the service answered; fin: what it was completed with]
\* rc: 4, 1, 0 bytes; map: what replaces internal codes; stop: 0, 1 begun, 2 returned, 3 everything is finished
SInit == s = [conn |-> <<>>, req |-> <<>>, rc |-> 4, map |-> {}, stop |-> 0]

None == <<>>
Conf(rc, map) == s' = [s EXCEPT !.rc = rc,
                                !.map = {<< <<map[n].hi, map[n].lo>>, <<map[n].thi, map[n].tlo>> >> : n \in 1..Len(map)}]
\* NewServer takes only sensible maps
Config(map, refused) ==
  /\ TRUE = (Enf("V02") => (refused = \E n \in 1..Len(map) : map[n].lo % 8 # Internal \/ map[n].tlo % 8 = Internal))
  /\ UNCHANGED s

\* what is written for a code
Subst(code) ==
  IF Kind(code) # Internal THEN code
  ELSE IF \E m \in s.map : m[1] = code THEN (CHOOSE m \in s.map : m[1] = code)[2]
  ELSE <<code[1], code[2] - Internal + Fatal>>
Wire(code) == CASE s.rc = 4 -> code [] s.rc = 1 -> <<"0", code[2]>> [] OTHER -> <<"0", 0>>

(****************************** the peer's side ****************************)
Open(k) ==
  /\ k = Len(s.conn) + 1
  /\ s' = [s EXCEPT !.conn = Append(@, [half |-> FALSE, part |-> FALSE, drop |-> FALSE, lose |-> FALSE, eof |-> FALSE,
                                         open |-> None, pings |-> None, late |-> s.stop >= 2])]
\* just before the frame is written; the id is in use by no other request without an answer
Req(r, k, id, msg, b) ==
  /\ r = Len(s.req) + 1
  /\ id \notin DOMAIN s.conn[k].open
  /\ s' = [s EXCEPT !.req = Append(@, [k |-> k, id |-> id, msg |-> msg, b |-> b, st |-> 0, tries |-> {}, fin |-> <<>>, ex |-> FALSE]),
                    !.conn[k].open = (id :> r) @@ @]
Ping(k, id) ==
  LET p == s.conn[k].pings IN
  s' = [s EXCEPT !.conn[k].pings = (id :> (IF id \in DOMAIN p THEN p[id] + 1 ELSE 1)) @@ @]
\* just before: the sending side is closed; it is closed inside a frame; everything is closed; nothing is read for too long
Half(k) == s' = [s EXCEPT !.conn[k].half = TRUE]
Part(k) == s' = [s EXCEPT !.conn[k].part = TRUE, !.conn[k].half = TRUE]
Drop(k) == s' = [s EXCEPT !.conn[k].drop = TRUE]
Lose(k) == s' = [s EXCEPT !.conn[k].lose = TRUE]
\* a response came
Resp(k, id, msg, code, b) ==
  LET n == s.conn[k] IN
  /\ TRUE = (EnfAny(Srv) => id \in DOMAIN n.open)
  /\ id \in DOMAIN n.open
  /\ LET r == n.open[id]
         q == s.req[r] IN
     /\ TRUE = (EnfAny(Srv) => q.st = 2)
     /\ q.st = 2
     /\ TRUE = (EnfAny({"V01", "V03"}) => msg = q.msg /\ b = q.fin[2])
     /\ TRUE = (EnfAny({"V01", "V02"}) => code = Wire(Subst(q.fin[1])))
     /\ s' = [s EXCEPT !.req[r].st = 3, !.conn[k].open = [x \in DOMAIN @ \ {id} |-> @[x]]]
Pong(k, id, len) ==
  LET n == s.conn[k] IN
  /\ TRUE = (EnfAny(Srv) => len = 0 /\ id \in DOMAIN n.pings /\ n.pings[id] > 0)
  /\ id \in DOMAIN n.pings /\ n.pings[id] > 0
  /\ s' = [s EXCEPT !.conn[k].pings[id] = @ - 1]
\* the end came
Unserved(k) == {r \in 1..Len(s.req) : s.req[r].k = k /\ s.req[r].st < 3}
Eof(k) ==
  LET n == s.conn[k]
      all == n.half /\ ~n.drop /\ ~n.lose /\ s.stop = 0 IN
  /\ TRUE = (EnfAny(Srv) => n.half \/ n.drop \/ n.lose \/ s.stop > 0)
  /\ TRUE = (EnfAny({"V01", "V03"}) => (all => /\ Unserved(k) = {}
                                               /\ \A id \in DOMAIN n.pings : n.pings[id] = 0))
  /\ TRUE = (EnfAny({"V01", "V03"}) => ((~n.drop /\ ~n.lose) => \A r \in Unserved(k) : s.req[r].st = 0))
  /\ s' = [s EXCEPT !.conn[k].eof = TRUE]

(**************************** the service's side ***************************)
\* the service gets a request
Exec(r, id, msg, b) ==
  /\ TRUE = (EnfAny(Srv) => r \in 1..Len(s.req))
  /\ r \in 1..Len(s.req)
  /\ LET q == s.req[r] IN
     /\ TRUE = (EnfAny({"V01", "V03"}) => ~q.ex /\ q.id = id /\ q.msg = msg /\ q.b = b)
     \* it may be cancelled while it is taken
     /\ TRUE = (EnfAny({"V01", "V03"}) => (q.st = 0 \/ q.fin = <<Cancelled, "">>))
     /\ TRUE = (Enf("V03") => (s.stop < 3 \/ q.st = 2) /\ ~s.conn[q.k].late /\ (s.conn[q.k].drop \/ s.conn[q.k].lose \/ ~s.conn[q.k].eof))
     /\ s' = [s EXCEPT !.req[r].st = IF @ = 0 THEN 1 ELSE @, !.req[r].ex = TRUE]
\* the service is about to answer; the request still looks as it did
Ans(r, code, b, id, msg, rb) ==
  LET q == s.req[r] IN
  /\ TRUE = (Enf("V01") => q.id = id /\ q.msg = msg /\ q.b = rb)
  /\ s' = [s EXCEPT !.req[r].tries = @ \cup {<<code, b>>}]
\* the request is completed
Fin(r, code, b) ==
  LET q == s.req[r]
      n == s.conn[q.k] IN
  /\ TRUE = (EnfAny(Srv) => /\ q.st < 2
                            /\ \/ <<code, b>> \in q.tries
                               \/ code = Cancelled /\ b = "" /\ (n.drop \/ n.lose))
  /\ s' = [s EXCEPT !.req[r].st = 2, !.req[r].fin = <<code, b>>]

Stop == s' = [s EXCEPT !.stop = IF @ < 1 THEN 1 ELSE @]
Stopped == s' = [s EXCEPT !.stop = IF @ < 2 THEN 2 ELSE @]
\* the server says that it is finished
Finished == /\ TRUE = (Enf("V03") => s.stop > 0 /\ \A r \in 1..Len(s.req) : s.req[r].st # 1)
            /\ s' = [s EXCEPT !.stop = 3]
\* everything that the service has answered is with the peers; what it has not may take as long as it likes
Prompt ==
  /\ TRUE = (Enf("V01") =>
       \A k \in 1..Len(s.conn) : LET n == s.conn[k] IN
          (n.drop \/ n.lose \/ n.half \/ s.stop > 0)
          \/ ((\A r \in Unserved(k) : s.req[r].st = 1) /\ \A id \in DOMAIN n.pings : n.pings[id] = 0))
  /\ UNCHANGED s
\* nothing can happen any more
Idle ==
  /\ TRUE = (EnfAny({"V01", "V02"}) =>
       \A k \in 1..Len(s.conn) : LET n == s.conn[k] IN
          (n.drop \/ n.lose \/ n.half \/ s.stop > 0) \/ (Unserved(k) = {} /\ \A id \in DOMAIN n.pings : n.pings[id] = 0))
  /\ TRUE = (EnfAny({"V01", "V03"}) =>
       /\ \A k \in 1..Len(s.conn) : LET n == s.conn[k] IN
          n.drop \/ n.eof \/ ~(n.half \/ n.lose \/ s.stop > 0)
       /\ \A r \in 1..Len(s.req) : s.req[r].st # 1 \/ (s.stop < 3 /\ s.conn[s.req[r].k].drop))
  /\ UNCHANGED s
=============================================================================
