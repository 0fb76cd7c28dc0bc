------------------------------- MODULE Local -------------------------------
(***************************************************************************)
(* What a caller of this client talking to this server may observe: a      *)
(* local call that can fail in a few ways.                                 *)
(* A return code is <<hi, lo>>, the last byte apart.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"

Timeout == <<"fd", 3>>
IoError == <<"fe", 3>>
Shut == <<"ff", 3>>
Kind(code) == code[2] % 8

VARIABLE e
\* req: r -> [id, msg, b; st: 0 new, 1 sent, 2 done; execs: how often the service has seen it;
\*            tries: what the service has answered; kills: codes the caller has completed it with]
\* cut: connections may have been lost; stop: the client or the server is being stopped
EInit == e = [req |-> <<>>, rc |-> 4, map |-> {}, cut |-> FALSE, stop |-> FALSE]
Conf(rc, map) == e' = [e EXCEPT !.rc = rc,
                                !.map = {<< <<map[n].hi, map[n].lo>>, <<map[n].thi, map[n].tlo>> >> : n \in 1..Len(map)}]
Subst(code) ==
  IF Kind(code) # 3 THEN code
  ELSE IF \E m \in e.map : m[1] = code THEN (CHOOSE m \in e.map : m[1] = code)[2]
  ELSE <<code[1], code[2] - 1>>
Wire(code) == CASE e.rc = 4 -> code [] e.rc = 1 -> <<"0", code[2]>> [] OTHER -> <<"0", 0>>

New(r, id, msg, b, to) ==
  /\ r = Len(e.req) + 1
  /\ e' = [e EXCEPT !.req = Append(@, [id |-> id, msg |-> msg, b |-> b, st |-> 0, execs |-> 0, tries |-> {},
                                       kills |-> IF to THEN {Timeout} ELSE {}])]
Send(r) == e' = [e EXCEPT !.req[r].st = IF @ = 0 THEN 1 ELSE @]
Kill(r, code) == e' = [e EXCEPT !.req[r].kills = @ \cup {code}]
Cut == e' = [e EXCEPT !.cut = TRUE]
Stop == e' = [e EXCEPT !.stop = TRUE]
\* the service gets a request
Exec(r, msg, b) ==
  /\ TRUE = (Enf("E01") => r \in 1..Len(e.req))
  /\ r \in 1..Len(e.req)
  /\ LET q == e.req[r] IN
     /\ TRUE = (Enf("E01") => q.st > 0 /\ q.execs = 0 /\ q.msg = msg /\ q.b = b)
     /\ e' = [e EXCEPT !.req[r].execs = @ + 1]
Ans(r, code, b) == e' = [e EXCEPT !.req[r].tries = @ \cup {<<code, b>>}]
\* the caller gets the answer
Failed(q, code, b) ==
  /\ b = ""
  /\ \/ code \in q.kills
     \/ code = IoError /\ (e.cut \/ e.stop)
     \/ code = Shut /\ e.stop
Served(q, code, b) == q.execs = 1 /\ \E a \in q.tries : code = Wire(Subst(a[1])) /\ b = a[2]
Delivered(r, id, msg, code, b) ==
  LET q == e.req[r] IN
  /\ TRUE = (Enf("E01") => q.st < 2 /\ q.id = id /\ q.msg = msg /\ (Served(q, code, b) \/ Failed(q, code, b)))
  /\ e' = [e EXCEPT !.req[r].st = 2]
Idle == TRUE = (Enf("E01") => \A r \in 1..Len(e.req) : e.req[r].st # 1) /\ UNCHANGED e
=============================================================================
