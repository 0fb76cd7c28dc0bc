------------------------------ MODULE MCServer ------------------------------
(***************************************************************************)
(* Design of one server connection: a reader, a writer and a control loop  *)
(* that share a bounded channel, an elastic buffer behind it and the set   *)
(* of requests in service, and that have to end together, with every      *)
(* answer written after a half-close and every request cancelled after a  *)
(* loss.  Steps are as fine as the critical sections of the code.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS R,       \* frames the peer sends
          Pings,   \* those of them that are pings
          Prompt,  \* those the service answers on its own
          Cap,     \* places in the channel
          Lossy,   \* the peer may be lost
          Bug      \* "none", or what is wrong
VARIABLE v
Frames == 1..R
Init == v = [sent |-> 0, half |-> FALSE, lost |-> FALSE, stop |-> FALSE,
             rd |-> 0, rpc |-> "read", fly |-> {}, fresh |-> {},
             out |-> <<>>, closed |-> FALSE, buf |-> <<>>,
             wpc |-> "select", werr |-> FALSE, dirty |-> <<>>, wrote |-> <<>>, end |-> FALSE,
             note |-> <<>>, st |-> {}, cpc |-> "wait", panic |-> FALSE]

\* the peer
PSend == ~v.half /\ ~v.lost /\ v.sent < R /\ v' = [v EXCEPT !.sent = @ + 1]
PHalf == ~v.half /\ ~v.lost /\ v' = [v EXCEPT !.half = TRUE]
PLost == Lossy /\ ~v.lost /\ v' = [v EXCEPT !.lost = TRUE, !.half = TRUE]
PStop == ~v.stop /\ v' = [v EXCEPT !.stop = TRUE]     \* the read side is closed by the server

Push(w, m) == IF w.buf = <<>> /\ Len(w.out) < Cap
              THEN [w EXCEPT !.out = Append(@, m), !.panic = @ \/ w.closed]
              ELSE [w EXCEPT !.buf = Append(@, m)]
\* the reader
Read ==
  /\ v.rpc = "read" /\ v.rd < v.sent
  /\ LET m == v.rd + 1 IN
     IF m \in Pings THEN v' = Push([v EXCEPT !.rd = m], m)
     ELSE v' = [v EXCEPT !.rd = m, !.fly = @ \cup {m}, !.fresh = @ \cup {m}]
ReadEnd == /\ v.rpc = "read"
           /\ v.stop \/ (v.half /\ v.rd = v.sent) \/ v.lost
           /\ v' = [v EXCEPT !.rpc = "tell"]
ReadTell == v.rpc = "tell" /\ Len(v.note) < 2 /\ v' = [v EXCEPT !.rpc = "end", !.note = Append(@, "read")]

\* the service: the first completion counts
Finish(w, m) == IF m \in w.fly THEN Push([w EXCEPT !.fly = @ \ {m}, !.fresh = @ \ {m}], m) ELSE [w EXCEPT !.fresh = @ \ {m}]
Answer == \E m \in v.fresh \cap Prompt : v' = Finish(v, m)

\* the writer
Drained == "read" \in v.st /\ (Bug = "fly" \/ v.fly = {}) /\ v.out = <<>>
Take(next) == LET m == Head(v.out) IN
  IF v.lost THEN v' = [v EXCEPT !.out = Tail(@), !.werr = TRUE, !.wpc = "close"]
  ELSE v' = [v EXCEPT !.out = Tail(@), !.dirty = Append(@, m), !.wpc = "select"]
RECURSIVE Move(_)
Move(w) == IF w.buf # <<>> /\ Len(w.out) < Cap
           THEN Move([w EXCEPT !.out = Append(@, Head(w.buf)), !.buf = Tail(@)]) ELSE w
Select ==
  /\ v.wpc = "select"
  /\ IF v.out # <<>> THEN Take("select")
     ELSE IF v.closed THEN v' = [v EXCEPT !.wpc = "flush"]
     ELSE v' = [v EXCEPT !.wpc = "lock"]
Lock ==
  /\ v.wpc = "lock"
  /\ v' = IF v.buf # <<>> THEN [Move(v) EXCEPT !.wpc = "select"]
          ELSE IF Drained THEN [v EXCEPT !.wpc = "empty"]
          ELSE [v EXCEPT !.wpc = "idle"]
Idle == v.wpc = "idle" /\ (IF v.lost /\ v.dirty # <<>> THEN v' = [v EXCEPT !.werr = TRUE, !.wpc = "close"]
                            ELSE v' = [v EXCEPT !.wrote = @ \o v.dirty, !.dirty = <<>>, !.wpc = "block"])
Block == /\ v.wpc = "block"
         /\ IF v.out # <<>> THEN Take("select")
            ELSE /\ v.closed
                 /\ v' = [v EXCEPT !.wpc = "flush"]
Empty == v.wpc = "empty" /\ Len(v.note) < 2 /\ v' = [v EXCEPT !.note = Append(@, "empty"), !.wpc = "flush"]
Flush == v.wpc = "flush" /\ (IF v.lost THEN v' = [v EXCEPT !.werr = TRUE, !.wpc = "close"]
                             ELSE v' = [v EXCEPT !.wrote = @ \o v.dirty, !.dirty = <<>>, !.end = TRUE, !.wpc = "close"])
Close == v.wpc = "close" /\ Len(v.note) < 2 /\ v' = [v EXCEPT !.wpc = "end", !.note = Append(@, "write")]

\* the control loop
RECURSIVE FinishAll(_, _)
FinishAll(w, S) == IF S = {} THEN w ELSE LET m == CHOOSE m \in S : TRUE IN FinishAll(Finish(w, m), S \ {m})
Shut(w) == [w EXCEPT !.closed = TRUE, !.panic = @ \/ w.closed]
Control ==
  /\ v.cpc = "wait" /\ v.note # <<>>
  /\ LET a == Head(v.note)
         w == [v EXCEPT !.note = Tail(@)]
         x == CASE a = "read" ->
                     LET y == [w EXCEPT !.st = @ \cup {"read"}] IN
                     IF w.fly = {} /\ (Bug = "early" \/ w.buf = <<>>) /\ w.out = <<>> THEN Shut(y) ELSE y
                [] a = "write" -> LET y == [w EXCEPT !.st = @ \cup {"write"}, !.stop = TRUE] IN
                                  IF Bug = "keep" THEN y ELSE FinishAll(y, w.fly)
                [] OTHER -> IF w.closed /\ Bug # "twice" THEN w ELSE Shut(w)
     IN v' = [x EXCEPT !.cpc = IF x.st = {"read", "write"} THEN "clean" ELSE "wait"]
\* requests could be read after the write side was closed
Clean == v.cpc = "clean" /\ v' = [(IF Bug = "late" THEN v ELSE FinishAll(v, v.fly)) EXCEPT !.cpc = "end", !.buf = <<>>, !.fly = {}]

Next == PSend \/ PHalf \/ PLost \/ PStop \/ Read \/ ReadEnd \/ ReadTell \/ Answer \/ Select \/ Lock \/ Idle \/ Block
        \/ Empty \/ Flush \/ Close \/ Control \/ Clean
Spec == Init /\ [][Next]_v
        /\ WF_v(Read) /\ WF_v(ReadEnd) /\ WF_v(ReadTell) /\ WF_v(Answer) /\ WF_v(Select) /\ WF_v(Lock) /\ WF_v(Idle) /\ WF_v(Block)
        /\ WF_v(Empty) /\ WF_v(Flush) /\ WF_v(Close) /\ WF_v(Control) /\ WF_v(Clean)
Range(q) == {q[n] : n \in DOMAIN q}
\* nothing is written twice, and nothing that was not read
Once == /\ \A a, b \in DOMAIN v.wrote : a # b => v.wrote[a] # v.wrote[b]
        /\ Range(v.wrote) \subseteq 1..v.rd
\* the write side is closed in order only when everything that was read is written
Complete == v.end => Range(v.wrote) = 1..v.rd
\* after a half-close everything is read before
AllRead == (v.end /\ v.half /\ ~v.stop /\ ~v.lost) => v.rd = v.sent
NoPanic == ~v.panic
\* every request that was read is completed when the connection is forgotten
Released == v.cpc = "end" => v.fresh = {}
\* it ends when the peer has closed its side and everything is answered, or when it is known to be lost
Drains == (v.half \/ v.stop) ~> (v.cpc = "end" \/ (v.fly # {} /\ v.fly \cap Prompt = {} /\ ~v.werr))
Gone == v.werr ~> (v.cpc = "end")
=============================================================================
