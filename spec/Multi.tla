------------------------------- MODULE Multi -------------------------------
(***************************************************************************)
(* What a user observes of a multi request (wait_group.go): requests are   *)
(* issued one by one by its owner, answered by anybody, cancelled or       *)
(* expired together, and collected as a list or a stream.                  *)
(* Requests are named by their positions 0, 1, ...                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"

VARIABLE m
\*  n       issued so far            begun   positions whose issuing has begun
\*  tries   begun answers [p, c, b]  kills   [o, k, open, n] n: how many had been issued for sure
\*  armed   the timeout is set       got     positions collected
\*  coll    "no", "list", "stream"   over    all was collected
\*  late    positions issued after the multi request had been killed for sure
\*  svc     positions that go to a parallel service: expiring those that it works on is left to it
MuInit == m = [n |-> 0, tries |-> {}, kills |-> {}, armed |-> FALSE, got |-> {}, coll |-> "no", over |-> FALSE, late |-> {}, svc |-> {}]

Code(k) == IF k = "t" THEN "fd03" ELSE "ff03"
Tried(p) == \E x \in m.tries : x.p = p
Dead == \E k \in m.kills : ~k.open /\ (k.via = "x" => \A x \in m.kills : x.via = "x" => ~x.open)

Arm == m' = [m EXCEPT !.armed = TRUE]
\* issuing of the next one begins
Issue == /\ m.coll = "no"
         /\ m' = [m EXCEPT !.late = IF Dead THEN @ \cup {m.n} ELSE @]
\* ans: it was found answered when the call returned;  id: its number
Issued(p, id, ans, svc) ==
  /\ TRUE =
     (Enf("M01") => /\ p = m.n /\ id = p
                    /\ (p \in m.late => ans)
                    /\ (ans => m.kills # {} \/ Tried(p) \/ m.armed))
  /\ m' = [m EXCEPT !.n = @ + 1, !.svc = IF svc THEN @ \cup {p} ELSE @]
\* executed by a service
Executed(p) == /\ TRUE =
                  (Enf("M01") => p \notin m.late)
               /\ UNCHANGED m
Try(p, c, b) == m' = [m EXCEPT !.tries = @ \cup {[p |-> p, c |-> c, b |-> b]}]
\* via: "m" the multi request itself, "x" its context, which only the first one cancels
Kill(o, k, via) == m' = [m EXCEPT !.kills = @ \cup {[o |-> o, k |-> k, via |-> via, open |-> TRUE, n |-> m.n]}]
\* un: positions not answered at the return
Killed(o, un) ==
  \E k \in m.kills :
    /\ k.o = o
    /\ TRUE =
       (Enf("M01") => \A p \in un :
                      \/ p >= k.n
                      \/ k.k = "t" /\ p \in m.svc
                      \/ k.via = "x" /\ \E x \in m.kills : x # k /\ x.via = "x")
    /\ m' = [m EXCEPT !.kills = (@ \ {k}) \cup {[k EXCEPT !.open = FALSE]}]
Collect(how) == m' = [m EXCEPT !.coll = how]
Got(p, c, b) ==
  /\ TRUE =
     (Enf("M01") => /\ p \notin m.got /\ p < m.n
                    /\ \/ [p |-> p, c |-> c, b |-> b] \in m.tries
                       \/ b = "" /\ \E k \in m.kills : c = Code(k.k)
                       \/ b = "" /\ c = "fd03" /\ m.armed)
  /\ m' = [m EXCEPT !.got = @ \cup {p}]
Over == /\ TRUE =
           (Enf("M01") => m.got = 0..(m.n - 1) /\ (\A k \in m.kills : TRUE))
        /\ m' = [m EXCEPT !.over = TRUE]
=============================================================================
