------------------------------ MODULE Request ------------------------------
(***************************************************************************)
(* Life cycle of one iproto request (request.go, response.go, stat.go).    *)
(*                                                                         *)
(* A request is new, pending (queued), inflight (taken by a worker),       *)
(* prepared (being completed, under its lock) or performed.  Operations    *)
(* are called, take effect at one moment between call and return (Lin) and *)
(* return; completing a request is a sequence of steps under the lock:     *)
(* interceptors are invoked, last attached first, and may take the request *)
(* back, then the requester's responder is invoked.                        *)
(*                                                                         *)
(* PROP selects whose guards are enforced ("ALL" in the design model), so  *)
(* that a check of one property does not judge the others:                 *)
(*   R01 completion is delivered exactly once and is a real attempt        *)
(*   R02 interceptors: acceptance, order, once, retry                      *)
(*   R03 taking for work against completing                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT PROP

Enf(p) == PROP = p \/ PROP = "ALL"

VARIABLES
  st,     \* state of the request
  chain,  \* attached interceptors, next to be invoked first
  held,   \* the operation that completes the request (holds its lock), 0 if none
  at,     \* the interceptor that is running, 0 if none
  cur,    \* the completion in progress: code and body
  ops,    \* open operations: id -> [k, c, b, m, lin, res]
  armed,  \* the timeout is armed and has not fired
  ndel,   \* how many times the requester's responder was invoked
  last    \* the delivered completion

rvars == <<st, chain, held, at, cur, ops, armed, ndel, last>>

TimerOp == 1000   \* id of the completion by the request's timeout

NoCur == [c |-> "", b |-> ""]

ReqInit ==
  /\ st = "new" /\ chain = <<>> /\ held = 0 /\ at = 0 /\ cur = NoCur
  /\ ops = [x \in {} |-> 0] /\ armed = FALSE /\ ndel = 0 /\ last = NoCur

Locked(k) == k \in {"setinflyb", "chain", "respond", "fail"}

\* an operation is called: k kind, c code, b body, m interceptor
Call(o, k, c, b, m) ==
  /\ o \notin DOMAIN ops
  /\ ops' = ops @@ (o :> [k |-> k, c |-> c, b |-> b, m |-> m, lin |-> FALSE, res |-> FALSE])
  /\ UNCHANGED <<st, chain, held, at, cur, armed, ndel, last>>

Done(o, r) == ops' = [ops EXCEPT ![o].lin = TRUE, ![o].res = r]

\* result r of an operation guarded by property p whose right result is v
Verdict(p, r, v) == IF Enf(p) THEN r = v ELSE r \in BOOLEAN

LinSetPending(o, r) ==
  /\ ops[o].k = "setpending"
  /\ Verdict("R03", r, st = "new")
  /\ st' = IF r THEN "pending" ELSE st
  /\ Done(o, r) /\ UNCHANGED <<chain, held, at, cur, armed, ndel, last>>

\* taking the request for work succeeds only on a queued one
LinSetInFly(o, r) ==
  /\ ops[o].k \in {"setinfly", "setinflyb"}
  /\ Verdict("R03", r, st = "pending")
  /\ st' = IF r THEN "inflight" ELSE st
  /\ chain' = IF r /\ ops[o].k = "setinflyb" THEN <<ops[o].m>> \o chain ELSE chain
  /\ Done(o, r) /\ UNCHANGED <<held, at, cur, armed, ndel, last>>

\* interceptors are accepted while the request is new or queued
LinChain(o, r) ==
  /\ ops[o].k = "chain"
  /\ Verdict("R02", r, st \in {"new", "pending"})
  /\ chain' = IF r THEN <<ops[o].m>> \o chain ELSE chain
  /\ Done(o, r) /\ UNCHANGED <<st, held, at, cur, armed, ndel, last>>

\* a completion takes effect, or the request is not in a state to be completed
LinComplete(o) ==
  /\ ops[o].k \in {"respond", "fail"}
  /\ IF IF ops[o].k = "respond" THEN st = "inflight" ELSE st \notin {"prepared", "performed"}
     THEN /\ st' = "prepared" /\ held' = o
          /\ cur' = [c |-> ops[o].c, b |-> IF ops[o].k = "fail" THEN "" ELSE ops[o].b]
          /\ UNCHANGED ops
     ELSE /\ Done(o, TRUE) /\ UNCHANGED <<st, held, cur>>
  /\ UNCHANGED <<chain, at, armed, ndel, last>>

\* an interceptor takes the completed request back
LinReset(o) ==
  /\ ops[o].k \in {"resetp", "resetn"} /\ at # 0 /\ st = "prepared"
  /\ st' = IF ops[o].k = "resetp" THEN "pending" ELSE "new"
  /\ Done(o, TRUE) /\ UNCHANGED <<chain, held, at, cur, armed, ndel, last>>

LinTimeout(o) ==
  /\ ops[o].k = "settimeout"
  /\ armed' = TRUE
  /\ Done(o, TRUE) /\ UNCHANGED <<st, chain, held, at, cur, ndel, last>>

Lin(o) ==
  /\ o \in DOMAIN ops /\ ~ops[o].lin
  /\ (Locked(ops[o].k) => held = 0)
  /\ \/ \E r \in BOOLEAN : LinSetPending(o, r) \/ LinSetInFly(o, r) \/ LinChain(o, r)
     \/ LinComplete(o) \/ LinReset(o) \/ LinTimeout(o)

\* the timeout fires: one more attempt to fail the request
Fire(code) ==
  /\ armed /\ TimerOp \notin DOMAIN ops
  /\ armed' = FALSE
  /\ ops' = ops @@ (TimerOp :> [k |-> "fail", c |-> code, b |-> "", m |-> 0, lin |-> FALSE, res |-> FALSE])
  /\ UNCHANGED <<st, chain, held, at, cur, ndel, last>>

TimerDone ==
  /\ TimerOp \in DOMAIN ops /\ ops[TimerOp].lin
  /\ ops' = [x \in DOMAIN ops \ {TimerOp} |-> ops[x]]
  /\ UNCHANGED <<st, chain, held, at, cur, armed, ndel, last>>

Return(o, r) ==
  /\ o \in DOMAIN ops /\ ops[o].lin
  /\ ops[o].k \in {"setpending", "setinfly", "setinflyb", "chain"} => ops[o].res = r
  /\ ops' = [x \in DOMAIN ops \ {o} |-> ops[x]]
  /\ UNCHANGED <<st, chain, held, at, cur, armed, ndel, last>>

Remove(q, m) == SelectSeq(q, LAMBDA x : x # m)

\* interceptor m is invoked with the completion in progress
Intercept(m, c, b) ==
  /\ IF Enf("R02") THEN /\ held # 0 /\ st = "prepared" /\ at = 0
                        /\ chain # <<>> /\ Head(chain) = m
                        /\ c = cur.c /\ b = cur.b
                   ELSE TRUE
  /\ at' = m
  /\ UNCHANGED <<st, chain, held, cur, ops, armed, ndel, last>>

\* and returns: unless it took the request back, it is done with it
Intercepted(m) ==
  /\ at = m /\ at' = 0
  /\ IF st = "prepared"
     THEN chain' = Remove(chain, m) /\ UNCHANGED <<held, ops>>
     ELSE /\ UNCHANGED chain /\ held' = 0
          /\ ops' = IF held = 0 THEN ops ELSE [ops EXCEPT ![held].lin = TRUE]
  /\ UNCHANGED <<st, cur, armed, ndel, last>>

\* the requester gets its response
Deliver(c, b) ==
  /\ held # 0 /\ st = "prepared" /\ at = 0
  /\ Enf("R02") => chain = <<>>
  /\ Enf("R01") => c = cur.c /\ b = cur.b
  /\ ndel' = ndel + 1
  /\ last' = [c |-> c, b |-> b]
  /\ st' = "performed" /\ held' = 0 /\ armed' = FALSE
  /\ ops' = [ops EXCEPT ![held].lin = TRUE]
  /\ UNCHANGED <<chain, at, cur>>

(***************************************************************************)
(* Design properties                                                       *)
(***************************************************************************)
DeliveredOnce == ndel <= 1
PerformedIffDelivered == (st = "performed") <=> (ndel = 1)
LockedWhilePrepared == st = "prepared" => held # 0
NothingLeft == st = "performed" => chain = <<>> /\ at = 0
FinalForever == [][st = "performed" => st' = "performed" /\ last' = last /\ ndel' = ndel]_rvars
=============================================================================
