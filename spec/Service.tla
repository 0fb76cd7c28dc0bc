------------------------------ MODULE Service ------------------------------
(***************************************************************************)
(* A parallel service of width W (parallel_service.go, service.go and the  *)
(* request context of request.go): requests are sent, queued, taken by a   *)
(* slot, handled, answered; they may be cancelled or time out anywhere on  *)
(* the way, and the service may be stopped.                                *)
(*                                                                         *)
(*  rq[r]    new, queued, done (answered)                                  *)
(*  slot[r]  none, taken (a slot has it), run (handler runs), over         *)
(*  PROP     which property's guards are enforced                          *)
(*    S01 width, answers, contexts;  S02 stopping;  R03 no execution of    *)
(*    completed requests                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"

VARIABLES
  W,        \* width
  rq, slot, \* per request
  res,      \* what the handler returned: [c, b] (c = "panic")
  tries,    \* open or finished external completions: set of [o, r, c, open]
  armed,    \* requests whose timeout is armed
  stop,     \* "no", "called", "yes" (returned)
  chk,      \* requests that had been cancelled or expired for sure when their handlers looked at the context
  late,     \* requests whose sending began after the stop had returned
  extra     \* requests taken after the stop had returned

svars == <<W, rq, slot, res, tries, armed, stop, chk, late, extra>>

Shut == "ff03"      \* also the code of a cancellation
Tmout == "fd03"
Internal == "fc02"

Fn0 == [x \in {} |-> 0]
SvInit == /\ W = 0 /\ rq = Fn0 /\ slot = Fn0 /\ res = Fn0 /\ tries = {}
          /\ armed = {} /\ chk = {} /\ stop = "no" /\ late = {} /\ extra = 0

Known(r) == r \in DOMAIN rq
Running == {r \in DOMAIN slot : slot[r] = "run"}

Config(w) == /\ W' = w /\ UNCHANGED <<rq, slot, res, tries, armed, stop, chk, late, extra>>

\* a request exists (it can be cancelled before it is sent)
Create(r) ==
  /\ ~Known(r)
  /\ rq' = rq @@ (r :> "new") /\ slot' = slot @@ (r :> "none")
  /\ res' = res @@ (r :> [c |-> "", b |-> ""])
  /\ UNCHANGED <<W, tries, armed, stop, chk, late, extra>>

Arm(r) == armed' = armed \cup {r} /\ UNCHANGED <<W, rq, slot, res, tries, stop, chk, late, extra>>

\* sending begins; a completed request is ignored
Send(r, timeout) ==
  /\ Known(r)
  /\ rq' = [rq EXCEPT ![r] = IF @ = "new" THEN "queued" ELSE @]
  /\ late' = IF stop = "yes" THEN late \cup {r} ELSE late
  /\ armed' = IF timeout THEN armed \cup {r} ELSE armed
  /\ UNCHANGED <<W, slot, res, tries, stop, chk, extra>>

\* a slot takes a queued request: only one that has not been completed
Take(r) ==
  /\ Known(r) /\ slot[r] = "none"
  /\ Enf("R03") => rq[r] = "queued"
  /\ Enf("S02") => r \notin late /\ (stop = "yes" => extra = 0)
  /\ Enf("S01") => Cardinality({x \in DOMAIN slot : slot[x] = "run" \/ (slot[x] = "taken" /\ rq[x] # "done")}) < W
  /\ slot' = [slot EXCEPT ![r] = "taken"]
  /\ extra' = IF stop = "yes" THEN extra + 1 ELSE extra
  /\ UNCHANGED <<W, rq, res, tries, armed, stop, chk, late>>

HandlerStart(r) ==
  /\ Known(r) /\ slot[r] = "taken"
  /\ TRUE =
     (Enf("S01") => Cardinality(Running) < W)
  /\ slot' = [slot EXCEPT ![r] = "run"]
  /\ UNCHANGED <<W, rq, res, tries, armed, stop, chk, late, extra>>

Tried(r, c) == \E x \in tries : x.r = r /\ x.c = c
Finished(r, c) == \E x \in tries : x.r = r /\ x.c = c /\ ~x.open
\* what the handler may see of its context
ContextOk(r, alive, timeout) ==
  /\ (~alive => Tried(r, Shut) \/ Tried(r, Tmout) \/ r \in armed)
  /\ (timeout => Tried(r, Tmout) \/ r \in armed)
  \* "over" completions of a request in service have reached its context
  /\ (alive => r \notin chk)
HandlerLooks(r) ==
  /\ Known(r)
  /\ chk' = IF /\ \E x \in tries : x.r = r /\ ~x.open /\ x.inserv
               /\ \A x \in tries : x.r = r => x.c \in {Shut, Tmout}
            THEN chk \cup {r} ELSE chk
  /\ UNCHANGED <<W, rq, slot, res, tries, armed, stop, late, extra>>

HandlerEnd(r, c, b, alive, timeout) ==
  /\ Known(r) /\ slot[r] = "run"
  /\ TRUE =
     (Enf("S01") => ContextOk(r, alive, timeout))
  /\ slot' = [slot EXCEPT ![r] = "over"]
  /\ res' = [res EXCEPT ![r] = [c |-> c, b |-> b]]
  /\ UNCHANGED <<W, rq, tries, armed, stop, chk, late, extra>>

\* somebody completes the request: cancels, expires or fails it
Fail(o, r, c) ==
  /\ Known(r)
  /\ tries' = tries \cup {[o |-> o, r |-> r, c |-> c, open |-> TRUE,
                            inserv |-> slot[r] = "run" /\ rq[r] # "done"]}
  /\ UNCHANGED <<W, rq, slot, res, armed, stop, chk, late, extra>>
FailReturn(o) ==
  /\ \E x \in tries :
       /\ x.o = o /\ x.open
       /\ tries' = (tries \ {x}) \cup {[x EXCEPT !.open = FALSE]}
       \* it has answered the request, except when a timeout meets a request in service
       /\ TRUE =
          (Enf("S01") => rq[x.r] = "done" \/ (x.c = Tmout /\ slot[x.r] # "none"))
  /\ UNCHANGED <<W, rq, slot, res, armed, stop, chk, late, extra>>

\* the requester gets its answer
Deliver(r, c, b) ==
  /\ Known(r)
  /\ IF Enf("S01") \/ Enf("S02") THEN
       /\ rq[r] # "done"
       /\ \/ slot[r] = "over" /\ IF res[r].c = "panic" THEN c = Internal /\ b = "" ELSE c = res[r].c /\ b = res[r].b
          \/ b = "" /\ c # Tmout /\ \E x \in tries : x.r = r /\ x.c = c /\ x.open
          \/ b = "" /\ c = Tmout /\ slot[r] = "none" /\ (r \in armed \/ \E x \in tries : x.r = r /\ x.c = c /\ x.open)
          \/ b = "" /\ c = Shut /\ stop # "no" /\ slot[r] = "none" /\ rq[r] = "queued"
     ELSE TRUE
  /\ rq' = [rq EXCEPT ![r] = "done"]
  /\ UNCHANGED <<W, slot, res, tries, armed, stop, chk, late, extra>>

Stop == stop' = (IF stop = "yes" THEN stop ELSE "called") /\ UNCHANGED <<W, rq, slot, res, tries, armed, chk, late, extra>>
StopReturn == stop # "no" /\ stop' = "yes" /\ UNCHANGED <<W, rq, slot, res, tries, armed, chk, late, extra>>

(***************************************************************************)
WidthKept == Cardinality(Running) <= W
NoLateHandler == \A r \in late : slot[r] = "none"
AllAnswered == \A r \in DOMAIN rq : rq[r] = "done"
=============================================================================
