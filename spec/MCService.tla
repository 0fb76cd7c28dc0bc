----------------------------- MODULE MCService -----------------------------
(* Design model: a few requests, every interleaving of sending, handling, failing and stopping. *)
EXTENDS Service
CONSTANTS NR, MaxFail, Width
VARIABLES nf, execDone
vars == <<W, rq, slot, res, tries, armed, stop, chk, late, extra, nf, execDone>>
Reqs == 1..NR
Init == SvInit /\ nf = 0 /\ execDone = {}
U == UNCHANGED <<nf, execDone>>
Codes == {Shut, Tmout, "fe03"}
DeliverAny == \E r \in DOMAIN rq :
  \/ slot[r] = "over" /\ Deliver(r, IF res[r].c = "panic" THEN Internal ELSE res[r].c, res[r].b)
  \/ \E x \in tries : x.r = r /\ x.open /\ Deliver(r, x.c, "")
  \/ r \in armed /\ Deliver(r, Tmout, "")
  \/ stop # "no" /\ Deliver(r, Shut, "")
Next ==
  \/ W = 0 /\ Config(Width) /\ U
  \/ W > 0 /\ (\/ (\E r \in Reqs : Create(r) \/ (Known(r) /\ rq[r] = "new" /\ Send(r, r = 1))) /\ U
               \/ \E r \in DOMAIN rq : Take(r) /\ UNCHANGED nf
                     /\ execDone' = IF rq[r] = "done" THEN execDone \cup {r} ELSE execDone
               \/ (\E r \in DOMAIN rq : HandlerStart(r) \/ (r \notin chk /\ slot[r] = "run" /\ HandlerLooks(r))) /\ U
               \/ (\E r \in DOMAIN rq : \E alive \in BOOLEAN : HandlerEnd(r, IF r = 2 THEN "panic" ELSE "0", IF r = 2 THEN "" ELSE "x", alive, FALSE)) /\ U
               \/ nf < MaxFail /\ nf' = nf + 1 /\ UNCHANGED execDone /\ \E r \in DOMAIN rq, c \in Codes : Fail(nf, r, c)
               \/ (\E x \in tries : FailReturn(x.o)) /\ U
               \/ DeliverAny /\ U
               \/ (Stop \/ StopReturn) /\ U)
Fair == /\ WF_vars(DeliverAny /\ U)
        /\ \A r \in Reqs : WF_vars(Known(r) /\ (Take(r) /\ UNCHANGED nf /\ UNCHANGED execDone))
        /\ \A r \in Reqs : WF_vars(Known(r) /\ HandlerStart(r) /\ U)
        /\ \A r \in Reqs : WF_vars(Known(r) /\ (\E al \in BOOLEAN : HandlerEnd(r, IF r = 2 THEN "panic" ELSE "0", IF r = 2 THEN "" ELSE "x", al, FALSE)) /\ U)
Spec == Init /\ [][Next]_vars /\ Fair
NeverExecutedDone == execDone = {}
\* a slot is given back, whatever the handler did: queued requests are answered in the end
Is(r, s) == IF Known(r) THEN rq[r] = s ELSE FALSE
Answered == \A r \in Reqs : Is(r, "queued") ~> Is(r, "done")
AnsweredOnce == [][\A r \in DOMAIN rq : rq[r] = "done" => rq'[r] = "done"]_vars
=============================================================================
