----------------------------- MODULE MCBalancer -----------------------------
(***************************************************************************)
(* Design model of balancer.go: one queue, children that take from it,     *)
(* children added while the balancer starts, runs or stops.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS R, K, Early   \* requests, children, children added before the start
VARIABLES q, sent, st, kids, run, pc, exit, stopped
vars == <<q, sent, st, kids, run, pc, exit, stopped>>
Reqs == 1..R
Kids == 1..K
\* st: request -> "no", "queued", "in" (with its child), "done";  run: child -> number of times it was started
\* exit: children told to stop;  pc of the balancer's loop: "start", "work", "tell", "drain"
Init == /\ q = <<>> /\ sent = 0 /\ st = [r \in Reqs |-> <<"no">>] /\ kids = Early /\ run = [k \in Kids |-> 0]
        /\ pc = "start" /\ exit = {} /\ stopped = FALSE
SendOne == /\ sent < R /\ sent' = sent + 1 /\ q' = Append(q, sent + 1) /\ st' = [st EXCEPT ![sent + 1] = <<"queued">>]
           /\ UNCHANGED <<kids, run, pc, exit, stopped>>
Add(k) == /\ k \notin kids /\ kids' = kids \cup {k}
          /\ run' = IF pc = "work" THEN [run EXCEPT ![k] = @ + 1] ELSE run
          /\ UNCHANGED <<q, sent, st, pc, exit, stopped>>
Start == /\ pc = "start" /\ pc' = "work" /\ run' = [k \in Kids |-> IF k \in kids THEN run[k] + 1 ELSE run[k]]
         /\ UNCHANGED <<q, sent, st, kids, exit, stopped>>
Take(k) == /\ run[k] > 0 /\ k \notin exit /\ q # <<>>
           /\ st' = [st EXCEPT ![Head(q)] = <<"in", k>>] /\ q' = Tail(q)
           /\ UNCHANGED <<sent, kids, run, pc, exit, stopped>>
Finish(r) == /\ st[r][1] = "in" /\ st' = [st EXCEPT ![r] = <<"done">>] /\ UNCHANGED <<q, sent, kids, run, pc, exit, stopped>>
StopKid(k) == /\ run[k] > 0 /\ k \notin exit /\ Cardinality(exit) < K - 1 /\ exit' = exit \cup {k}
              /\ UNCHANGED <<q, sent, st, kids, run, pc, stopped>>
Stop == /\ ~stopped /\ stopped' = TRUE /\ UNCHANGED <<q, sent, st, kids, run, pc, exit>>
Tell == /\ pc = "work" /\ stopped /\ pc' = "drain" /\ exit' = exit \cup kids /\ UNCHANGED <<q, sent, st, kids, run, stopped>>
Drain == /\ pc = "drain" /\ q # <<>> /\ st' = [st EXCEPT ![Head(q)] = <<"done">>] /\ q' = Tail(q)
         /\ UNCHANGED <<sent, kids, run, pc, exit, stopped>>
Next == SendOne \/ Start \/ Stop \/ Tell \/ Drain \/ (\E k \in Kids : Add(k) \/ Take(k) \/ StopKid(k)) \/ \E r \in Reqs : Finish(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Tell) /\ WF_vars(Drain)
        /\ (\A k \in Kids : WF_vars(Take(k))) /\ \A r \in Reqs : WF_vars(Finish(r))
RunOnce == \A k \in Kids : run[k] <= 1
Answered == \A r \in Reqs : (st[r] = <<"queued">> /\ (stopped \/ (\E k \in kids : k \notin exit /\ run[k] > 0)))
                              ~> (st[r] = <<"done">> \/ (~stopped /\ ~\E k \in kids : k \notin exit /\ run[k] > 0))
=============================================================================
