------------------------------- MODULE MCPool -------------------------------
(***************************************************************************)
(* Design model of the client's loop (net/client/server.go): it counts its *)
(* connections by the reports it gets from them, starts and stops them at  *)
(* a tick, and fails the queued requests when the last one is gone.        *)
(* Connections 1..C in the order they are started.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Integers
CONSTANTS C, Max, Changes, Bug
VARIABLES cn,    \* connection -> what it is doing: "no", "dial", "up", "half", "end"
          stp,   \* connections that were asked to stop
          rep,   \* reports under way, in order for each connection
          dialing, est, stopping, known, need, exiting, loop, chg, waiting, losses
vars == <<cn, stp, rep, dialing, est, stopping, known, need, exiting, loop, chg, waiting, losses>>
Ids == 1..C
Init == /\ cn = [k \in Ids |-> "no"] /\ stp = {} /\ rep = [k \in Ids |-> <<>>] /\ dialing = 0 /\ est = 0 /\ stopping = 0
        /\ known = {} /\ need = 1 /\ exiting = FALSE /\ loop = TRUE /\ chg = 0 /\ waiting = FALSE /\ losses = 0
Fresh == {k \in Ids : cn[k] = "no"}
NeedConn == need - (dialing + est - (IF Bug = "count" THEN 0 ELSE stopping))
\* a tick of the reconnecter
Tick ==
  /\ loop
  /\ \/ /\ NeedConn > 0 /\ Fresh # {}
        /\ LET k == CHOOSE x \in Fresh : \A y \in Fresh : x <= y IN
           /\ cn' = [cn EXCEPT ![k] = "dial"] /\ known' = known \cup {k} /\ dialing' = dialing + 1
        /\ UNCHANGED <<stp, rep, est, stopping, need, exiting, loop, chg, waiting, losses>>
     \/ /\ NeedConn < 0
        /\ \E k \in known \ stp :
             /\ cn[k] \in {"dial", "up"}
             /\ stp' = stp \cup {k} /\ stopping' = stopping + 1
        /\ UNCHANGED <<cn, rep, dialing, est, known, need, exiting, loop, chg, waiting, losses>>
Dialed(k) == /\ cn[k] = "dial"
             /\ \/ cn' = [cn EXCEPT ![k] = "up"] /\ rep' = [rep EXCEPT ![k] = Append(@, "up")] /\ UNCHANGED losses
                \/ /\ losses < Max /\ losses' = losses + 1
                   /\ cn' = [cn EXCEPT ![k] = "end"] /\ rep' = [rep EXCEPT ![k] = Append(@, "fail")]
             /\ UNCHANGED <<stp, dialing, est, stopping, known, need, exiting, loop, chg, waiting>>
\* the writer ends: the peer went or it was stopped
Half(k) == /\ cn[k] = "up"
           /\ \/ k \in stp /\ UNCHANGED losses
              \/ losses < Max /\ losses' = losses + 1
           /\ cn' = [cn EXCEPT ![k] = "half"] /\ rep' = [rep EXCEPT ![k] = Append(@, "w")]
           /\ UNCHANGED <<stp, dialing, est, stopping, known, need, exiting, loop, chg, waiting>>
Close(k) == /\ cn[k] = "half" /\ cn' = [cn EXCEPT ![k] = "end"] /\ rep' = [rep EXCEPT ![k] = Append(@, "r")]
            /\ UNCHANGED <<stp, dialing, est, stopping, known, need, exiting, loop, chg, waiting, losses>>
\* the loop, and what is left of it after the end, takes a report
Report(k) ==
  /\ rep[k] # <<>>
  /\ rep' = [rep EXCEPT ![k] = Tail(@)]
  /\ LET a == Head(rep[k]) IN
     /\ dialing' = IF a \in {"up", "fail"} THEN dialing - 1 ELSE dialing
     /\ est' = IF a = "up" THEN est + 1 ELSE IF a = "w" THEN est - 1 ELSE est
     /\ stopping' = IF a \in {"fail", "w"} /\ k \in stp THEN stopping - 1 ELSE stopping
     /\ known' = IF a \in {"fail", "r"} THEN known \ {k} ELSE known
     /\ waiting' = IF a \in {"fail", "w"} /\ est' = 0 THEN FALSE ELSE waiting
  /\ loop' = (loop /\ ~(exiting /\ est' + dialing' = 0))
  /\ UNCHANGED <<cn, stp, need, exiting, chg, losses>>
Change(n) == /\ loop /\ ~exiting /\ chg < Changes /\ n # need /\ chg' = chg + 1 /\ need' = n
             /\ UNCHANGED <<cn, stp, rep, dialing, est, stopping, known, exiting, loop, waiting, losses>>
Exit == /\ loop /\ ~exiting /\ exiting' = TRUE /\ need' = 0
        /\ loop' = ~(est + dialing = 0)
        /\ UNCHANGED <<cn, stp, rep, dialing, est, stopping, known, chg, waiting, losses>>
\* a request is sent; connections take it, or the one who refuses after the end
Ask == /\ ~waiting /\ waiting' = TRUE
       /\ UNCHANGED <<cn, stp, rep, dialing, est, stopping, known, need, exiting, loop, chg, losses>>
Serve == /\ waiting /\ (~loop \/ \E k \in Ids : cn[k] = "up" /\ k \notin stp) /\ waiting' = FALSE
         /\ UNCHANGED <<cn, stp, rep, dialing, est, stopping, known, need, exiting, loop, chg, losses>>
Next == \/ Tick \/ Exit \/ Ask \/ Serve
        \/ \E k \in Ids : Dialed(k) \/ Half(k) \/ Close(k) \/ Report(k)
        \/ \E n \in 1..2 : Change(n)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Serve)
        /\ \A k \in Ids : WF_vars(Dialed(k)) /\ WF_vars(Close(k)) /\ WF_vars(Report(k)) /\ WF_vars(k \in stp /\ Half(k))
\* the books agree with the reports
Quiet == \A k \in Ids : rep[k] = <<>>
Books == Quiet => /\ dialing = Cardinality({k \in Ids : cn[k] = "dial"})
                  /\ est = Cardinality({k \in Ids : cn[k] = "up"})
                  /\ stopping = Cardinality({k \in stp : cn[k] \in {"dial", "up"}})
                  /\ known = {k \in Ids : cn[k] \in {"dial", "up", "half"}}
Sane == dialing >= 0 /\ est >= 0 /\ stopping >= 0 /\ stopping <= dialing + est
\* in the end there are as many connections as wanted (as long as new ones can be made)
Enough == (<>[](\E n \in 0..2 : need = n)) => []<>(Fresh = {} \/ Cardinality({k \in Ids : cn[k] = "up" /\ k \notin stp}) = need)
\* after a stop everything is closed and known as such
Over == exiting ~> (~loop /\ known = {} /\ \A k \in Ids : cn[k] \in {"no", "end"})
Answered == waiting ~> (~waiting \/ Fresh = {})
=============================================================================
