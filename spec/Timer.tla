------------------------------- MODULE Timer -------------------------------
(***************************************************************************)
(* What a user observes of one timer (custom_timer.go): it is armed for a  *)
(* deadline, fires, may be stopped and armed again.  Times are in          *)
(* microseconds.  Calls are observed by their begin and their return.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"
VARIABLE w
\*  on    "no", "yes": armed and must fire, "may": stopped too late, perhaps firing
\*  lo    not before that          hi    not later than that, but for the lag of the machine
\*  amb   firings still possible of earlier armings
TmInit == w = [on |-> "no", lo |-> 0, hi |-> 0, d |-> 0, amb |-> 0]
Slack == 400000

\* the next timer; nothing may be left of this one
NextTimer == /\ TRUE =
                (Enf("T01") => w.on # "yes")
             /\ w' = [on |-> "no", lo |-> 0, hi |-> 0, d |-> 0, amb |-> 0]
Arm(at, d) == /\ w' = [on |-> "yes", lo |-> at + d, hi |-> 2000000000, d |-> d, amb |-> IF w.on = "may" THEN w.amb + 1 ELSE w.amb]
\* it may have fired meanwhile: then it is not armed any more
Armed(at) == w' = IF w.on = "yes" THEN [w EXCEPT !.hi = at + w.d] ELSE w
Fire(at, lag) ==
  \/ /\ w.on \in {"yes", "may"}
     /\ TRUE =
        (Enf("T01") => /\ at >= w.lo
                       /\ (w.on = "yes" => at <= w.hi + Slack + 4 * lag))
     /\ w' = [w EXCEPT !.on = "no"]
  \/ w.amb > 0 /\ w' = [w EXCEPT !.amb = @ - 1]
  \/ ~Enf("T01") /\ UNCHANGED w
\* Stop was called and returned: before the deadline it ends it all, too late it may fire yet
Stopped(at) ==
  IF w.on # "yes" THEN UNCHANGED w
  ELSE w' = [w EXCEPT !.on = IF at <= w.lo THEN "no" ELSE "may"]
=============================================================================
