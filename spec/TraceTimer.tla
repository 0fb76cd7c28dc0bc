----------------------------- MODULE TraceTimer -----------------------------
(* Recorded lives of real timers, one after the other, against Timer.tla. *)
EXTENDS Timer, TraceLib
Init == TmInit /\ TraceInit
Next ==
  \/ Is("arm") /\ Arm(E.t, E.d)
  \/ Is("armed") /\ Armed(E.t)
  \/ Is("fire") /\ Fire(E.t, E.lag)
  \/ Is("stopped") /\ Stopped(E.t)
  \/ Is("next") /\ NextTimer
Spec == Init /\ [][Next]_<<w, t, i>>
=============================================================================
