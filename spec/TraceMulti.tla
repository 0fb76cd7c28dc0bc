----------------------------- MODULE TraceMulti -----------------------------
(* Recorded lives of real multi requests against Multi.tla. *)
EXTENDS Multi, TraceLib
S(q) == {q[x] : x \in DOMAIN q}
Init == MuInit /\ TraceInit
Next ==
  \/ Is("arm") /\ Arm
  \/ Is("issue") /\ Issue
  \/ Is("issued") /\ Issued(E.p, E.id, E.ans, E.svc)
  \/ Is("hs") /\ Executed(E.p)
  \/ Is("try") /\ Try(E.p, E.c, E.b)
  \/ Is("kill") /\ Kill(E.o, E.k, E.via)
  \/ Is("killed") /\ Killed(E.o, S(E.un))
  \/ Is("collect") /\ Collect(E.how)
  \/ Is("got") /\ Got(E.p, E.c, E.b)
  \/ Is("over") /\ Over
  \/ Is("quiet") /\ TRUE = (Enf("M01") => m.over) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, t, i>>
=============================================================================
