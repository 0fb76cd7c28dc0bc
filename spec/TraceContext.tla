---------------------------- MODULE TraceContext ----------------------------
(* Recorded executions with real contexts against Context.tla. *)
EXTENDS Context, TraceLib
tvars == <<par, fin, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, reg, mult, late0, sure, musts, t, i>>
Init == CxInit /\ TraceInit
S(q) == {q[x] : x \in DOMAIN q}
Next ==
  \/ Is("root") /\ Root(E.c)
  \/ Is("begin") /\ Begin(E.o, E.c)
  \/ Is("child") /\ ChildMade(E.o, E.c, E.p, E.ok)
  \/ Is("req") /\ RequestMade(E.o, E.r, E.c, E.ans, E.sent)
  \/ Is("try") /\ Try(E.r, E.c, E.b)
  \/ Is("tried") /\ TryReturn(E.r)
  \/ Is("hs") /\ Executed(E.r, IF Has("o") THEN E.o ELSE 0)
  \/ Is("called") /\ Called(E.o, E.r, E.c, E.code, E.b)
  \/ Is("got") /\ Got(E.r, E.c, E.b)
  \/ Is("kill") /\ Kill(E.o, E.c, E.k)
  \/ Is("killed") /\ KillReturn(E.o, S(E.un))
  \/ Is("look") /\ Look(E.o, E.c)
  \/ Is("seen") /\ Seen(E.o, E.c, E.alive, E.timeout)
  \/ Is("fin") /\ Finish(E.c)
  \/ Is("ts") /\ TaskStart(E.k, E.c, E.p)
  \/ Is("task") /\ TaskMade(E.k, E.c, E.p)
  \/ Is("te") /\ TaskEnd(E.k)
  \/ Is("multi") /\ MultiMade(E.o, E.m, E.c)
  \/ Is("collect") /\ Collect(E.m)
  \/ Is("mran") /\ MultiRan(E.m)
  \/ Is("mgot") /\ MultiGot(E.m, S(E.codes))
  \/ Is("wait") /\ Wait(E.o, E.c, S(E.rs), S(E.cs), S(E.ms))
  \/ Is("waited") /\ WaitReturn(E.o)
  \/ Is("quiet") /\ TRUE =
                    (Enf("C02") => NothingOpen) /\ TRUE = (Enf("C01") => DOMAIN rc \subseteq got) /\ UNCHANGED cvars
Spec == Init /\ [][Next]_tvars
=============================================================================
