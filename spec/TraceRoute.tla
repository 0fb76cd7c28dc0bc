----------------------------- MODULE TraceRoute -----------------------------
(* Recorded lives of balancers, statistics wrappers and client registries. *)
EXTENDS Route, TraceLib
Init == RInit /\ TraceInit
Next ==
  \/ Is("wrap") /\ Wrap
  \/ Is("kid") /\ AddKid(E.k)
  \/ Is("stopkid") /\ StopKid(E.k)
  \/ Is("snd") /\ Send(E.r, E.early)
  \/ Is("take") /\ Take(E.k, E.r)
  \/ Is("try") /\ Try(E.r, E.c, E.b)
  \/ Is("stat") /\ Stat(E.r, E.d)
  \/ Is("del") /\ Del(E.r, E.c, E.b)
  \/ Is("stop") /\ Stop
  \/ Is("stopped") /\ Stopped
  \/ Is("quiet") /\ Quiet
  \/ Is("get") /\ Get(E.o, E.a)
  \/ Is("got") /\ Got(E.o, E.a, E.s)
  \/ Is("reached") /\ Reached(E.a, E.n)
  \/ Is("forget") /\ Forget
Spec == Init /\ [][Next]_<<b, t, i>>
=============================================================================
