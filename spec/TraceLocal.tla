----------------------------- MODULE TraceLocal -----------------------------
(* Runs of the real client against the real server, with a proxy between them. *)
EXTENDS Local, TraceLib
Init == EInit /\ TraceInit
Next ==
  \/ Is("conf") /\ Conf(E.rc, E.map)
  \/ Is("new") /\ New(E.r, E.id, E.msg, E.b, E.to)
  \/ Is("send") /\ Send(E.r)
  \/ Is("kill") /\ Kill(E.r, <<E.hi, E.lo>>)
  \/ Is("cut") /\ Cut
  \/ Is("stop") /\ Stop
  \/ Is("exec") /\ Exec(E.r, E.msg, E.b)
  \/ Is("ans") /\ Ans(E.r, <<E.hi, E.lo>>, E.b)
  \/ Is("del") /\ Delivered(E.r, E.id, E.msg, <<E.hi, E.lo>>, E.b)
  \/ Is("idle") /\ Idle
Spec == Init /\ [][Next]_<<e, t, i>>
=============================================================================
