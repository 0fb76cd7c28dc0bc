---------------------------- MODULE TraceClient ----------------------------
(* Runs of the real client against a scripted peer. *)
EXTENDS Client, TraceLib
Init == CInit /\ TraceInit
Next ==
  \/ Is("conf") /\ Conf(E.n)
  \/ Is("new") /\ New(E.r, E.id, E.msg, E.b, E.to)
  \/ Is("send") /\ Send(E.r)
  \/ Is("kill") /\ Kill(E.r, E.c)
  \/ Is("accept") /\ Accept(E.k)
  \/ Is("pong") /\ Pong(E.k)
  \/ Is("ping") /\ Ping(E.k, E.id, E.len)
  \/ Is("recv") /\ Recv(E.k, E.id, E.r, E.msg, E.b)
  \/ Is("resp") /\ Resp(E.k, E.id, E.c, E.b)
  \/ Is("wrote") /\ Wrote(E.k, E.id)
  \/ Is("dead") /\ Dead(E.k)
  \/ Is("down") /\ Down
  \/ Is("eof") /\ Eof(E.k)
  \/ Is("stall") /\ Stall(E.k)
  \/ Is("resume") /\ Resume(E.k)
  \/ Is("del") /\ Delivered(E.r, E.id, E.msg, E.c, E.b)
  \/ Is("stop") /\ Stop
  \/ Is("stopped") /\ Stopped
  \/ Is("closed") /\ Closed
  \/ Is("over") /\ Over
  \/ Is("live") /\ Live(E.n)
  \/ Is("idle") /\ Idle
Spec == Init /\ [][Next]_<<c, t, i>>
=============================================================================
