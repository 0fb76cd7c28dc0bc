---------------------------- MODULE TraceServer ----------------------------
(* Runs of the real server against scripted peers and a scripted service. *)
EXTENDS Server, TraceLib
Init == SInit /\ TraceInit
Next ==
  \/ Is("conf") /\ Conf(E.rc, E.map)
  \/ Is("config") /\ Config(E.map, E.refused)
  \/ Is("open") /\ Open(E.k)
  \/ Is("req") /\ Req(E.r, E.k, E.id, E.msg, E.b)
  \/ Is("ping") /\ Ping(E.k, E.id)
  \/ Is("half") /\ Half(E.k)
  \/ Is("part") /\ Part(E.k)
  \/ Is("drop") /\ Drop(E.k)
  \/ Is("lose") /\ Lose(E.k)
  \/ Is("resp") /\ Resp(E.k, E.id, E.msg, <<E.hi, E.lo>>, E.b)
  \/ Is("pong") /\ Pong(E.k, E.id, E.len)
  \/ Is("eof") /\ Eof(E.k)
  \/ Is("exec") /\ Exec(E.r, E.id, E.msg, E.b)
  \/ Is("ans") /\ Ans(E.r, <<E.hi, E.lo>>, E.b, E.id, E.msg, E.rb)
  \/ Is("fin") /\ Fin(E.r, <<E.hi, E.lo>>, E.b)
  \/ Is("stop") /\ Stop
  \/ Is("stopped") /\ Stopped
  \/ Is("done") /\ Finished
  \/ Is("prompt") /\ Prompt
  \/ Is("idle") /\ Idle
Spec == Init /\ [][Next]_<<s, t, i>>
=============================================================================
