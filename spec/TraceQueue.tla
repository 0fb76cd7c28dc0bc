----------------------------- MODULE TraceQueue -----------------------------
(* Recorded lives of real service queues against Queue.tla. *)
EXTENDS Queue, TraceLib
Init == QInit /\ TraceInit
Next ==
  \/ Is("snd") /\ Snd(E.s, E.a, E.b)
  \/ Is("sent") /\ Sent(E.s, E.b)
  \/ Is("dead") /\ Dead(E.s, E.n)
  \/ Is("rcv") /\ Recv(E.w, E.s, E.n)
  \/ Is("bulk") /\ RecvBulk(E.w, E.s, E.a, E.b)
  \/ Is("quiet") /\ Quiet
Spec == Init /\ [][Next]_<<q, t, i>>
=============================================================================
