---------------------------- MODULE TraceFrames ----------------------------
(* Streams of frames written and read by the real code against Frames.tla. *)
EXTENDS Frames, TraceLib
Init == FInit /\ TraceInit
Next ==
  \/ Is("w") /\ Written(E.kind, E.rc, E.msg, E.id, E.code, E.len, E.body, E.oh, E.oc, E.ob)
  \/ Is("wrest") /\ NoMore(E.n)
  \/ Is("wend") /\ WriteEnd(E.failed, E.err)
  \/ Is("r") /\ Delivered(E.kind, E.rc, E.h, E.c, E.len, E.body, E.rmsg, E.rid, E.rcode, E.rlen, E.rbody)
  \/ Is("rend") /\ ReadEnd(E.whole)
  \/ Is("still") /\ Still(E.n, E.body)
  \/ Is("pong") /\ Pong(E.h, E.ok)
Spec == Init /\ [][Next]_<<f, t, i>>
=============================================================================
