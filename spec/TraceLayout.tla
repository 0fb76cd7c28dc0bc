---------------------------- MODULE TraceLayout ----------------------------
(* Values written and bytes read by the real code against Layout.tla. *)
EXTENDS Layout, TraceLib
Init == LInit /\ TraceInit
Next ==
  \/ Is("types") /\ Declare(E.types)
  \/ Is("put") /\ Put(E.w, E.t, E.v, E.m)
  \/ Is("take") /\ Take(E.w, E.k, E.b)
  \/ Is("drop") /\ Drop(E.w)
  \/ Is("again") /\ Again(E.k, E.b)
  \/ Is("body") /\ Body(E.r, E.b)
  \/ Is("get") /\ Get(E.r, E.t, E.m, E.ok, E.v, E.left)
  \/ Is("end") /\ End(E.r, E.done, E.err)
Spec == Init /\ [][Next]_<<y, t, i>>
=============================================================================
