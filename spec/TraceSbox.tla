----------------------------- MODULE TraceSbox -----------------------------
(* Requests and responses of the real code against Sbox.tla. *)
EXTENDS Sbox, TraceLib
Init == LInit /\ TraceInit
Next ==
  \/ Is("types") /\ Declare(E.types)
  \/ Is("req") /\ Req(E.k, E.q, E.code, E.b)
  \/ Is("wrote") /\ Wrote(E.t, E.v, E.b)
  \/ Is("many") /\ Many(E.b, E.places, E.ok, E.read, E.total, E.vs)
  \/ Is("first") /\ First(E.b, E.t, E.old, E.ok, E.read, E.total, E.v)
  \/ Is("lone") /\ Lone(E.b, E.sized, E.t, E.old, E.ok, E.v, E.left)
Spec == Init /\ [][Next]_<<y, t, i>>
=============================================================================
