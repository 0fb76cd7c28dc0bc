------------------------------ MODULE MCCodes ------------------------------
(***************************************************************************)
(* The mapping of return codes as Server.tla has it: for every             *)
(* configuration of up to N substitutions that a server accepts, every     *)
(* width and every code a service may give, the code that leaves is never  *)
(* of the internal kind, other codes are left alone, and codes that differ *)
(* outside of the substitutions stay apart.                                *)
(***************************************************************************)
EXTENDS Server
CONSTANTS His, Los, N, Bug
Codes == His \X Los
Seqs(k) == [1..k -> [hi : His, lo : Los, thi : His, tlo : Los]]
\* substitutions are a Go map: a code has one
Func(m) == \A a, b \in DOMAIN m : m[a].hi = m[b].hi /\ m[a].lo = m[b].lo => a = b
Accepted(m) == Bug = "accept" \/ \A n \in DOMAIN m : m[n].lo % 8 = Internal /\ m[n].tlo % 8 # Internal
Init == SInit
Next == /\ s.map = {}
        /\ \E k \in 0..N : \E m \in Seqs(k) : \E rc \in {0, 1, 4} :
             /\ Func(m) /\ Accepted(m)
             \* what the specification says about such a configuration
             /\ (Bug = "none" => ~\E n \in DOMAIN m : m[n].lo % 8 # Internal \/ m[n].tlo % 8 = Internal)
             /\ Conf(rc, m)
Spec == Init /\ [][Next]_s
Never == \A c \in Codes : Kind(Wire(Subst(c))) # Internal
Others == \A c \in Codes : Kind(c) # Internal => Subst(c) = c
Upper == \A c \in Codes : (Kind(c) = Internal /\ ~\E m \in s.map : m[1] = c)
            => Subst(c)[1] = c[1] /\ Subst(c)[2] \div 8 = c[2] \div 8 /\ Kind(Subst(c)) = Fatal
Mapped == \A m \in s.map : Subst(m[1]) = m[2]
=============================================================================
