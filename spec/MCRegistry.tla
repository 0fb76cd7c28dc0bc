----------------------------- MODULE MCRegistry -----------------------------
(***************************************************************************)
(* Design model of net/client/auto.go: callers look for a client without   *)
(* the lock, then again with it, and replace the whole map by a copy.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS P, A, Recheck    \* callers, addresses, whether the second look is there
VARIABLES map, pc, ad, res, lock, next
vars == <<map, pc, ad, res, lock, next>>
Callers == 1..P
Addrs == 1..A
Init == /\ map = [a \in Addrs |-> 0] /\ pc = [p \in Callers |-> "look"] /\ ad \in [Callers -> Addrs]
        /\ res = [p \in Callers |-> 0] /\ lock = 0 /\ next = 1
Look(p) == /\ pc[p] = "look"
           /\ IF map[ad[p]] # 0 THEN res' = [res EXCEPT ![p] = map[ad[p]]] /\ pc' = [pc EXCEPT ![p] = "done"]
              ELSE pc' = [pc EXCEPT ![p] = "lock"] /\ UNCHANGED res
           /\ UNCHANGED <<map, ad, lock, next>>
Lock(p) == /\ pc[p] = "lock" /\ lock = 0 /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "again"]
           /\ UNCHANGED <<map, ad, res, next>>
Again(p) == /\ pc[p] = "again"
            /\ IF Recheck /\ map[ad[p]] # 0 THEN res' = [res EXCEPT ![p] = map[ad[p]]] /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED next
               ELSE res' = [res EXCEPT ![p] = next] /\ next' = next + 1 /\ pc' = [pc EXCEPT ![p] = "swap"]
            /\ UNCHANGED <<map, ad, lock>>
SwapIn(p) == /\ pc[p] = "swap" /\ map' = [map EXCEPT ![ad[p]] = res[p]] /\ pc' = [pc EXCEPT ![p] = "unlock"]
             /\ UNCHANGED <<ad, res, lock, next>>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = 0 /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<map, ad, res, next>>
Next == \E p \in Callers : Look(p) \/ Lock(p) \/ Again(p) \/ SwapIn(p) \/ Unlock(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Callers : SF_vars(Look(p) \/ Lock(p) \/ Again(p) \/ SwapIn(p) \/ Unlock(p))
OnePerAddress == \A p, o \in Callers : res[p] # 0 /\ res[o] # 0 => ((ad[p] = ad[o]) = (res[p] = res[o]))
Ends == <>(\A p \in Callers : pc[p] = "done")
=============================================================================
