------------------------------ MODULE MCTimer ------------------------------
(***************************************************************************)
(* Design model of the expiry loop of custom_timer.go: one heap, one loop, *)
(* a runtime timer whose function signals the loop's condition variable,   *)
(* and clients that arm and stop timers.  Time advances by ticks, but not  *)
(* while some step that has to be taken is possible for too long (fairness *)
(* only), so lateness shows as a timer that never fires.                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS K, Max, SigLocked   \* timers, last moment, whether the signal is given under the lock
VARIABLES
  now,
  heap,    \* timer -> deadline, 0 when not in the heap
  lock,    \* "free", "loop", "sig"  (clients take it for one step)
  pc,      \* of the loop: "top", "read", "look", "fire", "relock", "reset", "wait", "woken"
  seen,    \* the time the loop has read
  re,      \* reCheck
  x,       \* the timer being fired
  rt,      \* the runtime timer: 0 or the moment
  sig,     \* signal functions under way
  fired, armed, early
vars == <<now, heap, lock, pc, seen, re, x, rt, sig, fired, armed, early>>
T == 1..K
End == Max + 3   \* the clock stops there
In == {k \in T : heap[k] > 0}
Top == CHOOSE k \in In : \A o \in In : heap[k] <= heap[o]
Init == /\ now = 1 /\ heap = [k \in T |-> 0] /\ lock = "loop" /\ pc = "top" /\ seen = 0 /\ re = FALSE /\ x = 0
        /\ rt = 0 /\ sig = 0 /\ fired = [k \in T |-> 0] /\ armed = [k \in T |-> 0] /\ early = FALSE

Tick == now < End /\ now' = now + 1 /\ UNCHANGED <<heap, lock, pc, seen, re, x, rt, sig, fired, armed, early>>
Signal == pc' = IF pc = "wait" THEN "woken" ELSE pc

\* a client
Push(k, d) == /\ lock = "free" /\ heap[k] = 0 /\ armed[k] = fired[k] /\ armed[k] < 2 /\ now + d <= Max - 1
              /\ heap' = [heap EXCEPT ![k] = now + d] /\ armed' = [armed EXCEPT ![k] = @ + 1]
              /\ IF In = {} \/ now + d < heap[Top] THEN Signal ELSE UNCHANGED pc
              /\ UNCHANGED <<now, lock, seen, re, x, rt, sig, fired, early>>
Remove(k) == /\ lock = "free" /\ heap[k] > 0
             /\ heap' = [heap EXCEPT ![k] = 0] /\ armed' = [armed EXCEPT ![k] = @ - 1]
             /\ UNCHANGED <<now, lock, pc, seen, re, x, rt, sig, fired, early>>
\* the runtime timer
Ring == /\ rt > 0 /\ rt <= now /\ rt' = 0 /\ sig' = sig + 1
        /\ UNCHANGED <<now, heap, lock, pc, seen, re, x, fired, armed, early>>
Bell == /\ sig > 0 /\ (SigLocked => lock = "free") /\ sig' = sig - 1 /\ Signal
        /\ UNCHANGED <<now, heap, lock, seen, re, x, rt, fired, armed, early>>
\* the loop
LTop == /\ pc = "top" /\ re' = FALSE /\ seen' = now /\ pc' = "look"
        /\ UNCHANGED <<now, heap, lock, x, rt, sig, fired, armed, early>>
LLook == /\ pc = "look"
         /\ IF In = {} THEN pc' = "reset" /\ UNCHANGED <<heap, x, lock, early>>
            ELSE IF heap[Top] >= seen THEN pc' = (IF re THEN "top" ELSE "reset") /\ UNCHANGED <<heap, x, lock, early>>
            ELSE /\ x' = Top /\ heap' = [heap EXCEPT ![Top] = 0] /\ early' = (early \/ heap[Top] > now)
                 /\ lock' = "free" /\ pc' = "fire"
         /\ UNCHANGED <<now, seen, re, rt, sig, fired, armed>>
LFire == /\ pc = "fire" /\ fired' = [fired EXCEPT ![x] = @ + 1] /\ pc' = "relock"
         /\ UNCHANGED <<now, heap, lock, seen, re, x, rt, sig, armed, early>>
LRelock == /\ pc = "relock" /\ lock = "free" /\ lock' = "loop" /\ re' = TRUE /\ pc' = "look"
           /\ UNCHANGED <<now, heap, seen, x, rt, sig, fired, armed, early>>
\* the duration until the deadline is computed from the time that was read
LReset == /\ pc = "reset" /\ pc' = "sleep"
          /\ rt' = IF In = {} THEN 0 ELSE LET e == now + (heap[Top] - seen) IN IF e > End THEN End ELSE e
          /\ UNCHANGED <<now, heap, lock, seen, re, x, sig, fired, armed, early>>
LSleep == /\ pc = "sleep" /\ pc' = "wait" /\ lock' = "free"
          /\ UNCHANGED <<now, heap, seen, re, x, rt, sig, fired, armed, early>>
\* woken: the wait ends, the code looks at the heap with a new time
LWake == /\ pc = "woken" /\ lock = "free" /\ lock' = "loop" /\ pc' = "top"
         /\ UNCHANGED <<now, heap, seen, re, x, rt, sig, fired, armed, early>>
Loop == LTop \/ LLook \/ LFire \/ LRelock \/ LReset \/ LSleep \/ LWake
Next == Tick \/ (\E k \in T : Remove(k) \/ \E d \in 1..2 : Push(k, d)) \/ Ring \/ Bell \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Ring) /\ SF_vars(Bell) /\ SF_vars(Loop)
NeverEarly == ~early
AtMostOnce == \A k \in T : fired[k] <= armed[k]
\* deadlines lie before Max, the clock goes on long enough: each armed timer fires or is stopped
Fires == \A k \in T : heap[k] > 0 ~> heap[k] = 0
Settles == <>[](\A k \in T : heap[k] = 0 /\ fired[k] = armed[k])
=============================================================================
