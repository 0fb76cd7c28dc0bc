------------------------------ MODULE MCQueue ------------------------------
(***************************************************************************)
(* Design model of buffer.go: a bounded channel, an elastic row of slots   *)
(* behind it, a loop that moves slots to the channel, senders, one worker  *)
(* and somebody who completes requests while they are queued.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS S, N, Cap, Kill, Bug   \* senders, requests each, channel capacity, requests that may be completed early
VARIABLES ch, head, tail, slot, set, sp, lp, got, state
vars == <<ch, head, tail, slot, set, sp, lp, got, state>>
Senders == 1..S
Reqs == Senders \X (1..N)
Places == 0..(S * N)
KillSet == {<<1, 2>>, <<2, N>>}
\* slot: "new", "free" or a request
Init == /\ ch = <<>> /\ head = 0 /\ tail = 0 /\ slot = [p \in Places |-> <<"new">>] /\ set = FALSE
        /\ sp = [s \in Senders |-> <<"look", 1, 0>>] /\ lp = <<"wait", 0>> /\ got = <<>> /\ state = [r \in Reqs |-> "p"]
\* Send of an unfinished request
Look(s) == /\ sp[s][1] = "look" /\ sp[s][2] <= N
           /\ LET r == <<s, sp[s][2]>> IN
              IF state[r] = "d" THEN sp' = [sp EXCEPT ![s] = <<"look", @[2] + 1, 0>>] /\ UNCHANGED ch
              ELSE IF (tail = head \/ Bug = "overtake") /\ Len(ch) < Cap
                   THEN ch' = Append(ch, r) /\ sp' = [sp EXCEPT ![s] = <<"look", @[2] + 1, 0>>]
                   ELSE sp' = [sp EXCEPT ![s] = <<"add", @[2], 0>>] /\ UNCHANGED ch
           /\ UNCHANGED <<head, tail, slot, set, lp, got, state>>
Add(s) == /\ sp[s][1] = "add" /\ tail' = tail + 1 /\ sp' = [sp EXCEPT ![s] = <<"put", @[2], tail>>]
          /\ UNCHANGED <<ch, head, slot, set, lp, got, state>>
Put(s) == /\ sp[s][1] = "put"
          /\ LET r == <<s, sp[s][2]>> IN
             slot' = [slot EXCEPT ![sp[s][3]] = IF state[r] = "p" THEN <<"set", r>> ELSE <<"free">>]
          /\ sp' = [sp EXCEPT ![s] = <<"sig", @[2], 0>>]
          /\ UNCHANGED <<ch, head, tail, set, lp, got, state>>
Sig(s) == /\ sp[s][1] = "sig" /\ set' = TRUE /\ sp' = [sp EXCEPT ![s] = <<"look", @[2] + 1, 0>>]
          /\ UNCHANGED <<ch, head, tail, slot, lp, got, state>>
\* somebody completes a request
Finish(r) == /\ r \in Kill /\ state[r] = "p" /\ state' = [state EXCEPT ![r] = "d"]
             /\ slot' = [p \in Places |-> IF slot[p] = <<"set", r>> THEN <<"free">> ELSE slot[p]]
             /\ UNCHANGED <<ch, head, tail, set, sp, lp, got>>
\* the loop
LWait == /\ lp[1] = "wait" /\ set /\ set' = FALSE /\ lp' = <<"scan", 0>>
         /\ UNCHANGED <<ch, head, tail, slot, sp, got, state>>
LScan == /\ lp[1] = "scan"
         /\ IF head >= tail \/ slot[head] = <<"new">> THEN lp' = <<"wait", 0>> /\ UNCHANGED <<slot, head>>
            ELSE IF slot[head] = <<"free">> THEN head' = head + 1 /\ UNCHANGED <<lp, slot>>
            ELSE /\ lp' = <<"give", slot[head][2]>> /\ slot' = [slot EXCEPT ![head] = <<"free">>]
                 /\ head' = IF Bug = "early" THEN head + 1 ELSE head
         /\ UNCHANGED <<ch, tail, set, sp, got, state>>
LGive == /\ lp[1] = "give" /\ Len(ch) < Cap
         /\ ch' = Append(ch, lp[2]) /\ head' = (IF Bug = "early" THEN head ELSE head + 1) /\ lp' = <<"scan", 0>>
         /\ UNCHANGED <<tail, slot, set, sp, got, state>>
\* the worker
Take == /\ ch # <<>> /\ got' = Append(got, Head(ch)) /\ ch' = Tail(ch)
        /\ UNCHANGED <<head, tail, slot, set, sp, lp, state>>
Next == (\E s \in Senders : Look(s) \/ Add(s) \/ Put(s) \/ Sig(s)) \/ (\E r \in Kill : Finish(r)) \/ LWait \/ LScan \/ LGive \/ Take
Spec == /\ Init /\ [][Next]_vars /\ \A s \in Senders : WF_vars(Look(s) \/ Add(s) \/ Put(s) \/ Sig(s))
        /\ WF_vars(LWait \/ LScan \/ LGive) /\ WF_vars(Take)
InOrder == \A a, b \in 1..Len(got) : a < b => got[a] # got[b] /\ (got[a][1] = got[b][1] => got[a][2] < got[b][2])
AllCome == <>(\A r \in Reqs : state[r] = "d" \/ \E a \in 1..Len(got) : got[a] = r)
NeverBlocks == \A s \in Senders : sp[s][2] <= N => ENABLED (Look(s) \/ Add(s) \/ Put(s) \/ Sig(s))
=============================================================================
