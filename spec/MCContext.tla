----------------------------- MODULE MCContext -----------------------------
(***************************************************************************)
(* Design model of context.go: a context P with a child Q; creators make   *)
(* requests in either of them; answerers answer them; killers cancel or    *)
(* expire P or Q; waiters wait for all.  Steps are those of the code.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS NR, NW, KillP, KillQ   \* requests (odd ones in P, even ones in Q), waiters (on P), killers
VARIABLES
  state,  \* context -> "ok" or the kind of its death
  regs,   \* context -> registered cancelers: requests, or 0, the child, in P
  req,    \* request -> pc of its creation: "no", "read" (state was read as alive), "chained", "made"
  ans,    \* request -> "no", "begun" (won), "unreg" (left the context), "done"
  kpc,    \* killer -> pc: "idle", "loop", "go", "done"
  ksnap,  \* killer -> what it still has to cancel in this round
  qpc,    \* the child: "no", "read", "in", "kill" (is killed by its creation), "made", "done"
  wpc     \* waiter -> "idle", "wait", "done"
vars == <<state, regs, req, ans, kpc, ksnap, qpc, wpc>>
Reqs == 1..NR
Cx(r) == IF r % 2 = 1 THEN "P" ELSE "Q"
\* killers: the user's on P and on Q; "Pq": P's killer inside Q.Cancel
Killers == (IF KillP THEN {"KP"} ELSE {}) \cup (IF KillQ THEN {"KQ"} ELSE {}) \cup {"sub"}
Ctx(k) == IF k = "KP" THEN "P" ELSE "Q"
Waiters == 1..NW

Init == /\ state = [c \in {"P", "Q"} |-> "ok"] /\ regs = [c \in {"P", "Q"} |-> {}]
        /\ req = [r \in Reqs |-> "no"] /\ ans = [r \in Reqs |-> "no"]
        /\ kpc = [k \in Killers |-> "idle"] /\ ksnap = [k \in Killers |-> {}]
        /\ qpc = "no" /\ wpc = [w \in Waiters |-> "idle"]

Wake(c, rg) == IF c = "P" /\ rg = {} THEN [w \in Waiters |-> IF wpc[w] = "wait" THEN "done" ELSE wpc[w]] ELSE wpc

(* NewRequest *)
ReadState(r) == /\ req[r] = "no" /\ (Cx(r) = "Q" => qpc \in {"made"})
                /\ IF state[Cx(r)] = "ok" THEN req' = [req EXCEPT ![r] = "read"] /\ UNCHANGED ans
                   ELSE req' = [req EXCEPT ![r] = "made"] /\ ans' = [ans EXCEPT ![r] = "done"]
                /\ UNCHANGED <<state, regs, kpc, ksnap, qpc, wpc>>
AddCanceler(r) == /\ req[r] = "read"
                  /\ IF state[Cx(r)] = "ok"
                     THEN /\ regs' = [regs EXCEPT ![Cx(r)] = @ \cup {r}] /\ req' = [req EXCEPT ![r] = "made"] /\ UNCHANGED ans
                     ELSE /\ req' = [req EXCEPT ![r] = "cancel"] /\ UNCHANGED <<regs, ans>>
                  /\ UNCHANGED <<state, kpc, ksnap, qpc, wpc>>
\* the creator cancels it itself; the answer may have begun before: then it is not finished yet
CreatorCancels(r) == /\ req[r] = "cancel"
                     /\ req' = [req EXCEPT ![r] = "made"]
                     /\ ans' = [ans EXCEPT ![r] = IF @ = "no" THEN "done" ELSE @]
                     /\ UNCHANGED <<state, regs, kpc, ksnap, qpc, wpc>>
\* an answer: wins, leaves the context, is delivered
Begin(r) == /\ ans[r] = "no" /\ req[r] = "made"
            /\ ans' = [ans EXCEPT ![r] = "begun"] /\ UNCHANGED <<state, regs, req, kpc, ksnap, qpc, wpc>>
Unreg(r) == /\ ans[r] = "begun"
            /\ LET rg == regs[Cx(r)] \ {r} IN
               /\ regs' = [regs EXCEPT ![Cx(r)] = rg]
               /\ wpc' = Wake(Cx(r), rg)
            /\ ans' = [ans EXCEPT ![r] = "unreg"] /\ UNCHANGED <<state, req, kpc, ksnap, qpc>>
Deliver(r) == /\ ans[r] = "unreg"
              /\ ans' = [ans EXCEPT ![r] = "done"] /\ UNCHANGED <<state, regs, req, kpc, ksnap, qpc, wpc>>

(* Child and Done *)
ChildRead == /\ qpc = "no"
             /\ IF state["P"] = "ok" THEN qpc' = "read" /\ UNCHANGED state
                ELSE qpc' = "made" /\ state' = [state EXCEPT !["Q"] = "c"]
             /\ UNCHANGED <<regs, req, ans, kpc, ksnap, wpc>>
ChildAdd == /\ qpc = "read" /\ qpc' = "made"
            /\ IF state["P"] = "ok" THEN regs' = [regs EXCEPT !["P"] = @ \cup {0}] /\ UNCHANGED state
               ELSE state' = [state EXCEPT !["Q"] = "c"] /\ UNCHANGED regs
            /\ UNCHANGED <<req, ans, kpc, ksnap, wpc>>
ChildDone == /\ qpc = "made" /\ \A r \in Reqs : Cx(r) = "Q" => req[r] \in {"no", "made"}
             /\ qpc' = "done"
             /\ LET rg == regs["P"] \ {0} IN regs' = [regs EXCEPT !["P"] = rg] /\ wpc' = Wake("P", rg)
             /\ UNCHANGED <<state, req, ans, kpc, ksnap>>

(* Cancel and Expire *)
Kill(k) == /\ k # "sub" /\ kpc[k] = "idle" /\ (k = "KQ" => qpc # "no")
           /\ IF state[Ctx(k)] = "ok"
              THEN state' = [state EXCEPT ![Ctx(k)] = "c"] /\ kpc' = [kpc EXCEPT ![k] = "loop"]
              ELSE kpc' = [kpc EXCEPT ![k] = "late"] /\ UNCHANGED state
           /\ UNCHANGED <<regs, req, ans, ksnap, qpc, wpc>>
Look(k) == /\ kpc[k] = "loop"
           /\ IF regs[Ctx(k)] = {} THEN kpc' = [kpc EXCEPT ![k] = "done"] /\ UNCHANGED ksnap
              ELSE kpc' = [kpc EXCEPT ![k] = "go"] /\ ksnap' = [ksnap EXCEPT ![k] = regs[Ctx(k)]]
           /\ UNCHANGED <<state, regs, req, ans, qpc, wpc>>
CancelOne(k) ==
  /\ kpc[k] = "go"
  /\ \E x \in ksnap[k] :
      IF x = 0 THEN
        IF state["Q"] = "ok" THEN \* cancel it, as a subroutine
             /\ state' = [state EXCEPT !["Q"] = "c"] /\ kpc' = [kpc EXCEPT ![k] = "insub", !["sub"] = "loop"]
             /\ ksnap' = [ksnap EXCEPT ![k] = @ \ {0}] /\ UNCHANGED <<regs, ans, wpc>>
        ELSE /\ ksnap' = [ksnap EXCEPT ![k] = @ \ {x}] /\ UNCHANGED <<state, regs, ans, kpc, wpc>>
      ELSE /\ ksnap' = [ksnap EXCEPT ![k] = @ \ {x}]
           /\ IF ans[x] = "no" THEN \* r.Cancel(): all of it before it goes on
                LET rg == regs[Cx(x)] \ {x} IN
                ans' = [ans EXCEPT ![x] = "done"] /\ regs' = [regs EXCEPT ![Cx(x)] = rg] /\ wpc' = Wake(Cx(x), rg)
              ELSE UNCHANGED <<ans, regs, wpc>>
           /\ UNCHANGED <<state, kpc>>
  /\ UNCHANGED <<req, qpc>>
Round(k) == /\ kpc[k] = "go" /\ ksnap[k] = {} /\ kpc' = [kpc EXCEPT ![k] = "loop"]
            /\ UNCHANGED <<state, regs, req, ans, ksnap, qpc, wpc>>
SubOver(k) == /\ kpc[k] = "insub" /\ kpc["sub"] = "done" /\ kpc' = [kpc EXCEPT ![k] = "go"]
              /\ UNCHANGED <<state, regs, req, ans, ksnap, qpc, wpc>>

WaitAll(w) == /\ wpc[w] = "idle" /\ wpc' = [wpc EXCEPT ![w] = IF regs["P"] = {} THEN "done" ELSE "wait"]
              /\ UNCHANGED <<state, regs, req, ans, kpc, ksnap, qpc>>

ReqStep(r) == ReadState(r) \/ AddCanceler(r) \/ CreatorCancels(r)
AnsStep(r) == Begin(r) \/ Unreg(r) \/ Deliver(r)
KillStep(k) == Kill(k) \/ Look(k) \/ CancelOne(k) \/ Round(k) \/ SubOver(k)
Next == \/ \E r \in Reqs : ReqStep(r) \/ AnsStep(r)
        \/ ChildRead \/ ChildAdd \/ ChildDone
        \/ \E k \in Killers : KillStep(k)
        \/ \E w \in Waiters : WaitAll(w)
Spec == Init /\ [][Next]_vars
        /\ \A r \in Reqs : WF_vars(ReqStep(r)) /\ WF_vars(AnsStep(r))
        /\ WF_vars(ChildAdd) /\ WF_vars(ChildDone)
        /\ \A k \in Killers : WF_vars(Look(k) \/ CancelOne(k) \/ Round(k) \/ SubOver(k))

Under(c, r) == Cx(r) = c \/ (c = "P" /\ qpc = "made")
\* when a cancellation has returned, everything made before has at least begun to be answered
CancelledAll ==
  \A k \in Killers : (k # "sub" /\ kpc[k] = "done") =>
     \A r \in Reqs : (req[r] = "made" /\ Under(Ctx(k), r)) =>
       \/ ans[r] # "no"
       \* somebody else is at it
       \/ (Ctx(k) = "P" /\ Cx(r) = "Q" /\ \E x \in Killers : x # k /\ Ctx(x) = "Q" /\ kpc[x] \in {"loop", "go"})
       \/ (Ctx(k) = "P" /\ Cx(r) = "Q" /\ state["Q"] = "ok")
\* a child that was made of a dead context, or was in it, is dead when the killer returns
ChildDead == (KillP /\ kpc["KP"] = "done" /\ qpc = "made") => state["Q"] # "ok"
\* nothing new stays alive in a dead context
NoLate == \A r \in Reqs : (req[r] = "made" /\ state[Cx(r)] # "ok" /\ \A k \in Killers : kpc[k] \in {"idle", "done", "late"}) => (ans[r] # "no" \/ state[Cx(r)] = "ok")
WaitersWoken == [](regs["P"] = {} => \A w \in Waiters : wpc[w] # "wait")
KillReturns == \A k \in Killers : kpc[k] = "loop" ~> kpc[k] = "done"
WaitReturns == \A w \in Waiters : wpc[w] = "wait" ~> wpc[w] = "done"
=============================================================================
