------------------------------ MODULE MCMulti ------------------------------
(***************************************************************************)
(* Design model of wait_group.go: the owner issues N requests one by one   *)
(* and then collects them as a list or as a stream, while others answer    *)
(* them and up to two killers cancel or expire the whole.                  *)
(* The steps are the critical sections and atomic operations of the code.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, NK, Mode   \* Mode: "list" or "stream"
VARIABLES
  r, c,      \* counters of issued and answered requests
  kind,      \* set of "wait", "chan", "c", "t"
  resp,      \* collected responses
  ch,        \* <<"nil", "open", "closed" or "panic", contents>>
  own,       \* owner: <<"issue" or "check" or "fail", request>>, <<"collect", "wait", "drain" or "done", 0>>
  st,        \* request -> "no", "out", "pre" (answer begun), "in" (its Respond uses the stream), "put", "done"
  kp,        \* killer -> <<"idle">> | <<"fail", i, upto>> | <<"done">>
  woken, out \* the waiter was signalled; what the owner got
vars == <<r, c, kind, resp, ch, own, st, kp, woken, out>>
Reqs == 1..N
Kills == 1..NK
Init == /\ r = 0 /\ c = 0 /\ kind = {} /\ resp = <<>> /\ ch = <<"nil", <<>>>> /\ own = <<"issue", 1>>
        /\ st = [q \in Reqs |-> "no"] /\ kp = [k \in Kills |-> <<"idle">>] /\ woken = FALSE /\ out = <<>>

\* Request: append, count, then look whether everything was killed
Issue == /\ own[1] = "issue"
         /\ st' = [st EXCEPT ![own[2]] = "out"] /\ r' = r + 1
         /\ own' = <<"check", own[2]>>
         /\ UNCHANGED <<c, kind, resp, ch, kp, woken, out>>
Check == /\ own[1] = "check"
         /\ LET q == own[2] IN
            /\ st' = IF kind \cap {"c", "t"} # {} /\ st[q] = "out" THEN [st EXCEPT ![q] = "pre"] ELSE st
            /\ own' = IF q < N THEN <<"issue", q + 1>> ELSE <<"collect", 0>>
         /\ UNCHANGED <<r, c, kind, resp, ch, kp, woken, out>>
\* an answer wins
Answer(q) == /\ st[q] = "out" /\ st' = [st EXCEPT ![q] = "pre"]
             /\ UNCHANGED <<r, c, kind, resp, ch, own, kp, woken, out>>
\* Respond, first half, under the lock (Each and Results hold it as well, they are single steps)
Respond(q) == /\ st[q] = "pre"
              /\ IF ch[1] = "nil"
                 THEN /\ resp' = Append(resp, q) /\ c' = c + 1 /\ st' = [st EXCEPT ![q] = "done"]
                      /\ woken' = (woken \/ (c + 1 = r /\ "wait" \in kind /\ own = <<"wait", 0>>)) /\ UNCHANGED ch
                 ELSE /\ st' = [st EXCEPT ![q] = "in"] /\ UNCHANGED <<resp, c, woken, ch>>
              /\ UNCHANGED <<r, kind, own, kp, out>>
Put(q) == /\ st[q] = "in" /\ Len(ch[2]) < N
          /\ ch' = IF ch[1] = "closed" THEN <<"panic", <<>>>> ELSE <<"open", Append(ch[2], q)>>
          /\ st' = [st EXCEPT ![q] = "put"]
          /\ UNCHANGED <<r, c, kind, resp, own, kp, woken, out>>
Count(q) == /\ st[q] = "put" /\ st' = [st EXCEPT ![q] = "done"] /\ c' = c + 1
            /\ ch' = IF c + 1 = r THEN <<IF ch[1] = "open" THEN "closed" ELSE "panic", ch[2]>> ELSE ch
            /\ UNCHANGED <<r, kind, resp, own, kp, woken, out>>

\* Results and Each: first everything is failed when the multi request was killed (the owner is a killer then)
Collect == /\ own = <<"collect", 0>>
           /\ own' = IF kind \cap {"c", "t"} # {} /\ c # r THEN <<"fail", 1>> ELSE <<"lock", 0>>
           /\ UNCHANGED <<r, c, kind, resp, ch, st, kp, woken, out>>
OwnFail == /\ own[1] = "fail"
           /\ LET q == own[2] IN
              /\ st[q] \in {"out", "done", "put", "in", "pre"}
              /\ st' = IF st[q] = "out" THEN [st EXCEPT ![q] = "pre"] ELSE st
              /\ own' = IF q < N THEN <<"fail", q + 1>> ELSE <<"lock", 0>>
           /\ UNCHANGED <<r, c, kind, resp, ch, kp, woken, out>>
Lock == /\ own = <<"lock", 0>>
        /\ IF Mode = "list"
           THEN /\ kind' = kind \cup {"wait"} /\ UNCHANGED <<ch, resp>>
                /\ IF c < r THEN own' = <<"wait", 0>> /\ UNCHANGED out ELSE own' = <<"done", 0>> /\ out' = resp
           ELSE /\ kind' = kind \cup {"chan"} /\ resp' = <<>> /\ UNCHANGED out
                /\ ch' = <<IF c = r THEN "closed" ELSE "open", resp>> /\ own' = <<"drain", 0>>
        /\ UNCHANGED <<r, c, st, kp, woken>>
Wake == /\ own = <<"wait", 0>> /\ woken /\ own' = <<"done", 0>> /\ out' = resp
        /\ UNCHANGED <<r, c, kind, resp, ch, st, kp, woken>>
Drain == /\ own = <<"drain", 0>>
         /\ IF ch[2] # <<>> THEN out' = Append(out, Head(ch[2])) /\ ch' = <<ch[1], Tail(ch[2])>> /\ UNCHANGED own
            ELSE ch[1] = "closed" /\ own' = <<"done", 0>> /\ UNCHANGED <<out, ch>>
         /\ UNCHANGED <<r, c, kind, resp, st, kp, woken>>

\* Cancel (odd killers) and Expire (even ones)
KCode(k) == IF k % 2 = 1 THEN "c" ELSE "t"
Kill(k) == /\ kp[k] = <<"idle">> /\ kind' = kind \cup {KCode(k)} /\ kp' = [kp EXCEPT ![k] = <<"look">>]
           /\ UNCHANGED <<r, c, resp, ch, own, st, woken, out>>
KLook(k) == /\ kp[k] = <<"look">>
            /\ kp' = [kp EXCEPT ![k] = IF c = r THEN <<"done">> ELSE <<"fail", 1, r>>]
            /\ UNCHANGED <<r, c, kind, resp, ch, own, st, woken, out>>
KFail(k) == /\ kp[k][1] = "fail"
            /\ LET q == kp[k][2] IN
               /\ st' = IF q <= kp[k][3] /\ st[q] = "out" THEN [st EXCEPT ![q] = "pre"] ELSE st
               /\ kp' = [kp EXCEPT ![k] = IF q < kp[k][3] THEN <<"fail", q + 1, kp[k][3]>> ELSE <<"done">>]
            /\ UNCHANGED <<r, c, kind, resp, ch, own, woken, out>>

Owner == Issue \/ Check \/ Collect \/ OwnFail \/ Lock \/ Wake \/ Drain
Next == Owner \/ (\E q \in Reqs : Answer(q) \/ Respond(q) \/ Put(q) \/ Count(q)) \/ \E k \in Kills : Kill(k) \/ KLook(k) \/ KFail(k)
Fair == /\ WF_vars(Owner)
        /\ \A q \in Reqs : WF_vars(Respond(q) \/ Put(q) \/ Count(q))
        /\ \A k \in Kills : WF_vars(KLook(k) \/ KFail(k))
Spec == Init /\ [][Next]_vars /\ Fair
SpecAnswered == Spec /\ \A q \in Reqs : WF_vars(Answer(q))

NoPanic == ch[1] = "nil" \/ ch[1] # "panic"
ExactlyOnce == own = <<"done", 0>> => (Len(out) = N /\ {out[x] : x \in 1..Len(out)} = Reqs)
NeverTwice == Cardinality({out[x] : x \in 1..Len(out)}) = Len(out)
Killed == \A k \in Kills : kp[k] = <<"done">> => \A q \in Reqs : st[q] = "out" => own = <<"check", q>>
\* killed or answered, collecting ends
Ends == (\E k \in Kills : kp[k][1] # "idle") ~> own = <<"done", 0>>
EndsAnswered == <>(own = <<"done", 0>>)
=============================================================================
