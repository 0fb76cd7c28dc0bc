------------------------------- MODULE MCEnd -------------------------------
(***************************************************************************)
(* Design of the whole path: a client that gives each request an id on one *)
(* of its connections, links that keep the order and may break, a server   *)
(* that executes what arrives and answers in any order.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS R, K, W, Bug     \* requests, connections that can be made, wire ids of a connection
VARIABLE v
Reqs == 1..R
Init == v = [req |-> [r \in Reqs |-> [st |-> "new", res |-> 0]],
             live |-> {}, made |-> 0,
             tab |-> [k \in 1..K |-> [w \in 1..W |-> 0]],   \* whose id it is
             up |-> [k \in 1..K |-> <<>>], down |-> [k \in 1..K |-> <<>>],
             fly |-> [k \in 1..K |-> {}],                   \* in service: <<id, request>>
             execs |-> [r \in Reqs |-> 0]]
Connect == v.live = {} /\ v.made < K /\ v' = [v EXCEPT !.made = @ + 1, !.live = {v.made + 1}]
Transmit == \E r \in Reqs, k \in v.live, w \in 1..W :
  /\ v.req[r].st = "new" /\ v.tab[k][w] = 0
  /\ v' = [v EXCEPT !.req[r].st = "sent", !.tab[k][w] = r, !.up[k] = Append(@, <<w, r>>)]
\* the caller's timeout: the id stays taken till its answer comes
Expire == \E r \in Reqs :
  /\ v.req[r].st \in {"new", "sent"}
  /\ v' = [v EXCEPT !.req[r] = [st |-> "done", res |-> 0],
                    !.tab = IF Bug = "reuse" THEN [k \in 1..K |-> [w \in 1..W |-> IF @[k][w] = r THEN 0 ELSE @[k][w]]] ELSE @]
Serve == \E k \in 1..K :
  /\ v.up[k] # <<>>
  /\ LET f == Head(v.up[k]) IN
     v' = [v EXCEPT !.up[k] = Tail(@), !.fly[k] = @ \cup {f}, !.execs[f[2]] = @ + 1]
Answer == \E k \in 1..K : \E f \in v.fly[k] : v' = [v EXCEPT !.fly[k] = @ \ {f}, !.down[k] = Append(@, f)]
Deliver == \E k \in v.live :
  /\ v.down[k] # <<>>
  /\ LET f == Head(v.down[k])
         r == v.tab[k][f[1]]
         w == [v EXCEPT !.down[k] = Tail(@), !.tab[k][f[1]] = 0] IN
     v' = IF r # 0 /\ v.req[r].st = "sent" THEN [w EXCEPT !.req[r] = [st |-> "done", res |-> f[2]]] ELSE w
\* the link breaks: what is under way may still arrive at the server, not at the client
Cut == \E k \in v.live : \E n \in 0..Len(v.up[k]) :
  v' = [v EXCEPT !.live = @ \ {k}, !.up[k] = SubSeq(@, 1, n), !.down[k] = <<>>,
                 !.req = [r \in Reqs |-> IF \E w \in 1..W : v.tab[k][w] = r
                                         THEN (IF v.req[r].st # "sent" THEN @[r]
                                               ELSE IF Bug = "resend" THEN [@[r] EXCEPT !.st = "new"]
                                               ELSE [st |-> "done", res |-> 0])
                                         ELSE @[r]],
                 !.tab[k] = [w \in 1..W |-> 0]]
\* nothing can be reached any more
GiveUp == v.live = {} /\ v.made = K
          /\ v' = [v EXCEPT !.req = [r \in Reqs |-> IF @[r].st = "new" THEN [st |-> "done", res |-> 0] ELSE @[r]]]
Next == Connect \/ Transmit \/ Expire \/ Serve \/ Answer \/ Deliver \/ Cut \/ GiveUp
Spec == Init /\ [][Next]_v /\ WF_v(Connect) /\ WF_v(Transmit) /\ WF_v(Serve) /\ WF_v(Answer) /\ WF_v(Deliver) /\ WF_v(GiveUp)
AtMostOnce == \A r \in Reqs : v.execs[r] <= 1
\* the answer is the answer to this request, which was executed
Right == \A r \in Reqs : v.req[r].res # 0 => v.req[r].res = r /\ v.execs[r] = 1
Answered == \A r \in Reqs : <>(v.req[r].st = "done")
=============================================================================
