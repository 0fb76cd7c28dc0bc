------------------------------- MODULE Route -------------------------------
(***************************************************************************)
(* Services composed of others: a balancer with children (balancer.go), a  *)
(* statistics wrapper (stat.go) and the registry of clients by address     *)
(* (net/client/auto.go).                                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"
VARIABLE b
\*  kids   children added           stopk   children whose stopping has begun
\*  sent   requests                 took    request -> children that took it, as pairs
\*  tries  <<r, code, body>>        del     delivered requests
\*  stat   requests reported        wrap    there is a statistics wrapper
\*  stop   stopping has begun       over    it has returned
\*  reg    pairs <<address, client>> of the registry
RInit == b = [kids |-> {}, stopk |-> {}, sent |-> {}, took |-> {}, tries |-> {}, del |-> {}, stat |-> {}, wrap |-> FALSE,
              stop |-> FALSE, over |-> FALSE, early |-> {}, reg |-> {}, gets |-> {}]
Wrap == b' = [b EXCEPT !.wrap = TRUE]
AddKid(k) == b' = [b EXCEPT !.kids = @ \cup {k}]
StopKid(k) == b' = [b EXCEPT !.stopk = @ \cup {k}]
Send(r, early) == b' = [b EXCEPT !.sent = @ \cup {r}, !.early = IF early THEN @ \cup {r} ELSE @]
\* a worker of child k (0: no child) received and got it
Take(k, r) ==
  /\ TRUE =
     (Enf("A01") => /\ r \in b.sent /\ (k > 0 => k \in b.kids)
                    /\ (\A x \in b.took : x[1] # r))
  /\ b' = [b EXCEPT !.took = @ \cup {<<r, k>>}]
Try(r, c, y) == b' = [b EXCEPT !.tries = @ \cup {<<r, c, y>>}]
Stat(r, d) ==
  /\ TRUE =
     (Enf("A01") => b.wrap /\ r \in b.sent /\ r \notin b.stat /\ r \notin b.del /\ d >= 0)
  /\ b' = [b EXCEPT !.stat = @ \cup {r}]
Del(r, c, y) ==
  /\ TRUE =
     (Enf("A01") => /\ r \notin b.del
                    /\ (<<r, c, y>> \in b.tries \/ (b.stop /\ c = "ff03" /\ y = ""))
                    /\ (b.wrap => r \in b.stat \cup b.early))
  /\ b' = [b EXCEPT !.del = @ \cup {r}]
Stop == b' = [b EXCEPT !.stop = TRUE]
Stopped == b' = [b EXCEPT !.over = TRUE]
\* at rest: every request has been answered, since some child works or all was stopped
Quiet == /\ TRUE =
            (Enf("A01") => (b.sent \subseteq b.del /\ (b.wrap => b.stat \subseteq b.del /\ b.del \subseteq b.stat \cup b.early)))
         /\ UNCHANGED b
\* the registry: o names the call
Get(o, a) == b' = [b EXCEPT !.gets = @ \cup {<<o, a>>}]
Got(o, a, s) ==
  /\ TRUE =
     (Enf("A01") => /\ <<o, a>> \in b.gets
                    /\ \A x \in b.reg : (x[1] = a) = (x[2] = s))
  /\ b' = [b EXCEPT !.reg = @ \cup {<<a, s>>}]
\* a client of address a reached the server at address n
Reached(a, n) == /\ TRUE =
                    (Enf("A01") => a = n)
                 /\ UNCHANGED b
\* all of the clients are stopped; the next ones are new
Forget == b' = [b EXCEPT !.reg = {}, !.gets = {}]
=============================================================================
