------------------------------- MODULE MCHeap -------------------------------
(***************************************************************************)
(* The heap of custom_timer.go, step for step: a tree in an array of slots *)
(* with up to four children each.  Checked for every order of pushes and   *)
(* removals of up to M timers with deadlines 1..D: it stays a tree of      *)
(* exactly the armed timers whose root is a smallest one.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS M, D, Fifo   \* Fifo: slots are taken smallest first (fewer states), else any free one
VARIABLES h, top, used
vars == <<h, top, used>>
Slots == 1..M
Empty == [e |-> 0, up |-> 0, upi |-> 0, dl |-> 0, down |-> <<0, 0, 0, 0>>]
Init == h = [s \in Slots |-> Empty] /\ top = 0 /\ used = {}

\* putUnder when there is room
Put1(g, u, d) == [g EXCEPT ![d].up = u, ![d].upi = g[u].dl, ![u].down[g[u].dl + 1] = d, ![u].dl = @ + 1]
\* the three comparisons and exchanges of sort4 order four children
Swap(q, a, b) == [q EXCEPT ![a] = q[b], ![b] = q[a]]
Lt(g, q, a, b) == g[q[a]].e < g[q[b]].e
S1(g, q) == IF Lt(g, q, 2, 1) THEN Swap(q, 1, 2) ELSE q
S2(g, q) == IF Lt(g, q, 3, 2) THEN S1(g, Swap(q, 2, 3)) ELSE q
S3(g, q) == IF Lt(g, q, 4, 3) THEN S2(g, Swap(q, 3, 4)) ELSE q
Sorted4(g, q) == S3(g, S2(g, S1(g, q)))
RECURSIVE Put(_, _, _)
Chain4(g, q) == Put(Put(Put(g, q[3], q[4]), q[2], q[3]), q[1], q[2])
Put(g, u, d) ==
  IF g[u].dl < 4 THEN Put1(g, u, d)
  ELSE LET q == Sorted4(g, g[u].down)
           c == Chain4([g EXCEPT ![d].up = u], q)
       IN [c EXCEPT ![u].down = <<q[1], d, 0, 0>>, ![q[1]].upi = 0, ![d].upi = 1, ![u].dl = 2]

Push(s, e) ==
  /\ s \notin used /\ (Fifo => \A o \in Slots \ used : s <= o)
  /\ LET g == [h EXCEPT ![s] = [Empty EXCEPT !.e = e]] IN
     IF top = 0 THEN h' = g /\ top' = s
     ELSE IF e <= h[top].e THEN h' = Put(g, s, top) /\ top' = s
     ELSE h' = Put(g, top, s) /\ UNCHANGED top
  /\ used' = used \cup {s}

\* a leaf leaves the row of its parent
RECURSIVE ShiftFrom(_, _, _)
ShiftFrom(g, u, k) == \* k: 0-based place that becomes free
  IF k = 3 THEN [g EXCEPT ![u].down[4] = 0]
  ELSE LET n == g[u].down[k + 2] IN
       ShiftFrom(IF n = 0 THEN [g EXCEPT ![u].down[k + 1] = 0] ELSE [g EXCEPT ![u].down[k + 1] = n, ![n].upi = @ - 1], u, k + 1)
Leaf(s) == IF s = top THEN [h EXCEPT ![s] = Empty]
           ELSE LET u == h[s].up IN [ShiftFrom(h, u, h[s].upi) EXCEPT ![u].dl = @ - 1, ![s] = Empty]
\* the children are joined below the smallest of them, which takes the place
Joined(s) ==
  LET q == h[s].down n == h[s].dl IN
  IF n = 1 THEN <<h, q[1]>>
  ELSE IF n = 2 THEN IF h[q[1]].e <= h[q[2]].e THEN <<Put(h, q[1], q[2]), q[1]>> ELSE <<Put(h, q[2], q[1]), q[2]>>
  ELSE IF n = 3 THEN LET z == S2(h, S1(h, q)) IN <<Put(Put(h, z[2], z[3]), z[1], z[2]), z[1]>>
  ELSE LET z == Sorted4(h, q) IN <<Chain4(h, z), z[1]>>
Remove(s) ==
  /\ s \in used
  /\ used' = used \ {s}
  /\ IF h[s].dl = 0 THEN h' = Leaf(s) /\ top' = (IF s = top THEN 0 ELSE top)
     ELSE LET g == Joined(s)[1] d == Joined(s)[2] IN
          IF s = top THEN /\ top' = d
                          /\ h' = [g EXCEPT ![d].up = 0, ![d].upi = 0, ![s] = Empty]
          ELSE /\ UNCHANGED top
               /\ h' = [g EXCEPT ![d].up = h[s].up, ![d].upi = h[s].upi, ![h[s].up].down[h[s].upi + 1] = d, ![s] = Empty]
Next == \E s \in Slots : Remove(s) \/ \E e \in 1..D : Push(s, e)
Spec == Init /\ [][Next]_vars

RECURSIVE Below(_, _)
Kids(s) == {h[s].down[k] : k \in 1..h[s].dl}
Below(s, n) == IF n = 0 THEN {s} ELSE {s} \cup UNION {Below(c, n - 1) : c \in Kids(s)}
Root == (top = 0) <=> (used = {})
Tree == /\ top # 0 => Below(top, M) = used
        /\ \A s \in used : /\ \A k \in 1..h[s].dl : /\ h[s].down[k] \in used
                                                    /\ h[h[s].down[k]].up = s /\ h[h[s].down[k]].upi = k - 1
                                                    /\ h[s].e <= h[h[s].down[k]].e
                           /\ \A k \in (h[s].dl + 1)..4 : h[s].down[k] = 0
                           /\ \A c, o \in 1..h[s].dl : c # o => h[s].down[c] # h[s].down[o]
Smallest == top # 0 => \A s \in used : h[top].e <= h[s].e
=============================================================================
