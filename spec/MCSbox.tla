------------------------------- MODULE MCSbox -------------------------------
(***************************************************************************)
(* Responses as such: tuples of a table of types are written, read one by  *)
(* one, and read as a response to places of several kinds.                 *)
(*                                                                         *)
(* Bug: "none", or "spill": the tuple after one that does not fit starts   *)
(* where the reading of that one stopped                                   *)
(***************************************************************************)
EXTENDS Sbox
CONSTANTS Bytes, MaxT, Bug

Fld(tt, s, x) == [t |-> tt, s |-> s, x |-> x]
Table == <<
  [k |-> "num", w |-> 2],
  [k |-> "bytes"],
  [k |-> "ber", w |-> 2],
  [k |-> "one", e |-> 1],
  [k |-> "one", e |-> 2],
  [k |-> "list", e |-> 2],
  [k |-> "arr", e |-> 1, n |-> 2],
  [k |-> "row", f |-> <<1, 2>>, m |-> "", g |-> <<>>],
  [k |-> "row", f |-> <<3>>, m |-> "tail", g |-> <<2>>],
  [k |-> "row", f |-> <<1>>, m |-> "split", g |-> <<3, 2>>] >>
Tuples == 4..10
Nums == {<<a, 0>> : a \in Bytes}
Blobs == {<<>>, <<7>>, <<0, 1>>}
Vals(n) ==
  CASE n = 4 -> Nums
    [] n = 5 -> Blobs
    [] n = 6 -> {<<>>, <<(<<7>>)>>, <<(<<>>), <<0, 1>>>>}
    [] n = 7 -> Nums \X Nums
    [] n = 8 -> Nums \X Blobs
    [] n = 9 -> Nums \X {<<>>, <<(<<(<<7>>)>>)>>}
    [] n = 10 -> Nums \X {<<>>, <<(<<(<<200, 1>>), <<>>>>)>>}
Zero(n) ==
  CASE n = 4 -> <<0, 0>>
    [] n \in {5, 6} -> <<>>
    [] n = 7 -> <<(<<0, 0>>), <<0, 0>>>>
    [] n = 8 -> <<(<<0, 0>>), <<>>>>
    [] OTHER -> <<(<<0, 0>>), <<>>>>
Framed(b) == LE(Len(b) - 4, 4) \o b

VARIABLE c
\* sent: the tuples of the response so far, each with the type it was written as
Init == /\ y = [types |-> Table, w |-> <<>>, outs |-> <<>>, r |-> <<>>]
        /\ c = [sent |-> <<>>]
Next == /\ Len(c.sent) < MaxT
        /\ \E n \in Tuples : \E v \in Vals(n) : c' = [sent |-> Append(c.sent, [t |-> n, v |-> v])]
        /\ UNCHANGED y
Spec == Init /\ [][Next]_<<y, c>>

Resp == LE(Len(c.sent), 4) \o FlattenSeq([i \in 1..Len(c.sent) |-> Framed(Tuple(c.sent[i].t, c.sent[i].v))])
All(n) == Fill(<<[t |-> n, n |-> -1, old |-> <<Zero(n)>>]>>, Resp, 4, Len(c.sent), <<>>, 0)
\* every tuple that was sent as what it is read as comes back, whatever its neighbours are
Apart ==
  \A n \in Tuples :
    LET w == All(n) IN
    /\ w.s = "ok" /\ w.read = Len(c.sent)
    /\ \A i \in 1..Len(c.sent) :
         /\ c.sent[i].t = n => (~w.vs[1][i].free /\ w.vs[1][i].v = c.sent[i].v)
         \* what a tuple is read as depends on nothing but itself
         /\ LET e == Tuple(c.sent[i].t, c.sent[i].v)
                d == TDec(n, e, 0, Len(e), Zero(n))
                x == IF Bug = "spill" /\ i > 1 THEN w.vs[1][i-1] ELSE w.vs[1][i] IN
            x.free = (d.s # "ok") /\ (d.s = "ok" => x.v = d.v)
\* places take the tuples one after another: so many of this kind, so many of that one
Split ==
  \A n \in {4, 8} : \A m \in 0..MaxT :
    LET w == Fill(<<[t |-> n, n |-> m, old |-> [i \in 1..m |-> <<9, 9>>]], [t |-> n, n |-> -1, old |-> <<Zero(n)>>]>>,
                  Resp, 4, Len(c.sent), <<>>, 0)
        a == All(n).vs[1] IN
    /\ w.s = "ok" /\ w.read = Len(c.sent)
    /\ n = 4 => w.vs[1] \o w.vs[2] = a \o [i \in 1..(IF m > Len(c.sent) THEN m - Len(c.sent) ELSE 0) |-> [free |-> FALSE, v |-> <<9, 9>>]]
\* a response which was cut short is not taken for a whole one
Short ==
  \A n \in {4, 6, 8} : \A l \in 4..Len(Resp) - 1 :
    Fill(<<[t |-> n, n |-> -1, old |-> <<Zero(n)>>]>>, SubSeq(Resp, 1, l), 4, Len(c.sent), <<>>, 0).s = "err"
=============================================================================
