------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* The layout as such: values of a table of types are written behind each  *)
(* other and read again. What is written can be told apart from what       *)
(* follows, nothing that was cut short is taken for a value, and whatever  *)
(* is accepted is a value which would be written and read as itself.       *)
(*                                                                         *)
(* Bug: "none", or "open": a type that is not delimited counts as one      *)
(***************************************************************************)
EXTENDS Layout
CONSTANTS Bytes, MaxLen, MaxBody, Bug

Fld(tt, s, x) == [t |-> tt, s |-> s, x |-> x]
Table == <<
  [k |-> "num", w |-> 2],
  [k |-> "ber", w |-> 2],
  [k |-> "bytes"],
  [k |-> "slice", e |-> 2],
  [k |-> "slice", e |-> 3],
  [k |-> "array", e |-> 2, n |-> 2],
  [k |-> "struct", f |-> <<Fld(2, "", ""), Fld(3, "s", "ber")>>],
  [k |-> "ptr", e |-> 7],
  [k |-> "struct", f |-> <<Fld(8, "s", "i8"), Fld(4, "c", "ber")>>],
  [k |-> "struct", f |-> <<Fld(2, "s", "ber"), Fld(3, "no", "")>>],
  [k |-> "slice", e |-> 7],
  [k |-> "struct", f |-> <<Fld(10, "s", "i8"), Fld(6, "c", "i8")>>],
  [k |-> "struct", f |-> <<Fld(4, "no", "")>>],
  [k |-> "tuple", f |-> <<2, 3>>] >>
Open == {10, 13}
Closed == (DOMAIN Table \ (Open \cup {8})) \cup (IF Bug = "open" THEN Open ELSE {})

Seqs(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
Nums == {<<a, b>> : a \in Bytes, b \in Bytes}
Few == {<<0, 0>>, <<128, 1>>}
RECURSIVE Vals(_)
Vals(n) ==
  CASE n = 1 -> Nums
    [] n = 2 -> Nums
    [] n = 3 -> Seqs(Bytes)
    [] n = 4 -> Seqs(Few)
    [] n = 5 -> Seqs({<<>>, <<0>>, <<255, 4>>})
    [] n = 6 -> Few \X Few
    [] n = 7 -> Few \X {<<>>, <<200>>}
    [] n = 8 -> {<<>>} \cup {<<x>> : x \in Vals(7)}
    [] n = 9 -> Vals(8) \X Vals(4)
    [] n = 10 -> Few \X {<<>>, <<0>>, <<1, 0>>}
    [] n = 11 -> Seqs({<<(<<0, 0>>), <<>>>>, <<(<<255, 255>>), <<4>>>>})
    [] n = 12 -> Vals(10) \X Vals(6)
    [] n = 13 -> {<<x>> : x \in Vals(4)}
    [] n = 14 -> Few \X {<<>>, <<0>>, <<7, 0>>}
Forms == {"auto", "ber", "i8", "i16"}

VARIABLE c
Init == /\ LInit
        /\ \/ c \in {[do |-> "pair", n |-> n, m |-> m] : n \in DOMAIN Table \ {8}, m \in Forms \cup {"tail"}}
           \/ c \in {[do |-> "body", n |-> n, m |-> m] : n \in Closed, m \in {"auto", "ber"}}
\* two values are written, taken, and read; or a body from elsewhere is read
Next ==
  \/ c.do = "pair" /\ Declare(Table) /\ c' = [c EXCEPT !.do = "put"]
  \/ c.do = "put" /\ \E v \in Vals(c.n) : Put(1, c.n, v, c.m) /\ c' = [do |-> "take", n |-> c.n, m |-> c.m, v |-> v]
  \/ c.do = "take" /\ Take(1, 1, y.w[1]) /\ c' = [c EXCEPT !.do = "read"]
  \/ c.do = "read" /\ Body(1, y.outs[1]) /\ c' = [c EXCEPT !.do = "done"]
  \/ c.do = "body" /\ Declare(Table) /\ c' = [c EXCEPT !.do = "any"]
  \/ c.do = "any" /\ \E n \in 0..MaxBody : \E b \in [1..n -> Bytes] :
       Body(1, b) /\ c' = [do |-> "other", n |-> c.n, m |-> c.m]
Spec == Init /\ [][Next]_<<y, c>>

Delimited == c.m \in {"ber", "i8", "i16"} \/ (c.m = "auto" /\ c.n \in Closed)
b == y.r[1].b
\* a value is read as it was written, and what follows is left alone
RoundTrip ==
  c.do = "done" =>
    /\ (Delimited \/ c.m = "tail") => Decode(c.n, c.m, b, 0) = Ok(c.v, Len(b))
    /\ Delimited => \A s \in {<<0>>, <<255>>, <<1, 128, 3>>} : Decode(c.n, c.m, b \o s, 0) = Ok(c.v, Len(b))
    /\ Delimited => \A s \in {<<0>>, <<255, 7>>} : Decode(c.n, c.m, s \o b, Len(s)) = Ok(c.v, Len(s) + Len(b))
\* nothing that was cut short is taken for a value
NoPrefix ==
  c.do = "done" /\ Delimited => \A n \in 0..Len(b) - 1 : Decode(c.n, c.m, SubSeq(b, 1, n), 0).s = "err"
\* whatever is accepted is within the body, and it is a value like any other
Faithful ==
  c.do = "other" =>
    LET d == Decode(c.n, c.m, b, 0) IN
    d.s = "ok" => /\ d.p <= Len(b)
                  /\ Decode(c.n, c.m, Encode(c.n, d.v, c.m), 0).v = d.v
                  /\ Decode(c.n, c.m, SubSeq(b, 1, d.p), 0) = d
                  /\ Len(Encode(c.n, d.v, c.m)) <= d.p
=============================================================================
