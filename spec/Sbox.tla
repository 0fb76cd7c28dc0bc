-------------------------------- MODULE Sbox --------------------------------
(***************************************************************************)
(* Storage requests and responses on top of the layout of fields.          *)
(*                                                                         *)
(* Types of tuples, in the same table:                                     *)
(*   [k |-> "one", e]        a single field                                *)
(*   [k |-> "list", e]       any number of fields of a type                *)
(*   [k |-> "arr", e, n]     n fields of a type                            *)
(*   [k |-> "row", f, m, g]  a field of each of the types f; then, when m  *)
(*                           is "tail" or "split", groups of fields of the *)
(*                           types g, as many as there are                 *)
(*   [k |-> "any", f]        a field of each of the types f                *)
(*   [k |-> "opt", e]        a tuple somewhere else                        *)
(* A tuple is the number of its fields followed by the fields, every one   *)
(* of which is preceded by its size. A response is the number of tuples    *)
(* and the tuples, every one of which is preceded by its size (the number  *)
(* of fields does not count).                                              *)
(***************************************************************************)
EXTENDS Layout

(******************************** writing *********************************)
FieldOf(n, v) == LET raw == Enc(n, v, "tail") IN Size("ber", Len(raw)) \o raw
Same(e, v) == FlattenSeq([i \in 1..Len(v) |-> FieldOf(e, v[i])])
Row(f, v) == FlattenSeq([i \in 1..Len(f) |-> FieldOf(f[i], v[i])])
RECURSIVE Tuple(_, _)
Tuple(n, v) ==
  CASE T(n).k = "one" -> LE(1, 4) \o FieldOf(T(n).e, v)
    [] T(n).k \in {"list", "arr"} -> LE(Len(v), 4) \o Same(T(n).e, v)
    [] T(n).k = "any" -> LE(Len(v), 4) \o Row(T(n).f, v)
    [] T(n).k = "opt" -> Tuple(T(n).e, v[1])
    [] T(n).k = "row" ->
         LET rest == IF T(n).m = "" THEN <<>> ELSE v[Len(T(n).f) + 1] IN
         LE(Len(T(n).f) + Len(rest) * Len(T(n).g), 4) \o Row(T(n).f, v)
         \o FlattenSeq([i \in 1..Len(rest) |-> Row(T(n).g, rest[i])])
Flag(ret) == IF ret THEN 1 ELSE 0
Code == [select |-> 17, store |-> 13, delete |-> 21, update |-> 19, rpc |-> 22]
Item(e) == Tuple(e.t, e.v)
Op(o) == LET raw == IF o.t = 0 THEN <<>> ELSE Enc(o.t, o.v, "tail") IN
         o.f \o <<o.o>> \o Size("ber", Len(raw)) \o raw
Str(s) == Size("ber", Len(s)) \o s
Request(k, q) ==
  CASE k = "select" ->
         q.space \o q.index \o q.offset
         \o (CASE q.limit = "n" -> LE(Len(q.keys), 4)
               [] q.limit = "all" -> <<255, 255, 255, 127>>
               [] OTHER -> q.max)
         \o LE(Len(q.keys), 4) \o FlattenSeq([i \in 1..Len(q.keys) |-> Item(q.keys[i])])
    [] k = "store" -> q.space \o LE(Flag(q.ret) + 2 * q.mode, 4) \o Item(q.tuple)
    [] k = "delete" -> q.space \o LE(Flag(q.ret), 4) \o Item(q.tuple)
    [] k = "update" -> q.space \o LE(Flag(q.ret), 4) \o Item(q.tuple)
                       \o LE(Len(q.ops), 4) \o FlattenSeq([i \in 1..Len(q.ops) |-> Op(q.ops[i])])
    [] k = "rpc" -> LE(0, 4) \o Str(q.name) \o LE(Len(q.args), 4)
                    \o FlattenSeq([i \in 1..Len(q.args) |-> Str(q.args[i])])

(******************************** reading *********************************)
\* n fields of a type
RECURSIVE SameFrom(_, _, _, _, _, _), RowFrom(_, _, _, _, _), Groups2(_, _, _, _, _, _), TDec(_, _, _, _, _)
SameFrom(e, n, b, p, l, acc) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE LET d == Sized(e, "ber", b, p, l) IN
       IF d.s # "ok" THEN d ELSE SameFrom(e, n - 1, b, d.p, l, Append(acc, d.v))
\* a field of each of some types
RowFrom(f, b, p, l, acc) ==
  IF Len(acc) = Len(f) THEN Ok(acc, p)
  ELSE LET d == Sized(f[Len(acc) + 1], "ber", b, p, l) IN
       IF d.s # "ok" THEN d ELSE RowFrom(f, b, d.p, l, Append(acc, d.v))
Groups2(g, n, b, p, l, acc) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE LET d == RowFrom(g, b, p, l, <<>>) IN
       IF d.s # "ok" THEN d ELSE Groups2(g, n - 1, b, d.p, l, Append(acc, d.v))
Least(a, c) == IF a < c THEN a ELSE c
\* a tuple is read to where old was; fields that are missing are left as they were
TDec(n, b, p, l, old) ==
  LET z == IF p + 4 > l THEN Err ELSE Ok(<<>>, p + 4)
      k == Nat3(Part(b, p, 4))
      c == IF k < 0 THEN 16777216 ELSE k \* more than any body has
      tt == T(n) IN
  IF tt.k = "opt" THEN LET d == TDec(tt.e, b, p, l, IF old = <<>> THEN tt.z ELSE old[1]) IN
                       IF d.s = "ok" THEN Ok(<<d.v>>, d.p) ELSE d
  ELSE IF z.s # "ok" THEN Err
  ELSE CASE tt.k = "one" -> IF c < 1 THEN Err ELSE Sized(tt.e, "ber", b, z.p, l)
         [] tt.k = "list" -> IF c > l - z.p THEN Err ELSE SameFrom(tt.e, c, b, z.p, l, <<>>)
         [] tt.k = "arr" -> IF c < tt.n THEN Err ELSE SameFrom(tt.e, tt.n, b, z.p, l, <<>>)
         [] tt.k = "any" -> IF c < Len(tt.f) THEN Err ELSE RowFrom(tt.f, b, z.p, l, <<>>)
         [] tt.k = "row" ->
              LET n1 == Least(c, Len(tt.f))
                  d == RowFrom(SubSeq(tt.f, 1, n1), b, z.p, l, <<>>)
                  rest == c - Len(tt.f)
                  g == IF rest < 0 THEN Ok(old[Len(tt.f) + 1], d.p)
                       ELSE Groups2(tt.g, rest \div Len(tt.g), b, d.p, l, <<>>)
                  v == d.v \o SubSeq(old, n1 + 1, Len(tt.f))
              IN IF tt.m # "" /\ c > l - z.p THEN Err
                 ELSE IF d.s # "ok" THEN d
                 ELSE IF tt.m = "" THEN Ok(v, d.p)
                 ELSE IF g.s # "ok" THEN g ELSE Ok(Append(v, g.v), g.p)
\* where a tuple with its size in front ends; 0 if it is cut short
TEnd(b, p) ==
  LET z == DecSize("i32", b, p, Len(b)) IN
  IF z.s # "ok" \/ z.v + 4 > Len(b) - z.p THEN 0 ELSE z.p + z.v + 4

\* how many tuples there are, or -1 where nothing is long enough to say so; -2 when it is not there
Total(b) == IF Len(b) < 4 THEN -2 ELSE Nat3(SubSeq(b, 1, 4))

\* Places are filled one after another: [t, n, old] n places, or with n = -1 as many as there are tuples.
\* s: what became of every place: a list of values per group; free where anything may be
RECURSIVE Fill(_, _, _, _, _, _)
Fill(places, b, p, k, acc, read) ==
  LET pl == Head(places)
      RECURSIVE Go(_, _, _, _)
      Go(n, q, m, vs) == \* n-th place of the group, m tuples left
        IF m = 0 \/ (pl.n >= 0 /\ n > pl.n)
        THEN [s |-> "ok", p |-> q, left |-> m, vs |-> vs]
        ELSE LET e == TEnd(b, q) IN
             IF e = 0 THEN [s |-> "err", p |-> q, left |-> m, vs |-> vs]
             ELSE LET old == IF pl.n < 0 THEN pl.old[1] ELSE pl.old[n]
                      d == TDec(pl.t, b, q + 4, e, old)
                  IN Go(n + 1, e, m - 1, Append(vs, [free |-> d.s # "ok", v |-> d.v]))
  IN IF places = <<>> THEN [s |-> "ok", vs |-> acc, read |-> read]
     ELSE LET g == Go(1, p, k, <<>>)
              \* untouched places
              vs == IF pl.n < 0 THEN g.vs
                    ELSE g.vs \o [i \in 1..pl.n - Len(g.vs) |-> [free |-> FALSE, v |-> pl.old[Len(g.vs) + i]]]
              r == read + Len(g.vs)
          IN IF g.s = "err" THEN [s |-> "err", vs |-> acc, read |-> r]
             ELSE Fill(Tail(places), b, g.p, g.left, Append(acc, vs), r)

(******************************** the steps *******************************)
\* a request was encoded; or a tuple by itself was
Req(k, q, code, b) == /\ TRUE = (Enf("B01") => (code = Code[k] /\ b = Request(k, q)))
                      /\ UNCHANGED y
Wrote(n, v, b) == /\ TRUE = (Enf("B01") => b = Tuple(n, v))
                  /\ UNCHANGED y
\* a response was read to many places
Many(b, places, ok, read, total, vs) ==
  LET k == Total(b)
      w == Fill(places, b, 4, IF k = -1 THEN 16777216 ELSE k, <<>>, 0) IN
  /\ TRUE = (Enf("B02") => (k = -2 => ~ok))
  /\ TRUE = (Enf("B02") => (k >= 0 => total = k))
  /\ TRUE = (Enf("B02") => (k # -2 => ok = (w.s = "ok")))
  /\ TRUE = (Enf("B02") => (k # -2 => read = w.read))
  /\ TRUE = (Enf("B02") => ((k # -2 /\ ok) =>
       /\ Len(vs) = Len(w.vs)
       /\ \A i \in 1..Len(vs) : /\ Len(vs[i]) = Len(w.vs[i])
                                /\ \A j \in 1..Len(vs[i]) : (w.vs[i][j].free \/ vs[i][j] = w.vs[i][j].v)))
  /\ UNCHANGED y
\* the first tuple of a response was read; t = 0 when nobody wants to know what it is
First(b, n, old, ok, read, total, v) ==
  LET k == Total(b)
      e == IF k = -2 THEN 0 ELSE TEnd(b, 4)
      d == IF e = 0 THEN Err ELSE IF n = 0 THEN Ok(v, e) ELSE TDec(n, b, 8, e, old) IN
  /\ TRUE = (Enf("B02") => (k = -2 => (~ok /\ ~read)))
  /\ TRUE = (Enf("B02") => (k >= 0 => total = k))
  /\ TRUE = (Enf("B02") => (k = 0 => (ok /\ ~read /\ v = old)))
  /\ TRUE = (Enf("B02") => ((k \notin {-2, 0} /\ d.s = "err") => ~ok))
  /\ TRUE = (Enf("B02") => ((k \notin {-2, 0} /\ d.s = "ok") => (ok /\ read /\ v = d.v)))
  /\ TRUE = (Enf("B02") => ((k \notin {-2, 0} /\ e = 0) => ~read))
  /\ UNCHANGED y
\* a tuple was read; with its size in front, or without
Lone(b, sized, n, old, ok, v, left) ==
  LET e == IF sized THEN TEnd(b, 0) ELSE Len(b)
      p == IF sized THEN 4 ELSE 0
      d == IF sized /\ e = 0 THEN Err ELSE IF n = 0 THEN Ok(v, p) ELSE TDec(n, b, p, e, old) IN
  /\ TRUE = (Enf("B02") => (d.s = "err" => ~ok))
  /\ TRUE = (Enf("B02") => (d.s = "ok" => (ok /\ v = d.v /\ Len(b) - left = (IF sized THEN e ELSE d.p))))
  /\ UNCHANGED y
=============================================================================
