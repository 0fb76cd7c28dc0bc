------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The binary layout of values: what writing a value of a type produces    *)
(* and what reading some bytes as a type yields.                           *)
(*                                                                         *)
(* A type is a number of the table y.types:                                *)
(*   [k |-> "num", w]      w bytes, the least significant one first        *)
(*   [k |-> "flt", w]      such a number, floating; w is 4                 *)
(*   [k |-> "ber", w]      such a number in groups of 7 bits, the most     *)
(*                         significant group first                         *)
(*   [k |-> "bytes"]       bytes or characters                             *)
(*   [k |-> "raw", n]      n bytes                                         *)
(*   [k |-> "slice", e]    any number of items                             *)
(*   [k |-> "array", e, n] n items                                         *)
(*   [k |-> "tuple", f]    one item of each of these types                 *)
(*   [k |-> "ptr", e]      nothing or an item                              *)
(*   [k |-> "struct", f]   fields [t, s, x]: a type, and whether its size  *)
(*                         ("s") or count ("c") precedes it in the form x, *)
(*                         nothing does ("no"), or what is usual ("")      *)
(* Numbers are sequences of bytes, the least significant one first; other  *)
(* values are sequences of values.                                         *)
(*                                                                         *)
(* Forms: "auto" is self-delimiting, "tail" takes everything that is       *)
(* there, and the others are the forms of a size in front.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"
EnfAny(S) == PROP \in S \/ PROP = "ALL"

VARIABLE y
\* types: the table
\* w: what has been written to a writer and not taken; outs: everything that was taken
\* r: a reader [b: body, p: how much of it was consumed, err]
LInit == y = [types |-> <<>>, w |-> <<>>, outs |-> <<>>, r |-> <<>>]
T(n) == y.types[n]

(******************************** numbers *********************************)
LE(n, w) == [i \in 1..w |-> IF i > 3 THEN (IF i = 4 THEN n \div 16777216 ELSE 0) ELSE (n \div 256^(i-1)) % 256]
Pad(v) == v \o SubSeq(<<0, 0, 0, 0, 0, 0, 0, 0>>, 1, 8 - Len(v))
\* the groups of seven bits of eight bytes, least significant first
Groups(v) ==
  LET n == v[1] + 256*v[2] + 65536*v[3] + 16777216*(v[4] % 16)
      m == (v[4] \div 16) + 16*v[5] + 4096*v[6] + 1048576*v[7]
  IN <<n % 128, (n \div 128) % 128, (n \div 16384) % 128, n \div 2097152,
       m % 128, (m \div 128) % 128, (m \div 16384) % 128, m \div 2097152, v[8] % 128, v[8] \div 128>>
\* and back
Bytes8(g) ==
  LET n == g[1] + 128*g[2] + 16384*g[3] + 2097152*g[4]
      m == g[5] + 128*g[6] + 16384*g[7] + 2097152*g[8]
  IN <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) + 16 * (m % 16),
       (m \div 16) % 256, (m \div 4096) % 256, m \div 1048576, g[9] + 128*g[10]>>
BerOf(n) == \* of a natural number below 2^28
  IF n < 128 THEN <<n>>
  ELSE IF n < 16384 THEN <<128 + n \div 128, n % 128>>
  ELSE IF n < 2097152 THEN <<128 + n \div 16384, 128 + ((n \div 128) % 128), n % 128>>
  ELSE <<128 + n \div 2097152, 128 + ((n \div 16384) % 128), 128 + ((n \div 128) % 128), n % 128>>
RECURSIVE Top(_, _)
Top(g, k) == IF k = 1 \/ g[k] # 0 THEN k ELSE Top(g, k - 1)
BerLong(v) ==
  LET g == Groups(Pad(v))
      top == Top(g, 10)
  IN [i \in 1..top |-> IF i = top THEN g[1] ELSE 128 + g[top+1-i]]
Ber(v) == IF \E i \in 4..Len(v) : v[i] # 0 THEN BerLong(v)
          ELSE BerOf(v[1] + (IF Len(v) > 1 THEN 256 * v[2] ELSE 0) + (IF Len(v) > 2 THEN 65536 * v[3] ELSE 0))
Widths == [i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8]
Size(x, n) == IF x = "ber" THEN Ber(LE(n, 4)) ELSE LE(n, Widths[x])

(******************************** writing *********************************)
\* sequences one after the other
RECURSIVE Join(_, _, _)
Join(f, a, z) == IF a > z THEN <<>> ELSE IF a = z THEN f[a] ELSE LET m == (a + z) \div 2 IN Join(f, a, m) \o Join(f, m + 1, z)
Flat(f) == LET g == f IN Join(g, 1, Len(g))
RECURSIVE Count(_, _)
Count(n, v) ==
  CASE T(n).k \in {"bytes", "slice", "array", "tuple"} -> Len(v)
    [] T(n).k = "ptr" -> IF v = <<>> THEN 0 ELSE Count(T(n).e, v[1])
    [] OTHER -> 1
RECURSIVE Enc(_, _, _)
Enc(n, v, m) ==
  LET Ahead(c) == IF m = "auto" THEN LE(c, 4) ELSE <<>>
      Field(f, x) ==
        LET raw == Enc(f.t, x, "tail") IN
        CASE f.s = "" -> Enc(f.t, x, "auto")
          [] f.s = "no" -> raw
          [] f.s = "s" -> Size(f.x, Len(raw)) \o raw
          [] f.s = "c" -> Size(f.x, Count(f.t, x)) \o raw
  IN CASE T(n).k \in {"num", "flt", "raw"} -> v
       [] T(n).k = "ber" -> Ber(v)
       [] T(n).k = "bytes" -> Ahead(Len(v)) \o v
       [] T(n).k = "slice" -> Ahead(Len(v)) \o Flat([i \in 1..Len(v) |-> Enc(T(n).e, v[i], "auto")])
       [] T(n).k = "array" -> Flat([i \in 1..Len(v) |-> Enc(T(n).e, v[i], "auto")])
       [] T(n).k = "tuple" -> Ahead(Len(v)) \o Flat([i \in 1..Len(v) |-> Enc(T(n).f[i], v[i], "auto")])
       [] T(n).k = "ptr" -> IF v = <<>> THEN <<>> ELSE Enc(T(n).e, v[1], m)
       [] T(n).k = "struct" -> Flat([i \in 1..Len(v) |-> Field(T(n).f[i], v[i])])
Encode(n, v, m) ==
  IF m \in {"auto", "tail"} THEN Enc(n, v, m) ELSE LET raw == Enc(n, v, "tail") IN Size(m, Len(raw)) \o raw

(******************************** reading *********************************)
\* s: "ok", "err", or "loose" when a number does not fit its type: nothing is promised then
Ok(v, p) == [s |-> "ok", v |-> v, p |-> p]
Err == [s |-> "err", v |-> <<>>, p |-> 0]
Loose == [s |-> "loose", v |-> <<>>, p |-> 0]
Part(b, p, n) == SubSeq(b, p+1, p+n)

\* what is not a number is so quietly
Quiet(v) == IF v[4] % 128 = 127 /\ v[3] >= 128 /\ (v[3] % 128) + v[2] + v[1] > 0 /\ v[3] % 128 < 64
            THEN [v EXCEPT ![3] = @ + 64] ELSE v
Nat3(v) == \* numbers no body is long enough for are all the same
  IF \E i \in 4..Len(v) : v[i] # 0 THEN -1
  ELSE v[1] + (IF Len(v) > 1 THEN 256 * v[2] ELSE 0) + (IF Len(v) > 2 THEN 65536 * v[3] ELSE 0)
\* a number in groups of bits, w bytes wide
RECURSIVE EndOf(_, _, _)
EndOf(b, q, l) == IF q > l THEN 0 ELSE IF b[q] < 128 THEN q ELSE EndOf(b, q + 1, l)
ShortBer(b, p, q) == \* at most four groups
  b[q] + (IF q > p + 1 THEN 128 * (b[q-1] % 128) ELSE 0) + (IF q > p + 2 THEN 16384 * (b[q-2] % 128) ELSE 0)
       + (IF q > p + 3 THEN 2097152 * (b[q-3] % 128) ELSE 0)
DecBer(w, b, p, l) ==
  LET q == EndOf(b, p + 1, l) IN
  IF q = 0 THEN Err
  ELSE IF q - p <= 4
       THEN LET n == ShortBer(b, p, q) IN
            IF w < 4 /\ n >= 256^w THEN Loose
            ELSE Ok(SubSeq(<<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>, 1, w), q)
  ELSE IF (\E j \in p+1..q-10 : b[j] # 128) \/ (q - p >= 10 /\ b[q-9] % 128 > 1) THEN Err
  ELSE LET g == [j \in 1..10 |-> IF q - j >= p THEN b[q-j+1] % 128 ELSE 0]
           v == Bytes8(g)
       IN IF \E i \in w+1..8 : v[i] # 0 THEN Loose
          ELSE Ok(SubSeq(v, 1, w), q)
\* a size or count; it comes as a natural number
DecSize(x, b, p, l) ==
  LET d == IF x = "ber" THEN DecBer(8, b, p, l)
           ELSE IF p + Widths[x] > l THEN Err ELSE Ok(Part(b, p, Widths[x]), p + Widths[x])
      n == Nat3(d.v)
  IN IF d.s = "err" THEN Err ELSE IF n < 0 THEN Err ELSE Ok(n, d.p)

RECURSIVE Dec(_, _, _, _, _), Items(_, _, _, _, _, _), Each(_, _, _, _, _), Fields(_, _, _, _, _, _), Counted(_, _, _, _, _), Sized(_, _, _, _, _)
\* n items, or as many as there are
Items(e, n, b, p, l, acc) ==
  IF n = 0 \/ (n < 0 /\ p = l) THEN Ok(acc, p)
  ELSE LET d == Dec(e, "auto", b, p, l) IN
       IF d.s # "ok" THEN d ELSE Items(e, n - 1, b, d.p, l, Append(acc, d.v))
Each(f, b, p, l, acc) ==
  IF Len(acc) = Len(f) THEN Ok(acc, p)
  ELSE LET d == Dec(f[Len(acc) + 1], "auto", b, p, l) IN
       IF d.s # "ok" THEN d ELSE Each(f, b, d.p, l, Append(acc, d.v))
\* everything up to l and nothing more
Whole(n, b, p, l) ==
  LET d == Dec(n, "tail", b, p, l) IN IF d.s = "ok" /\ d.p # l THEN Err ELSE d
Sized(n, x, b, p, l) ==
  LET z == DecSize(x, b, p, l) IN
  IF z.s # "ok" THEN z ELSE IF z.p + z.v > l THEN Err ELSE Whole(n, b, z.p, z.p + z.v)
Counted(n, c, b, p, l) ==
  CASE T(n).k = "bytes" -> IF p + c > l THEN Err ELSE Ok(Part(b, p, c), p + c)
    [] T(n).k = "slice" -> IF c > l - p THEN Err ELSE Items(T(n).e, c, b, p, l, <<>>)
    [] T(n).k = "ptr" -> IF c = 0 THEN Ok(<<>>, p)
                         ELSE LET d == Counted(T(n).e, c, b, p, l) IN IF d.s = "ok" THEN Ok(<<d.v>>, d.p) ELSE d
    [] T(n).k = "array" -> IF c # T(n).n THEN Err ELSE Dec(n, "auto", b, p, l)
    [] OTHER -> IF c # 1 THEN Err ELSE Dec(n, "auto", b, p, l)
Fields(f, m, b, p, l, acc) ==
  IF Len(acc) = Len(f) THEN Ok(acc, p)
  ELSE LET h == f[Len(acc) + 1]
           z == DecSize(h.x, b, p, l)
           d == CASE h.s = "" -> Dec(h.t, "auto", b, p, l)
                  [] h.s = "no" -> Dec(h.t, "tail", b, p, l)
                  [] h.s = "s" -> Sized(h.t, h.x, b, p, l)
                  [] h.s = "c" -> IF z.s # "ok" THEN z ELSE Counted(h.t, z.v, b, z.p, l)
       IN IF d.s # "ok" THEN d ELSE Fields(f, m, b, d.p, l, Append(acc, d.v))
Dec(n, m, b, p, l) ==
  CASE T(n).k = "num" -> IF p + T(n).w > l THEN Err ELSE Ok(Part(b, p, T(n).w), p + T(n).w)
    [] T(n).k = "flt" -> IF p + T(n).w > l THEN Err ELSE Ok(Quiet(Part(b, p, T(n).w)), p + T(n).w)
    [] T(n).k = "raw" -> IF T(n).n < 0 \/ p + T(n).n > l THEN Err ELSE Ok(Part(b, p, T(n).n), p + T(n).n)
    [] T(n).k = "ber" -> DecBer(T(n).w, b, p, l)
    [] T(n).k \in {"bytes", "slice"} ->
         IF m = "auto" THEN LET z == DecSize("i32", b, p, l) IN IF z.s # "ok" THEN z ELSE Counted(n, z.v, b, z.p, l)
         ELSE IF T(n).k = "bytes" THEN Ok(Part(b, p, l - p), l)
         ELSE Items(T(n).e, -1, b, p, l, <<>>)
    [] T(n).k = "array" -> Items(T(n).e, T(n).n, b, p, l, <<>>)
    [] T(n).k = "tuple" ->
         IF m = "auto" THEN LET z == DecSize("i32", b, p, l) IN
                            IF z.s # "ok" THEN z ELSE IF z.v # Len(T(n).f) THEN Err ELSE Each(T(n).f, b, z.p, l, <<>>)
         ELSE Each(T(n).f, b, p, l, <<>>)
    [] T(n).k = "ptr" -> IF p = l THEN Ok(<<>>, p)
                         ELSE LET d == Dec(T(n).e, m, b, p, l) IN IF d.s = "ok" THEN Ok(<<d.v>>, d.p) ELSE d
    [] T(n).k = "struct" -> Fields(T(n).f, m, b, p, l, <<>>)
Decode(n, m, b, p) ==
  CASE m = "auto" -> Dec(n, "auto", b, p, Len(b))
    [] m = "tail" -> Whole(n, b, p, Len(b))
    [] m = "some" -> Dec(n, "tail", b, p, Len(b))   \* items without a count in front
    [] OTHER -> Sized(n, m, b, p, Len(b))

(******************************** the steps *******************************)
Declare(types) == y' = [y EXCEPT !.types = types]
At(f, n, d) == IF n \in DOMAIN f THEN f[n] ELSE d
\* a value was written
Put(w, n, v, m) == y' = [y EXCEPT !.w = (w :> (At(@, w, <<>>) \o Encode(n, v, m))) @@ @]
\* what has been written is taken, or dropped
Take(w, k, b) == /\ TRUE = (Enf("X01") => b = At(y.w, w, <<>>))
                 /\ y' = [y EXCEPT !.w = (w :> <<>>) @@ @, !.outs = (k :> b) @@ @]
Drop(w) == y' = [y EXCEPT !.w = (w :> <<>>) @@ @]
\* a result is looked at again later
Again(k, b) == /\ TRUE = (Enf("X01") => b = y.outs[k])
               /\ UNCHANGED y
\* a body to be read
Body(r, b) == y' = [y EXCEPT !.r = (r :> [b |-> b, p |-> 0, err |-> FALSE]) @@ @]
\* something was read: whether it succeeded, what it was, and how much is left (-1: with a reader nobody has)
Get(r, n, m, ok, v, left) ==
  LET q == y.r[r]
      d == IF q.err THEN Err ELSE Decode(n, m, q.b, q.p)
      p == IF left >= 0 THEN Len(q.b) - left ELSE IF d.s = "ok" THEN d.p ELSE q.p
  IN /\ TRUE = (EnfAny({"X01", "X02"}) => (d.s = "ok" => (ok /\ v = d.v /\ p = d.p)))
     /\ TRUE = (Enf("X02") => (d.s = "err" => ~ok))
     /\ TRUE = (Enf("X02") => (q.err => p = q.p))
     /\ TRUE = (Enf("X02") => p >= q.p)
     /\ y' = [y EXCEPT !.r[r] = [q EXCEPT !.p = p, !.err = ~ok]]
\* whether the reader says that it is done, and whether it reports an error
End(r, done, err) ==
  LET q == y.r[r] IN
  /\ TRUE = (Enf("X02") => (done <=> (~q.err /\ q.p = Len(q.b))))
  /\ TRUE = (Enf("X02") => (err <=> ~(~q.err /\ q.p = Len(q.b))))
  /\ UNCHANGED y
=============================================================================
