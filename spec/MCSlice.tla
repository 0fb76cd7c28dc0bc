------------------------------ MODULE MCSlice ------------------------------
(***************************************************************************)
(* Design model of net/slice_reader.go: slices of a stream are delivered   *)
(* out of chained buffers without copying, whatever pieces the connection  *)
(* delivers.  A memory cell is <<buffer, offset>>; a byte of the stream is *)
(* its position.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Size, Total, MaxN, MaxBuf
VARIABLES mem,      \* buffer -> sequence of stream positions it holds
          cap,      \* buffer -> its capacity
          cur,      \* sl.buf: <<buffer, from, to>>: cells from..to-1
          pos,      \* bytes of the stream read from the connection
          want,     \* bytes asked for, 0 when idle
          tmp,      \* the buffer being filled: <<buffer, from, to>>
          out       \* delivered: <<buffer, from, to, first position>>
vars == <<mem, cap, cur, pos, want, tmp, out>>
Init == mem = <<>> /\ cap = <<>> /\ cur = <<0, 0, 0>> /\ pos = 0 /\ want = 0 /\ tmp = <<0, 0, 0>> /\ out = <<>>
Len3(s) == s[3] - s[2]
Cap3(s) == IF s[1] = 0 THEN 0 ELSE cap[s[1]] - s[2]
Delivered == IF out = <<>> THEN 0 ELSE LET o == out[Len(out)] IN o[4] + (o[3] - o[2]) - 1
Ask(n) ==
  /\ want = 0 /\ Len(out) < 4
  /\ IF Len3(cur) > n
     THEN /\ out' = Append(out, <<cur[1], cur[2], cur[2] + n, Delivered + 1>>)
          /\ cur' = <<cur[1], cur[2] + n, cur[3]>>
          /\ UNCHANGED <<mem, cap, pos, want, tmp>>
     ELSE IF Cap3(cur) < n
          THEN /\ Len(cap) < MaxBuf
               /\ cap' = Append(cap, IF n > Size THEN n ELSE Size)
               /\ mem' = Append(mem, [k \in 1..(IF n > Size THEN n ELSE Size) |->
                                       IF k <= Len3(cur) THEN mem[cur[1]][cur[2] + k] ELSE 0])
               /\ tmp' = <<Len(cap) + 1, 0, Len3(cur)>> /\ want' = n
               /\ UNCHANGED <<cur, pos, out>>
          ELSE tmp' = cur /\ want' = n /\ UNCHANGED <<mem, cap, cur, pos, out>>
\* the connection delivers some bytes
Fill(k) == /\ want > 0 /\ Len3(tmp) < want /\ pos + k <= Total /\ tmp[3] + k <= cap[tmp[1]]
           /\ mem' = [mem EXCEPT ![tmp[1]] = [c \in DOMAIN @ |-> IF c > tmp[3] /\ c <= tmp[3] + k THEN pos + (c - tmp[3]) ELSE @[c]]]
           /\ tmp' = <<tmp[1], tmp[2], tmp[3] + k>> /\ pos' = pos + k
           /\ UNCHANGED <<cap, cur, want, out>>
Give == /\ want > 0 /\ Len3(tmp) >= want
        /\ out' = Append(out, <<tmp[1], tmp[2], tmp[2] + want, Delivered + 1>>)
        /\ cur' = <<tmp[1], tmp[2] + want, tmp[3]>> /\ want' = 0
        /\ UNCHANGED <<mem, cap, pos, tmp>>
Next == (\E n \in 1..MaxN : Ask(n)) \/ (\E k \in 0..Total : Fill(k)) \/ Give
Spec == Init /\ [][Next]_vars
\* every delivered slice holds its part of the stream, now and later
Exact == \A x \in 1..Len(out) : LET o == out[x] IN
           \A k \in 1..(o[3] - o[2]) : mem[o[1]][o[2] + k] = o[4] + k - 1
Rest == want = 0 => \A k \in 1..Len3(cur) : mem[cur[1]][cur[2] + k] = Delivered + k
=============================================================================
