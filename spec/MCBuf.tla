------------------------------- MODULE MCBuf -------------------------------
(***************************************************************************)
(* Design model of net/buf_writer.go with a buffer of L bytes: whatever    *)
(* mix of short and long writes and flushes, the bytes that have come out  *)
(* and those buffered are the bytes that were written, in order.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS L, Max
VARIABLES out, buf, ready, n   \* what came out, what is buffered, the buffer was made, bytes written so far
vars == <<out, buf, ready, n>>
Init == out = <<>> /\ buf = <<>> /\ ready = FALSE /\ n = 0
Bytes(k) == [x \in 1..k |-> n + x]
Size == IF ready THEN L ELSE 0
Fits(k) == ~(Len(buf) + k > Size \/ (k > Size \div 4 /\ Len(buf) > Size \div 4))
\* Write of a slice
Write(k) == /\ n + k <= Max /\ n' = n + k
            /\ IF Fits(k) THEN buf' = buf \o Bytes(k) /\ UNCHANGED <<out, ready>>
               ELSE /\ ready' = TRUE
                    /\ IF k > L \div 4 THEN out' = out \o buf \o Bytes(k) /\ buf' = <<>>
                       ELSE out' = out \o buf /\ buf' = Bytes(k)
\* header, code or byte: at most L bytes
Small(k) == /\ n + k <= Max /\ n' = n + k
            /\ IF Len(buf) + k > Size THEN ready' = TRUE /\ out' = out \o buf /\ buf' = Bytes(k)
               ELSE buf' = buf \o Bytes(k) /\ UNCHANGED <<out, ready>>
Flush == out' = out \o buf /\ buf' = <<>> /\ ready' = TRUE /\ UNCHANGED n
Next == Flush \/ (\E k \in 0..(L + 2) : Write(k)) \/ \E k \in {1, 3} : Small(k)
Spec == Init /\ [][Next]_vars
InOrder == out \o buf = [x \in 1..n |-> x]
Bounded == Len(buf) <= L
=============================================================================
