------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* The frame format (net/header.go).  Words are sequences of four bytes,   *)
(* least significant first, as TLC has no 32 bit unsigned numbers.  Bodies *)
(* are strings of hexadecimal digits with their length.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"

LE(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
Num(w) == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]   \* below 2^31
PingMsg == <<0, 255, 0, 0>>
PingId == <<255, 255, 255, 255>>
Protocol == <<2, 3, 0, 0>>
Zero == <<0, 0, 0, 0>>
\* bytes of the return code in a frame; kind is "q" for requests and "s" for responses
CodeLen(kind, rc, msg) == IF kind = "q" \/ msg = PingMsg THEN 0 ELSE rc
Header(kind, rc, msg, id, len) == msg \o LE(len + CodeLen(kind, rc, msg)) \o id
CodeBytes(kind, rc, msg, code) == SubSeq(code, 1, CodeLen(kind, rc, msg))
Pad(c) == [k \in 1..4 |-> IF k <= Len(c) THEN c[k] ELSE 0]

VARIABLE f
\*  dead   the stream has ended or failed      bodies  delivered bodies by number
FInit == f = [dead |-> FALSE, bodies |-> <<>>]

\* a frame was given to the writer; oh, oc, ob are the bytes that came out for it: header, code and body
Written(kind, rc, msg, id, code, len, body, oh, oc, ob) ==
  /\ TRUE = (Enf("W01") => /\ oh = Header(kind, rc, msg, id, len)
                           /\ oc = CodeBytes(kind, rc, msg, code)
                           /\ ob = body)
  /\ UNCHANGED f
\* nothing else came out
NoMore(rest) == TRUE = (Enf("W01") => rest = 0) /\ UNCHANGED f
\* writing or flushing reports an error if and only if the connection failed
WriteEnd(failed, err) == TRUE = (Enf("W01") => (failed <=> err)) /\ UNCHANGED f

\* the reader delivered a frame whose bytes in the stream are h (header), c (code), and a body of len bytes
\* short: the declared length has no place for a return code
Delivered(kind, rc, h, c, len, body, rmsg, rid, rcode, rlen, rbody) ==
  LET msg == SubSeq(h, 1, 4) id == SubSeq(h, 9, 12) n == Num(SubSeq(h, 5, 8)) cl == CodeLen(kind, rc, msg) IN
  /\ TRUE = (Enf("W01") =>
              /\ ~f.dead
              /\ rmsg = msg /\ rid = id /\ rlen = len /\ rbody = body
              /\ len = (IF n < cl THEN n ELSE n - cl)
              /\ rcode = (IF kind = "q" THEN Zero ELSE IF n < cl THEN Protocol ELSE Pad(c))
              /\ Len(c) = (IF n < cl THEN 0 ELSE cl))
  /\ f' = [f EXCEPT !.bodies = Append(@, rbody)]
\* the reader reported an error; whole: there was a whole frame yet
ReadEnd(whole) == /\ TRUE = (Enf("W01") => ~whole)
                  /\ f' = [f EXCEPT !.dead = TRUE]
\* much later the n-th body is looked at again
Still(n, body) == /\ TRUE = (Enf("W01") => f.bodies[n] = body)
                  /\ UNCHANGED f
\* the first answer of a peer has to be a ping of the ping id
Pong(h, ok) == /\ TRUE = (Enf("W01") => (ok <=> (SubSeq(h, 1, 4) = PingMsg /\ SubSeq(h, 9, 12) = PingId)))
               /\ UNCHANGED f
=============================================================================
