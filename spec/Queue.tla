------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* What a user observes of the queue of a service (service.go, buffer.go): *)
(* senders send numbered requests, workers receive them.  Many requests    *)
(* sent or received in a row are one event (intervals of numbers).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"
VARIABLE q
\*  sent    sender -> the last number whose sending began     done   ... returned
\*  bulk    sender -> numbers up to this one were received    got    pairs received one by one
\*  last    <<worker, sender>> -> the last number it received  dead   pairs perhaps completed before they were received
\*  over    nothing more happens
\* senders are 1..8, workers 1..4
QInit == q = [sent |-> [s \in 1..8 |-> 0], done |-> [s \in 1..8 |-> 0], bulk |-> [s \in 1..8 |-> 0], got |-> {}, dead |-> {},
              last |-> [c \in 1..4 |-> [s \in 1..8 |-> 0]]]
\* sending of a..b begins, returned
Snd(s, a, b) == /\ TRUE = (a = q.sent[s] + 1)
                /\ q' = [q EXCEPT !.sent[s] = b]
Sent(s, b) == q' = [q EXCEPT !.done[s] = b]
\* a..b will be failed, perhaps before they are received
Dead(s, n) == q' = [q EXCEPT !.dead = @ \cup {<<s, n>>}]
\* the numbers between the last one of s and this one that nobody has received have been lost, unless they were completed
\* with several workers another one may have them, not yet reported: only the end tells
Recv(c, s, n) ==
  /\ TRUE =
     (Enf("Q01") => /\ n <= q.sent[s] /\ n > q.bulk[s]
                    /\ <<s, n>> \notin q.got
                    /\ n > q.last[c][s])
  /\ q' = [q EXCEPT !.got = @ \cup {<<s, n>>}, !.last[c][s] = n]
\* the only worker received a..b in this order
RecvBulk(c, s, a, b) ==
  /\ TRUE =
     (Enf("Q01") => /\ b <= q.sent[s]
                    /\ \A n \in (q.bulk[s] + 1)..(a - 1) : <<s, n>> \in q.dead \cup q.got
                    /\ a > q.bulk[s] /\ a > q.last[c][s])
  /\ q' = [q EXCEPT !.bulk[s] = b, !.last[c][s] = b]
\* the one worker that works has received everything there is: what it passed over must have been completed
\* everything has come to rest
Quiet == /\ TRUE =
            (Enf("Q01") => \A s \in 1..8 : q.sent[s] = q.done[s] /\ \A n \in (q.bulk[s] + 1)..q.sent[s] : <<s, n>> \in q.got \cup q.dead)
         /\ UNCHANGED q
=============================================================================
