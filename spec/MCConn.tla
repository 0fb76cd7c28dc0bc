------------------------------- MODULE MCConn -------------------------------
(***************************************************************************)
(* Design model of a client connection (net/client/connection): reader,    *)
(* writer and control goroutine, a channel of two notifications between    *)
(* them, and a peer that may answer, close or fall silent.  Requests 1..R  *)
(* come from a queue shared with other connections.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS R, Recheck  \* Recheck: the reader looks for the last answer after it has removed the request
VARIABLES q, infly, wire, ans, done, failed, notify, wr, rd, rdn, st, closedRead, peer, stop, ctl, closeW
vars == <<q, infly, wire, ans, done, failed, notify, wr, rd, rdn, st, closedRead, peer, stop, ctl, closeW>>
Init == /\ q = 1..R /\ infly = {} /\ wire = {} /\ ans = <<>> /\ done = {} /\ failed = {} /\ notify = <<>>
        /\ wr = "run" /\ rd = "run" /\ rdn = FALSE /\ st = {} /\ closedRead = FALSE /\ peer = "open"
        /\ stop = FALSE /\ ctl = "run" /\ closeW = FALSE
\* the writer
Take == /\ wr = "run" /\ ~stop /\ \E r \in q :
             /\ q' = q \ {r} /\ infly' = infly \cup {r}
             /\ IF peer = "gone" \/ "R" \in st
                THEN wr' = "err" /\ UNCHANGED wire
                ELSE wire' = wire \cup {r} /\ UNCHANGED wr
        /\ UNCHANGED <<ans, done, failed, notify, rd, rdn, st, closedRead, peer, stop, ctl, closeW>>
\* a ping on a broken connection, an order to close, or a stop
Quit == /\ wr = "run" /\ (stop \/ closeW \/ peer = "gone")
        /\ wr' = "err"
        /\ UNCHANGED <<q, infly, wire, ans, done, failed, notify, rd, rdn, st, closedRead, peer, stop, ctl, closeW>>
WNotify == /\ wr = "err" /\ Len(notify) < 2 /\ notify' = Append(notify, "w") /\ wr' = "out"
           /\ UNCHANGED <<q, infly, wire, ans, done, failed, rd, rdn, st, closedRead, peer, stop, ctl, closeW>>
\* the reader
Read == /\ rd = "run" /\ ans # <<>>
        /\ ans' = Tail(ans)
        /\ IF Head(ans) \in infly
           THEN infly' = infly \ {Head(ans)} /\ done' = done \cup {Head(ans)}
           ELSE UNCHANGED <<infly, done>>
        /\ rd' = "check"
        /\ UNCHANGED <<q, wire, failed, notify, wr, rdn, st, closedRead, peer, stop, ctl, closeW>>
Check == /\ rd = "check"
         /\ rd' = IF Recheck /\ "W" \in st /\ infly = {} THEN "empty" ELSE "run"
         /\ UNCHANGED <<q, infly, wire, ans, done, failed, notify, wr, rdn, st, closedRead, peer, stop, ctl, closeW>>
RNotify == /\ rd \in {"empty", "eof"} /\ Len(notify) < 2
           /\ notify' = Append(notify, IF rd = "empty" THEN "e" ELSE "r")
           /\ rd' = IF rd = "empty" THEN "run" ELSE "out"
           /\ UNCHANGED <<q, infly, wire, ans, done, failed, wr, rdn, st, closedRead, peer, stop, ctl, closeW>>
End == /\ rd = "run" /\ ((ans = <<>> /\ peer # "open") \/ closedRead)
       /\ rd' = "eof"
       /\ UNCHANGED <<q, infly, wire, ans, done, failed, notify, wr, rdn, st, closedRead, peer, stop, ctl, closeW>>
\* the control goroutine
Control == /\ ctl = "run" /\ notify # <<>>
           /\ notify' = Tail(notify)
           /\ LET a == Head(notify)
                  s == st \cup (IF a = "w" THEN {"W"} ELSE IF a = "r" THEN {"R"} ELSE {}) IN
              /\ st' = s
              /\ closeW' = (closeW \/ a = "r")
              /\ closedRead' = (closedRead \/ ("W" \in s /\ infly = {}))
              /\ ctl' = IF s = {"W", "R"} THEN "exit" ELSE "run"
           /\ UNCHANGED <<q, infly, wire, ans, done, failed, wr, rd, rdn, peer, stop>>
Flush == /\ ctl = "exit" /\ ctl' = "out" /\ failed' = failed \cup infly /\ infly' = {}
         /\ UNCHANGED <<q, wire, ans, done, notify, wr, rd, rdn, st, closedRead, peer, stop, closeW>>
\* the peer answers, half-closes or goes away; once the client's side is closed it does not wait for ever
Answer == /\ peer = "open" /\ \E r \in wire : wire' = wire \ {r} /\ ans' = Append(ans, r)
          /\ UNCHANGED <<q, infly, done, failed, notify, wr, rd, rdn, st, closedRead, peer, stop, ctl, closeW>>
Gone == /\ peer \in {"open", "half"} /\ peer' = "gone"
        /\ UNCHANGED <<q, infly, wire, ans, done, failed, notify, wr, rd, rdn, st, closedRead, stop, ctl, closeW>>
Half == /\ peer = "open" /\ peer' = "half"
        /\ UNCHANGED <<q, infly, wire, ans, done, failed, notify, wr, rd, rdn, st, closedRead, stop, ctl, closeW>>
Stop == /\ ~stop /\ stop' = TRUE
        /\ UNCHANGED <<q, infly, wire, ans, done, failed, notify, wr, rd, rdn, st, closedRead, peer, ctl, closeW>>
Client == Take \/ Quit \/ WNotify \/ Read \/ Check \/ RNotify \/ End \/ Control \/ Flush
Next == Client \/ Answer \/ Gone \/ Half \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Quit) /\ WF_vars(WNotify) /\ WF_vars(Read) /\ WF_vars(Check) /\ WF_vars(RNotify)
             /\ WF_vars(End) /\ WF_vars(Control) /\ WF_vars(Flush) /\ WF_vars(Answer)
\* a request belongs to one place, and nothing answered is failed
Once == done \cap failed = {} /\ (done \cup failed) \cap infly = {} /\ (done \cup failed) \cap q = {}
\* our side is not closed for reading while answers may come
NotEarly == closedRead => \/ infly = {} \/ peer # "open" \/ ctl = "out"
\* the connection ends when the peer goes, and when it is stopped and the peer answers
Ends == (peer = "gone" \/ peer = "half" \/ stop) ~> (ctl = "out")
\* then nothing is left
Nothing == ctl = "out" => infly = {}
\* what was answered before the peer went is delivered
Kept == \A r \in 1..R : (\E n \in 1..Len(ans) : ans[n] = r) ~> (r \in done)
=============================================================================
