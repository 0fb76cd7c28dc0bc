---------------------------- MODULE TraceRequest ----------------------------
(* Recorded executions of the real Request against Request.tla. *)
EXTENDS Request, TraceLib
VARIABLE me    \* id and message type of the request
tvars == <<st, chain, held, at, cur, ops, armed, ndel, last, t, i, me>>

Init == ReqInit /\ TraceInit /\ me = [id |-> "", msg |-> ""]

Same == UNCHANGED me
TNew == Is("new") /\ me' = [id |-> E.id, msg |-> E.msg] /\ UNCHANGED rvars
TCall == Is("call") /\ Call(E.o, E.k, E.c, E.b, E.m) /\ Same
TRet == Is("ret") /\ Return(E.o, E.r) /\ Same
TIn == Is("in") /\ Intercept(E.m, E.c, E.b) /\ Same
         /\ TRUE =
            (Enf("R02") => E.id = me.id /\ E.msg = me.msg /\ E.req)
TOut == Is("out") /\ Intercepted(E.m) /\ Same
TDel == Is("del") /\ Deliver(E.c, E.b) /\ Same
         /\ TRUE =
            (Enf("R01") => E.id = me.id /\ E.msg = me.msg)
\* all operations have returned: the response is what was delivered
TEnd == Is("end") /\ ops = [x \in {} |-> 0] /\ at = 0 /\ UNCHANGED rvars /\ Same
         /\ TRUE =
            (Enf("R01") => st = "performed" /\ E.performed /\ E.c = last.c /\ E.b = last.b /\ E.id = me.id /\ E.msg = me.msg)
\* the timeout did not complete a request in time: the only one to blame is what R02 says of timeouts
THang == Is("hang") /\ PROP = "R01" /\ E.what = "timeout" /\ UNCHANGED rvars /\ Same
Quiet == Silent /\ Same /\ ((\E o \in DOMAIN ops : Lin(o)) \/ Fire("fd03") \/ TimerDone)
Next == TNew \/ TCall \/ TRet \/ TIn \/ TOut \/ TDel \/ TEnd \/ THang \/ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
