---------------------------- MODULE TraceService ----------------------------
(* Recorded executions of the real ParallelService against Service.tla. *)
EXTENDS Service, TraceLib
tvars == <<W, rq, slot, res, tries, armed, stop, chk, late, extra, t, i>>
Init == SvInit /\ TraceInit
\* taking is not visible: it is placed right before the event that needs it
TTake == /\ Silent
         /\ \/ E.e \in {"hs", "del", "failret"} /\ Take(IF E.e = "failret" THEN (CHOOSE x \in tries : x.o = E.o).r ELSE E.r)
            \/ E.e = "stopped" /\ \E r \in DOMAIN rq : rq[r] = "queued" /\ Take(r)
Next ==
  \/ Is("cfg") /\ Config(E.w)
  \/ Is("new") /\ Create(E.r)
  \/ Is("arm") /\ Arm(E.r)
  \/ Is("send") /\ Send(E.r, E.to)
  \/ Is("sent") /\ UNCHANGED svars
  \/ Is("hs") /\ HandlerStart(E.r)
  \/ Is("hc") /\ HandlerLooks(E.r)
  \/ Is("he") /\ HandlerEnd(E.r, E.c, E.b, E.alive, E.timeout)
  \/ Is("fail") /\ Fail(E.o, E.r, E.c)
  \/ Is("failret") /\ FailReturn(E.o)
  \/ Is("del") /\ Deliver(E.r, E.c, E.b)
  \/ Is("stop") /\ Stop
  \/ Is("stopped") /\ StopReturn
  \/ Is("quiet") /\ TRUE =
                    (Enf("S01") \/ Enf("S02") => AllAnswered) /\ UNCHANGED svars
  \* many requests at once: all of them were answered, once, with the shutdown code or by their handler
  \/ Is("bulk") /\ UNCHANGED svars /\ TRUE =
                                      (Enf("S02") => E.sent = E.shut + E.served /\ E.other = 0 /\ E.more = 0 /\ E.served <= E.started /\ E.started <= W + 1)
  \/ Is("hang") /\ PROP = "R03" /\ UNCHANGED svars
  \/ TTake
Spec == Init /\ [][Next]_tvars
=============================================================================
