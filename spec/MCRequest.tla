----------------------------- MODULE MCRequest -----------------------------
(* Design model: every interleaving of a few operations on one request. *)
EXTENDS Request
CONSTANTS MaxOps, MaxMarks, MaxRetry
VARIABLES nops, nmarks, nretry, seen, timed, took
mvars == <<nops, nmarks, nretry, seen, timed, took>>
vars == <<st, chain, held, at, cur, ops, armed, ndel, last, nops, nmarks, nretry, seen, timed, took>>

MCInit == ReqInit /\ nops = 0 /\ nmarks = 0 /\ nretry = 0 /\ seen = [m \in 1..MaxMarks |-> 0] /\ timed = FALSE /\ took = 0

Kinds == {"setpending", "setinfly", "setinflyb", "chain", "respond", "fail", "settimeout"}
Issue ==
  /\ nops < MaxOps /\ nops' = nops + 1
  /\ \E k \in Kinds :
       LET o == nops + 1
           mark == k \in {"chain", "setinflyb"} IN
       /\ mark => nmarks < MaxMarks
       /\ k = "settimeout" => ~timed
       /\ timed' = (timed \/ k = "settimeout")
       /\ nmarks' = IF mark THEN nmarks + 1 ELSE nmarks
       /\ Call(o, k, ToString(o), IF k = "respond" THEN ToString(o) ELSE "", IF mark THEN nmarks + 1 ELSE 0)
  /\ UNCHANGED <<nretry, seen, took>>
Ret == \E o \in DOMAIN ops \ {TimerOp} : ops[o].lin /\ Return(o, ops[o].res)
         /\ took' = (IF ops[o].k \in {"setinfly", "setinflyb"} /\ ops[o].res THEN took + 1 ELSE took)
         /\ UNCHANGED <<nops, nmarks, nretry, seen, timed>>
Retry == /\ at # 0 /\ st = "prepared" /\ nretry < MaxRetry /\ ~\E o \in DOMAIN ops : ops[o].k \in {"resetp", "resetn"}
         /\ nretry' = nretry + 1
         /\ \E k \in {"resetp", "resetn"} : Call(100 + nretry, k, "", "", at)
         /\ UNCHANGED <<nops, nmarks, seen, timed, took>>
Icpt == /\ chain # <<>> /\ Intercept(Head(chain), cur.c, cur.b)
        /\ seen' = [seen EXCEPT ![Head(chain)] = @ + 1]
        /\ UNCHANGED <<nops, nmarks, nretry, timed, took>>
Ipass == /\ at # 0 /\ (\A o \in DOMAIN ops : ops[o].k \in {"resetp", "resetn"} => ops[o].lin) /\ Intercepted(at)
         /\ UNCHANGED mvars
Next ==
  \/ Issue \/ Ret \/ Retry \/ Icpt \/ Ipass
  \/ (\E o \in DOMAIN ops : Lin(o)) /\ UNCHANGED mvars
  \/ Fire("T") /\ UNCHANGED mvars
  \/ TimerDone /\ UNCHANGED mvars
  \/ Deliver(cur.c, cur.b) /\ UNCHANGED mvars
Spec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
SpecFair == MCInit /\ [][Next]_vars /\ WF_vars(Ipass) /\ WF_vars(Icpt) /\ WF_vars(Deliver(cur.c, cur.b) /\ UNCHANGED mvars)
              /\ WF_vars(Fire("T") /\ UNCHANGED mvars) /\ WF_vars(TimerDone /\ UNCHANGED mvars)
              /\ WF_vars(Ret) /\ WF_vars(\E o \in DOMAIN ops : Lin(o) /\ UNCHANGED mvars)
\* without retry each interceptor sees one completion at most; every retry adds at most one for one of them
SeenBound == \A m \in 1..MaxMarks : seen[m] <= 1 + nretry
SeenAll == st = "performed" => \A m \in 1..nmarks : seen[m] >= 1 \/ ~\E i \in 1..Len(chain) : chain[i] = m
TakenOnce == took <= 1 + nretry
\* an armed timeout completes the request in the end, unless its completion was taken back
ArmedCompletes == [](armed /\ nretry = MaxRetry => <>(st = "performed"))
=============================================================================
