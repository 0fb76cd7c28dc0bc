------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Validation of a batch of recorded traces: variable t is the number of   *)
(* the trace, i the next event of it.  Register t keeps how far the trace  *)
(* was explained; a trace is accepted when some behaviour of the           *)
(* specification explains all of it.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i

Evs(n) == Traces[n].ev
TraceInit == t \in 1..Len(Traces) /\ i = 1
More == i <= Len(Evs(t))
E == Evs(t)[i]
Is(kind) == More /\ E.e = kind /\ i' = i + 1 /\ t' = t
Silent == More /\ UNCHANGED <<t, i>>
Has(f) == f \in DOMAIN E

ASSUME \A n \in 1..Len(Traces) : TLCSet(n, 0)
\* CONSTRAINT: remembers progress (needs -workers 1)
Progress == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE

\* POSTCONDITION
Accepted ==
  /\ PrintT(<<"TRACES", Len(Traces), TLCGet("stats").distinct>>)
  /\ \A n \in 1..Len(Traces) : TLCGet(n) > Len(Evs(n)) \/ PrintT(<<"REJECTED", n, TLCGet(n)>>)
=============================================================================
