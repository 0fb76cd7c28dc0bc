-------------------------------- MODULE MCIds --------------------------------
(***************************************************************************)
(* Design model of net/client/connection/request_holder.go: wire ids are   *)
(* given out in rows of W; a row is forgotten when all its ids are         *)
(* answered, the first and the last row being one short, as the zero and   *)
(* the ping id are never given out.  The reader keeps the row it used last *)
(* aside.  N ids, then they start again.                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS N, W, MaxGiven, Short   \* Short: the border rows are known to be one short
VARIABLES cur, row, busy, map, freed, last, given, wrong
\* busy: id -> row object that holds it; map: row number -> row object or 0; row: <<number, object>> of the writer
vars == <<cur, row, busy, map, freed, last, given, wrong>>
Ping == N - 1
Rows == 0..(N \div W - 1)
Init == /\ cur = 0 /\ row = <<0, 1>> /\ busy = [i \in 0..(N - 1) |-> 0] /\ map = [b \in Rows |-> IF b = 0 THEN 1 ELSE 0]
        /\ freed = [o \in 1..(MaxGiven + 1) |-> 0] /\ last = <<0, 1>> /\ given = 1 /\ wrong = FALSE
\* the writer takes the next id
Give ==
  LET id == (cur + 1) % N  big == id \div W  new == big # row[1] IN
  /\ TRUE = (new => given < MaxGiven)
  \* nobody waits for an answer that long, and some answer has come since
  /\ TRUE = (new => \A i \in 0..(N - 1) : i \div W = big => busy[i] = 0)
  /\ TRUE = (new => last[1] # big)
  /\ cur' = id
  /\ IF new THEN row' = <<big, given + 1>> /\ map' = [map EXCEPT ![big] = given + 1] /\ given' = given + 1
     ELSE UNCHANGED <<row, map, given>>
  /\ IF id = 0 \/ id = Ping THEN UNCHANGED <<busy, wrong>>
     ELSE busy' = [busy EXCEPT ![id] = row'[2]] /\ wrong' = (wrong \/ busy[id] # 0)
  /\ UNCHANGED <<freed, last>>
\* a response comes, perhaps one nobody waits for
Remove(id) ==
  LET big == id \div W
      obj == IF last[1] = big THEN last[2] ELSE map[big] IN
  /\ last' = IF obj = 0 THEN last ELSE <<big, obj>>
  /\ IF obj = 0 \/ busy[id] # obj
     THEN /\ wrong' = (wrong \/ busy[id] # 0)      \* the request would never be answered
          /\ UNCHANGED <<busy, map, freed>>
     ELSE /\ busy' = [busy EXCEPT ![id] = 0]
          /\ freed' = [freed EXCEPT ![obj] = @ + 1]
          /\ map' = IF freed[obj] + 1 = W \/ (Short /\ freed[obj] + 1 = W - 1 /\ big \in {0, N \div W - 1})
                    THEN [map EXCEPT ![big] = 0] ELSE map
          /\ UNCHANGED wrong
  /\ UNCHANGED <<cur, row, given>>
Next == Give \/ \E id \in 0..(N - 1) : Remove(id)
Spec == Init /\ [][Next]_vars
Found == ~wrong
\* rows do not pile up: those all of whose ids are answered are forgotten, but for the one in use
NoLeak == \A b \in Rows : map[b] # 0 /\ map[b] # row[2] => \E i \in 0..(N - 1) : busy[i] = map[b]
=============================================================================
