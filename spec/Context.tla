------------------------------ MODULE Context ------------------------------
(***************************************************************************)
(* What a user may observe of a tree of contexts (context.go): creating    *)
(* requests, multi requests and children, starting tasks, answering,       *)
(* cancelling and expiring, waiting.  Calls are intervals; what a call     *)
(* guarantees is stated at its return in terms of what had begun or        *)
(* returned before.                                                        *)
(*   PROP: C01 cancelling and expiring;  C02 tasks and WaitAll             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT PROP
Enf(p) == PROP = p \/ PROP = "ALL"

VARIABLES
  par,    \* context -> parent (0: none)
  fin,    \* contexts whose Done was called (they leave their parents)
  kills,  \* calls of Cancel and Expire: set of [o, c, k, open]
  dead,   \* contexts that are dead for sure
  deep,   \* ... with all that is below them
  kind,   \* dead context -> kinds it may report
  rc,     \* request -> context it belongs to
  tries,  \* begun answers: set of [r, c, b, open]
  late,   \* requests whose creation began after their context had died
  born,   \* requests answered already when they were created
  got,    \* requests whose answer was seen
  looks,  \* open queries: o -> whether the context was dead for sure when it began
  task,   \* task -> [c, must, mustnot, n, over]
  reg,    \* open waits: o -> what has to finish before it returns
  mult,   \* multi request -> [c, begun]: collecting has begun
  late0,  \* open creations (of requests, children, tasks): id -> was the context dead for sure
  sure,   \* contexts that were registered with their parents for sure
  musts   \* tasks that have to run

cvars == <<par, fin, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, reg, mult, late0, sure, musts>>

Fn0 == [x \in {} |-> 0]
CxInit == /\ par = Fn0 /\ fin = {} /\ kills = {} /\ dead = {} /\ deep = {} /\ kind = Fn0 /\ rc = Fn0 /\ tries = {} /\ late = {}
          /\ born = {} /\ got = {} /\ looks = Fn0 /\ task = Fn0 /\ reg = Fn0 /\ mult = Fn0 /\ late0 = Fn0 /\ sure = {} /\ musts = {}

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

RECURSIVE Chain(_)
\* the context and those whose end is its end
Chain(c) == IF c \notin DOMAIN par THEN {} ELSE
            {c} \cup (IF par[c] = 0 \/ c \in fin THEN {} ELSE Chain(par[c]))
RECURSIVE Line(_)
Line(c) == IF c = 0 \/ c \notin DOMAIN par THEN {} ELSE {c} \cup Line(par[c])
Below(c) == {x \in DOMAIN par : c \in Chain(x)}
KilledBegun(c) == \E k \in kills : k.c \in Line(c)
Kinds(c) == {k.k : k \in {x \in kills : x.c = c}} \cup (IF \E x \in kills : x.c \in Line(c) \ {c} THEN {"c"} ELSE {})
Mark(c) == IF c \in DOMAIN kind THEN kind ELSE kind @@ (c :> Kinds(c))

Root(c) == /\ par' = par @@ (c :> 0)
           /\ UNCHANGED <<fin, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, reg, mult, late0, sure, musts>>

\* creation of anything in context c begins
Begin(o, c) == /\ late0' = late0 @@ (o :> (c \in dead))
               /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, reg, mult, sure, musts>>

\* a child was created; ok tells whether the parent was found alive
ChildMade(o, c, p, ok) ==
  /\ par' = par @@ (c :> p)
  /\ TRUE =
     (Enf("C02") => (late0[o] => ~ok) /\ (~KilledBegun(p) => ok))
  /\ dead' = IF p \in deep \/ (o \in DOMAIN late0 /\ late0[o]) THEN dead \cup {c} ELSE dead
  /\ deep' = IF p \in deep \/ (o \in DOMAIN late0 /\ late0[o]) THEN deep \cup {c} ELSE deep
  /\ kind' = IF p \in deep THEN kind @@ (c :> {"c"}) ELSE kind
  /\ sure' = IF KilledBegun(p) THEN sure ELSE sure \cup {c}
  /\ late0' = Drop(late0, o)
  /\ UNCHANGED <<fin, kills, rc, tries, late, born, got, looks, task, reg, mult, musts>>

\* a request was created (and sent); ans tells whether it had its answer then
RequestMade(o, r, c, ans, sent) ==
  /\ rc' = rc @@ (r :> c)
  /\ TRUE =
     (Enf("C01") => (late0[o] => ans) /\ (ans => KilledBegun(c) \/ \E x \in tries : x.r = r))
  /\ late' = IF late0[o] THEN late \cup {r} ELSE late
  /\ born' = IF ans /\ ~sent /\ ~\E x \in tries : x.r = r THEN born \cup {r} ELSE born
  /\ late0' = Drop(late0, o)
  /\ UNCHANGED <<par, fin, kills, dead, deep, kind, tries, got, looks, task, reg, mult, sure, musts>>

Try(r, c, b) == /\ tries' = tries \cup {[r |-> r, c |-> c, b |-> b, open |-> TRUE]}
                /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, late, born, got, looks, task, reg, mult, late0, sure, musts>>
TryReturn(r) == /\ tries' = {IF x.r = r THEN [x EXCEPT !.open = FALSE] ELSE x : x \in tries}
                /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, late, born, got, looks, task, reg, mult, late0, sure, musts>>

\* the request is executed by a service
\* (o: its creation, when that also sends it)
Executed(r, o) == /\ TRUE =
                     (Enf("C01") => r \notin late \cup born /\ (o \in DOMAIN late0 => ~late0[o]))
                  /\ UNCHANGED cvars

\* creation, sending and answer in one call
Called(o, r, c, code, b) ==
  /\ TRUE =
     (Enf("C01") => /\ \/ \E x \in tries : x.r = r /\ x.c = code /\ x.b = b
                       \/ code = "ff03" /\ b = "" /\ KilledBegun(c)
                    /\ (late0[o] => code = "ff03" /\ b = ""))
  /\ rc' = rc @@ (r :> c) /\ got' = got \cup {r} /\ late0' = Drop(late0, o)
  /\ UNCHANGED <<par, fin, kills, dead, deep, kind, tries, late, born, looks, task, reg, mult, sure, musts>>

\* the answer was received
Got(r, c, b) ==
  /\ TRUE =
     (Enf("C01") => /\ r \notin got
                    /\ \/ \E x \in tries : x.r = r /\ x.c = c /\ x.b = b
                       \/ c = "ff03" /\ b = "" /\ KilledBegun(rc[r])
                    /\ (r \in born => c = "ff03" /\ b = ""))
  /\ got' = got \cup {r}
  /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, tries, late, born, looks, task, reg, mult, late0, sure, musts>>

Kill(o, c, k) == /\ kills' = kills \cup {[o |-> o, c |-> c, k |-> k, open |-> TRUE]}
                 /\ UNCHANGED <<par, fin, dead, deep, kind, rc, tries, late, born, got, looks, task, reg, mult, late0, sure, musts>>

\* ... and returns; un are the created requests that had no answer at that moment
KillReturn(o, un) ==
  \E k \in kills :
    /\ k.o = o /\ k.open
    /\ kills' = (kills \ {k}) \cup {[k EXCEPT !.open = FALSE]}
    \* others may be at work on the same context; then the last of them is to blame
    /\ LET sole == ~\E x \in kills : x # k /\ x.open /\ x.c \in Line(k.c)
           gone == IF sole THEN Below(k.c) ELSE {k.c} IN
       /\ TRUE =
          (Enf("C01") /\ sole => \A r \in un : r \in DOMAIN rc /\ rc[r] \in Below(k.c) => \E x \in tries : x.r = r)
       /\ dead' = dead \cup gone
       /\ deep' = IF sole THEN deep \cup gone ELSE deep
       /\ kind' = kind @@ [c \in gone \ DOMAIN kind |-> Kinds(c)]
    /\ UNCHANGED <<par, fin, rc, tries, late, born, got, looks, task, reg, mult, late0, sure, musts>>

Look(o, c) == /\ looks' = looks @@ (o :> (c \in dead))
              /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, tries, late, born, got, task, reg, mult, late0, sure, musts>>
Seen(o, c, alive, timeout) ==
  /\ TRUE =
     (Enf("C01") \/ Enf("C02") => (alive => ~looks[o]) /\ (~alive => KilledBegun(c)))
  /\ TRUE =
     (Enf("C01") => /\ (timeout => "t" \in Kinds(c) /\ ~alive)
                    /\ (c \in DOMAIN kind /\ ~alive => (IF timeout THEN "t" ELSE "c") \in kind[c]))
  /\ kind' = IF alive THEN kind ELSE IF c \in DOMAIN kind THEN [kind EXCEPT ![c] = {IF timeout THEN "t" ELSE "c"}] ELSE kind @@ (c :> {IF timeout THEN "t" ELSE "c"})
  /\ looks' = Drop(looks, o)
  /\ UNCHANGED <<par, fin, kills, dead, deep, rc, tries, late, born, got, task, reg, mult, late0, sure, musts>>

\* a context is done with: it leaves its parent
Finish(c) == /\ fin' = fin \cup {c}
             /\ UNCHANGED <<par, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, reg, mult, late0, sure, musts>>

(* Tasks: Go and friends are called (Begin), the function starts at any time, the call returns the child. *)
TaskStart(k, c, p) ==
  /\ k \notin DOMAIN task
  /\ TRUE =
     (Enf("C02") => (k \in DOMAIN late0 => ~late0[k]))
  /\ task' = task @@ (k :> [c |-> c, over |-> FALSE])
  /\ par' = par @@ (c :> p)
  /\ dead' = IF p \in deep \/ (k \in DOMAIN late0 /\ late0[k]) THEN dead \cup {c} ELSE dead
  /\ deep' = IF p \in deep \/ (k \in DOMAIN late0 /\ late0[k]) THEN deep \cup {c} ELSE deep
  /\ kind' = IF p \in deep THEN kind @@ (c :> {"c"}) ELSE kind
  /\ UNCHANGED <<fin, kills, rc, tries, late, born, got, looks, reg, mult, late0, sure, musts>>
\* the call returned: the function has to run when nothing had begun to kill the context
TaskMade(k, c, p) ==
  /\ musts' = IF KilledBegun(p) THEN musts ELSE musts \cup {k}
  /\ sure' = IF KilledBegun(p) THEN sure ELSE sure \cup {c}
  /\ par' = IF c \in DOMAIN par THEN par ELSE par @@ (c :> p)
  /\ dead' = IF p \in deep \/ (k \in DOMAIN late0 /\ late0[k]) THEN dead \cup {c} ELSE dead
  /\ deep' = IF p \in deep \/ (k \in DOMAIN late0 /\ late0[k]) THEN deep \cup {c} ELSE deep
  /\ kind' = IF p \in deep /\ c \notin DOMAIN kind THEN kind @@ (c :> {"c"}) ELSE kind
  /\ late0' = Drop(late0, k)
  /\ UNCHANGED <<fin, kills, rc, tries, late, born, got, looks, task, reg, mult>>
\* the function is about to return, or its context to be finished
TaskEnd(k) ==
  /\ k \in DOMAIN task /\ ~task[k].over
  /\ task' = [task EXCEPT ![k].over = TRUE]
  /\ fin' = fin \cup {task[k].c}
  /\ UNCHANGED <<par, kills, dead, deep, kind, rc, tries, late, born, got, looks, reg, mult, late0, sure, musts>>

MultiMade(o, m, c) == /\ mult' = mult @@ (m :> [c |-> c, begun |-> FALSE, late |-> late0[o]])
                      /\ late0' = Drop(late0, o)
                      /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, reg, sure, musts>>
\* a request of a multi request is executed
MultiRan(m) == /\ TRUE = (Enf("C01") => ~mult[m].late)
               /\ UNCHANGED cvars
\* everything of it was collected: these are the codes
MultiGot(m, codes) ==
  /\ TRUE = (Enf("C01") => \A x \in codes : ((x = "0" /\ ~mult[m].late) \/ (x = "ff03" /\ KilledBegun(mult[m].c))))
  /\ UNCHANGED cvars
Collect(m) == /\ mult' = [mult EXCEPT ![m].begun = TRUE]
              /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, reg, late0, sure, musts>>

\* what is registered with the context for sure: the call that created it has returned
Wait(o, c, rs, cs, ms) ==
  /\ reg' = reg @@ (o :> [rs |-> rs, cs |-> cs, ms |-> ms, c |-> c])
  /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, mult, late0, sure, musts>>
WaitReturn(o) ==
  /\ TRUE =
     (Enf("C02") => /\ \A r \in reg[o].rs : (\E x \in tries : x.r = r) \/ KilledBegun(rc[r])
                    /\ \A c \in reg[o].cs : c \in sure => c \in fin
                    /\ \A m \in reg[o].ms : mult[m].begun \/ KilledBegun(mult[m].c))
  /\ reg' = Drop(reg, o)
  /\ UNCHANGED <<par, fin, kills, dead, deep, kind, rc, tries, late, born, got, looks, task, mult, late0, sure, musts>>

NothingOpen == musts \subseteq DOMAIN task /\ reg = Fn0 /\ late0 = Fn0 /\ (\A k \in kills : ~k.open) /\ \A k \in musts : task[k].over
=============================================================================
