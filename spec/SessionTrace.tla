--------------------------- MODULE SessionTrace ----------------------------
(* Judges recorded sessions.  A trace is a sequence of events on numbered     *)
(* objects; results are numbers that identify equal values.  Within a trace   *)
(* equal terms must have equal results: calls on old objects, on copies and   *)
(* on freshly built ones, after any history, agree.                           *)
EXTENDS Session, Json, IOUtils, FiniteSets, TLC

Data == JsonDeserialize(IOEnv.DATA)
Traces == Data.traces

VARIABLES t, i, objs, table, verdict
vars == <<t, i, objs, table, verdict>>

T == Traces[t]
NC == Data.ncache

Init ==
  /\ t \in 1..Len(Traces) /\ i = 1 /\ verdict = "run" /\ table = {}
  /\ objs = [o \in 1..Traces[t].nobj |-> Fresh(0, 0, NC)]

\* table: a set of <<term, result, generator state afterwards>>
Lookup(tb, term) == {k \in tb : k[1] = term}
\* what a call adds; equal terms of one call must have equal results, too
Entries(terms, e) == {<<terms[j], e.res[j], e.rng1>> : j \in 1..Len(terms)}

\* terms that must give different values: the same call with other seeds / generator states
Rival(a, b) ==
  \/ a[1] = "smp" /\ b[1] = "smp" /\ a[2] = b[2] /\ a[3] = b[3] /\ a[5] = b[5] /\ a[6] # b[6]
  \/ a[1] = "all" /\ b[1] = "all" /\ a[2] = "smp" /\ b[2] = "smp" /\ a[6] = b[6] /\ a[7] # b[7]
     /\ a[3] = b[3] /\ a[4] = b[4]

Why(st, e, tb) ==
  LET terms == Terms(st, e.op, T.drop, e.rng0)
      det == ~Stochastic(st, e.op, T.drop)
      new == TLCEval(Entries(terms, e))
  IN CASE (e.op.k = "fail") # (e.err # "") -> IF e.err # "" THEN "raised: " \o e.err ELSE "no error raised"
       [] e.touched -> "an argument or the gradient mode was modified"
       [] (det \/ Seeded(e.op)) /\ e.op.k \notin {"rng", "fail", "fresh", "copy"} /\ e.rng0 # e.rng1
            -> "the global random state changed"
       [] e.op.k = "fail" /\ e.op.seed # 0 /\ e.rng0 # e.rng1 -> "the global random state changed by a failing call"
       [] e.op.k = "fail" -> ""
       [] Len(e.res) # Len(terms) -> "number of results"
       [] Cardinality({x[1] : x \in new}) # Cardinality(new) -> "equal rows of one call with different results"
       [] \E x \in new : \E k \in Lookup(tb, x[1]) : k[2] # x[2]
            -> "another result than the same call had before"
       [] \E x \in new : x[1][1] = "all" /\ \E k \in Lookup(tb, x[1]) : k[3] # e.rng1
            -> "another random state than after the same call before"
       [] e.distinct /\ \E x \in new : x[1][1] \in {"smp", "all"} /\ \E k \in tb : Rival(k[1], x[1]) /\ k[2] = x[2]
            -> "the same draws from another random state"
       [] OTHER -> ""

Step ==
  /\ verdict = "run" /\ i <= Len(T.events)
  /\ LET e == T.events[i]
         st == objs[e.o]
         why == Why(st, e, table)
         terms == Terms(st, e.op, T.drop, e.rng0)
     IN IF why # ""
        THEN /\ verdict' = "bad"
             /\ PrintT("BAD " \o ToJson([t |-> t, i |-> i, why |-> why]))
             /\ UNCHANGED <<objs, table, i, t>>
        ELSE /\ objs' = [objs EXCEPT ![e.o] = After(IF e.op.k = "copy" THEN objs[e.op.src] ELSE st, e.op)]
             /\ table' = IF e.op.k = "fail" THEN table
                         ELSE table \cup {x \in Entries(terms, e) : Lookup(table, x[1]) = {}}
             /\ i' = i + 1
             /\ UNCHANGED <<t, verdict>>
Done == verdict = "run" /\ i > Len(T.events) /\ verdict' = "ok" /\ UNCHANGED <<t, i, objs, table>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
=============================================================================
