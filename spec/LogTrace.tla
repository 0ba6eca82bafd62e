------------------------------ MODULE LogTrace ------------------------------
(* Conformance of recorded calls with LogCircuit.  Event kinds:               *)
(*  ll     log-likelihoods of a row per class (1/1000 nat)                    *)
(*  post   log posterior of a row (1/1000 nat)                                *)
(*  reach  a completion and the slack of the choices that may lead there:     *)
(*         0 for MPE, 18 nats for sampling                                    *)
(*  use    usages (1/10000) of Gaussian leaves as told by the gradients of    *)
(*         their means and of their variances, per channel, feature and leaf: *)
(*         exactly one leaf generates an observed feature, a missing feature  *)
(*         moves nothing                                                      *)
(*  flags  named observations that must all hold                              *)
EXTENDS LogCircuit, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Models == Data.models
Events == Data.events

VARIABLES i, verdict
vars == <<i, verdict>>

Near(o, e) == AbsI(o - e) <= Tol(e)

Ll_(e) ==
  LET m == Models[e.m]
      d == LogDens(m, LogTables(m, e.x))
  IN [exp |-> d, ok |-> Len(e.obs) = m.C /\ \A c \in 1..m.C : Near(e.obs[c], d[c])]

\* differences of large numbers: the tolerance is that of the terms
Post_(e) ==
  LET m == Models[e.m]
      d == LogDens(m, LogTables(m, e.x))
      t == Lse(LAMBDA c : d[c], m.C)
  IN [exp |-> [c \in 1..m.C |-> d[c] - t],
      ok |-> Len(e.obs) = m.C /\ \A c \in 1..m.C : AbsI(e.obs[c] - (d[c] - t)) <= 2 * Tol(d[c])]

Reach_(e) ==
  [exp |-> "a completion along branches within the slack",
   ok |-> MayReach(Models[e.m], e.x, e.obs, e.cls, e.slack)]

Use_(e) ==
  LET m == Models[e.m]
      why == {cf \in (1..m.CH) \X (1..m.F) :
                LET u == e.mean[cf[1]][cf[2]]
                    v == e.var[cf[1]][cf[2]]
                IN IF e.x[cf[1]][cf[2]] = NoVal
                   THEN \E k \in DOMAIN u : u[k] # 0 \/ v[k] # 0
                   ELSE \/ Len(u) # m.K * m.R
                        \/ AbsI(FoldLeft(LAMBDA a, b : a + b, 0, u) - 10000) > 300
                        \/ \E k \in DOMAIN u : u[k] < -50 \/ AbsI(u[k] - v[k]) > 200}
  IN [exp |-> why, ok |-> why = {}]

Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE}
  IN [exp |-> bad, ok |-> bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "ll" -> Ll_(e)
         [] e.k = "post" -> Post_(e)
         [] e.k = "reach" -> Reach_(e)
         [] e.k = "use" -> Use_(e)
         [] e.k = "flags" -> Flags_(e)

Init == i \in 1..Len(Events) /\ verdict = "todo"
Next ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
=============================================================================
