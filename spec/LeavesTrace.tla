---------------------------- MODULE LeavesTrace ------------------------------
(* Conformance of recorded leaves (seen through a model whose only path leads *)
(* to the leaf) with the textbook distributions of Leaves.  Event kinds:      *)
(*  pmf    probabilities of all values (units of 2^-24)                       *)
(*  law    log probabilities of all values of a log-parametrised leaf: ratios *)
(*         of neighbours, and that they sum to one                            *)
(*  gauss  log densities at points                                            *)
(*  mvn    joint log densities of groups                                      *)
(*  hist   counts of sampled values                                           *)
(*  cum    counts of samples below grid points                                *)
(*  mom    means and covariances of samples (1/256)                           *)
(*  mode   recorded most probable values (Gaussians: 1/64)                    *)
EXTENDS Leaves, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Events == Data.events
VARIABLES i, verdict
tvars == <<leaf, i, verdict>>

P24 == 16777216
Bad(s) == [exp |-> s, ok |-> s = {}]

Pmf_(e) ==
  LET w == Weights(e.d)
      t == SumSeq(w)
  IN IF Len(e.obs) # Len(w) THEN [exp |-> Len(w), ok |-> FALSE]
     ELSE Bad({[value |-> v - 1, exp |-> MulDiv(P24, w[v], t), obs |-> e.obs[v]] :
                v \in {v \in 1..Len(w) : LET p == MulDiv(P24, w[v], t) IN Abs(e.obs[v] - p) > 4 + p \div 16384}})

\* what ln mass(v+1) - ln mass(v) has to be, in 10^-3
StepMilli(d, v) == IF d.t = "blog" THEN RoundDiv(LogStep6(d.n, v, d.lo), 1000) ELSE d.lg[v + 2] - d.lg[v + 1]
Size(d) == IF d.t = "blog" THEN d.n + 1 ELSE Len(d.lg)
Tol(a) == 2 + Abs(a) \div 2000
LawBad(e) ==
  {v \in 1..Size(e.d) - 1 :
     Abs((e.obs[v + 1] - e.obs[v]) - StepMilli(e.d, v - 1)) > Tol(e.obs[v]) + Tol(e.obs[v + 1])}
SumsToOne(e) == /\ \A v \in 1..Len(e.pm) : e.pm[v] >= 0
                /\ Abs(SumSeq(e.pm) - P24) <= 4000
Law_(e) ==
  IF Len(e.obs) # Size(e.d) \/ Len(e.pm) # Size(e.d) THEN [exp |-> Size(e.d), ok |-> FALSE]
  ELSE LET b == LawBad(e)
       IN [exp |-> [steps |-> b, sum |-> SumSeq(e.pm)], ok |-> b = {} /\ SumsToOne(e)]

Gauss_(e) ==
  Bad({[x |-> e.pts[k][1], obs |-> e.pts[k][2], exp |-> NormLog(e.d, e.pts[k][1])] :
        k \in {k \in DOMAIN e.pts : LET v == NormLog(e.d, e.pts[k][1]) IN Abs(e.pts[k][2] - v) > Tol(v)}})
\* x[k][g] is the part of observation k that group g covers
Mvn_(e) ==
  LET v(k) == SumOp(LAMBDA g : MvnLog(e.ds[g], e.x[k][g]), Len(e.ds))
  IN Bad({[k |-> k, obs |-> e.obs[k], exp |-> v(k)] : k \in {k \in DOMAIN e.x : Abs(e.obs[k] - v(k)) > Tol(v(k)) + 2 * Len(e.ds)}})

Hist_(e) ==
  LET ex == Exact(e.d)
      w == IF ex THEN Weights(e.d) ELSE e.pm
      t == IF ex THEN SumSeq(w) ELSE P24
      b == {v \in 1..Len(w) : ~FreqOK(e.obs[v], MulDiv(e.N, Min2(w[v], t), t), IF ex THEN w[v] > 0 ELSE TRUE)}
  IN [exp |-> [values |-> {v - 1 : v \in b}],
      ok |-> /\ e.other = 0 /\ SumSeq(e.obs) = e.N /\ Len(e.obs) = Len(w) /\ b = {}
             /\ ex \/ (LawBad([d |-> e.d, obs |-> e.lp]) = {} /\ SumsToOne(e))]

\* component i of a multivariate leaf: e.i > 0
Below(e, g) ==
  IF e.d.t = "mvn" THEN Phi(8 * (g - e.d.mu[e.i]), Root(1024 * Cov4(e.d, e.i, e.i))) ELSE Phi(g - Mean8(e.d), Sd8(e.d))
Cum_(e) ==
  LET lam(k) == MulDiv(e.N, Below(e, e.pts[k][1]), P20)
      b == {k \in DOMAIN e.pts : ~FreqOK(e.pts[k][2], lam(k), TRUE) \/ ~FreqOK(e.N - e.pts[k][2], e.N - lam(k), TRUE)}
  IN [exp |-> {<<e.pts[k], lam(k)>> : k \in b}, ok |-> e.other = 0 /\ b = {}]
Mom_(e) ==
  LET n == Card(e.d)
      offmean == {j \in 1..n : Sq(e.mean[j]) > ((50 * 16384) \div e.N + 1) * Cov4(e.d, j, j)}
      var(a, b) == Cov4(e.d, a, a) * Cov4(e.d, b, b) + Sq(Cov4(e.d, a, b))
      offcov == {<<a, b>> \in (1..n) \X (1..n) :
                   LET t == Abs(e.cov[a][b] - 64 * Cov4(e.d, a, b))
                   IN t > 20000 \/ Sq(t) > ((50 * 4096) \div e.N + 1) * var(a, b)}
  IN [exp |-> [mean |-> offmean, cov |-> {<<p, 64 * Cov4(e.d, p[1], p[2])>> : p \in offcov}],
      ok |-> e.other = 0 /\ offmean = {} /\ offcov = {}]

IsMode(d, v) ==
  CASE Exact(d) -> v + 1 \in ModesOf(Weights(d))
    [] d.t \in {"blog", "clog"} -> IsModeLog(d, v)
    [] OTHER -> Abs(v * d.u - 64 * Mean8(d)) <= d.u      \* v / 64 against mean / u
Mode_(e) == Bad({v \in ToSet(e.obs) : ~IsMode(e.d, v)})
MvnMode_(e) == Bad({v \in ToSet(e.obs) : Abs(v - 8 * e.d.mu[e.i]) > 1})

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "pmf" -> Pmf_(e) [] e.k = "law" -> Law_(e) [] e.k = "gauss" -> Gauss_(e) [] e.k = "mvn" -> Mvn_(e)
         [] e.k = "hist" -> Hist_(e) [] e.k = "cum" -> Cum_(e) [] e.k = "mom" -> Mom_(e)
         [] e.k = "mode" -> IF e.d.t = "mvn" THEN MvnMode_(e) ELSE Mode_(e)

TInit == i \in 1..Len(Events) /\ verdict = "todo" /\ leaf = [t |-> "none"]
TNext ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED <<leaf, i>>
TSpec == TInit /\ [][TNext]_tvars
Conforms == verdict # "bad"
=============================================================================
