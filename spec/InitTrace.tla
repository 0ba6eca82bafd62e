------------------------------ MODULE InitTrace ------------------------------
(* Conformance of recorded initialisations.  Event kinds:                     *)
(*  init   cols: integer data per channel and feature, in the order of the    *)
(*         leaves; mean, var: recorded parameters of every leaf in 1/200      *)
(*         (kk leaves times rr repetitions per feature)                       *)
(*  flags  named observations that must all hold                              *)
(* A leaf's mean is the column's mean plus noise of a tenth of the standard   *)
(* deviation of all means; its variance is the column's variance, a thousandth *)
(* and, for about half of all leaves, noise of a tenth of the standard        *)
(* deviation of all variances.                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

S == INSTANCE InitStats WITH Values <- {0}, MaxLen <- 1, col <- <<0>>, pos <- 0, n <- 0, sum <- 0, sq <- 0
U == 200
Data == JsonDeserialize(IOEnv.DATA)
Events == Data.events
VARIABLES i, verdict
vars == <<i, verdict>>

AbsI(a) == IF a < 0 THEN -a ELSE a
Mean(c) == (U * S!Sum(c)) \div Len(c)
Var(c) == LET n == Len(c) IN IF n = 1 THEN 0 ELSE ((S!Pairs(c) * U) \div n) \div (n - 1)
\* variance of a sequence of numbers
Spread(v) == LET m == S!Sum(v) \div Len(v)
             IN S!Sum([k \in DOMAIN v |-> (v[k] - m) * (v[k] - m)]) \div Len(v)

Init_(e) ==
  LET mu == TLCEval([f \in DOMAIN e.cols |-> Mean(e.cols[f])])
      va == TLCEval([f \in DOMAIN e.cols |-> Var(e.cols[f])])
      s == TLCEval(Spread(mu))
      t == TLCEval(Spread(va))
      k == Len(e.mean[1])
      L == Len(e.cols) * k
      \* 7 standard deviations of noise, in squares: (7 / 10)^2, and rounding
      near(d, q, parts) == AbsI(d) <= 3 \/ (AbsI(d) < 46000 /\ (AbsI(d) - 3) * (AbsI(d) - 3) <= (q + q \div 4) \div (2 * parts))
      \* no two repetitions, and no two leaves, begin alike
      at(f, a, r) == e.mean[f][(a - 1) * e.rr + r]
      alikeR(r, q) == \A f \in DOMAIN mu : \A a \in 1..e.kk : at(f, a, r) = at(f, a, q)
      alikeK(a, b) == \A f \in DOMAIN mu : \A r \in 1..e.rr : at(f, a, r) = at(f, b, r)
      why == {w \in {"mean", "average", "floor", "variance", "noise", "repetitions", "leaves"} :
         CASE w = "mean" -> \E f \in DOMAIN mu : \E j \in 1..k : ~near(e.mean[f][j] - mu[f], s, 1)
           [] w = "average" -> \E f \in DOMAIN mu : ~near(S!Sum(e.mean[f]) \div k - mu[f], s, k)
           [] w = "floor" -> \E f \in DOMAIN va : \E j \in 1..k : e.var[f][j] < va[f] - 2 - va[f] \div 1000
           [] w = "variance" -> \E f \in DOMAIN va : \E j \in 1..k : ~near(e.var[f][j] - va[f] - va[f] \div 1000, t, 1)
           [] w = "repetitions" -> /\ s > 10000 /\ Len(e.cols) * e.kk >= 8
                                   /\ \E r \in 1..e.rr : \E q \in 1..(r - 1) : alikeR(r, q)
           [] w = "leaves" -> /\ s > 10000 /\ Len(e.cols) * e.rr >= 8
                              /\ \E b \in 1..e.kk : \E c \in 1..(b - 1) : alikeK(b, c)
           [] w = "noise" -> /\ s > 10000 /\ L >= 40
                             /\ Cardinality({fj \in (DOMAIN mu) \X (1..k) : AbsI(e.mean[fj[1]][fj[2]] - mu[fj[1]]) <= 1}) > L \div 2}
  IN [exp |-> [why |-> why, mean |-> mu, var |-> va], ok |-> why = {}]

Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE}
  IN [exp |-> bad, ok |-> bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "init" -> Init_(e) [] e.k = "flags" -> Flags_(e)

Init == i \in 1..Len(Events) /\ verdict = "todo"
Next ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
=============================================================================
