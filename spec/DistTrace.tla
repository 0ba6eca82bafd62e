----------------------------- MODULE DistTrace -----------------------------
(* Laws every density with marginalisation and sampling obeys, checked on     *)
(* recorded numbers (densities in units of 2^-24):                            *)
(*   norm   the densities of all assignments sum to one                       *)
(*   marg   a density with missing entries is the sum over their values       *)
(*   freq   outcomes are drawn in proportion to their density                 *)
(*   same   two recordings agree                                              *)
(*   count  a number of observations                                          *)
(*   flags  named observations that must all hold                             *)
EXTENDS Arith, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Events == Data.events

VARIABLES i, verdict
vars == <<i, verdict>>

One == 16777216
Valid(s) == \A k \in 1..Len(s) : s[k] >= 0

Norm_(e) ==
  LET t == SumSeq(e.obs)
  IN [exp |-> [sum |-> t, one |-> One],
      ok |-> Valid(e.obs) /\ Abs(t - One) <= e.tol + Len(e.obs) \div 2]
Marg_(e) ==
  LET t == SumSeq(e.parts)
  IN [exp |-> t, ok |-> e.obs >= 0 /\ Valid(e.parts) /\ Abs(t - e.obs) <= e.tol + Len(e.parts) \div 2 + t \div 8192]
Freq_(e) ==
  LET bad == {k \in 1..Len(e.obs) : ~FreqOK(e.obs[k], MulDiv(e.N, e.w[k], One), TRUE)
                                    \/ (e.w[k] = 0 /\ e.obs[k] > 3)}
  IN [exp |-> IF bad = {} THEN "rows outside the domain"
              ELSE LET k == CHOOSE k \in bad : TRUE
                   IN [outcome |-> k, count |-> e.obs[k], expected |-> MulDiv(e.N, e.w[k], One), of |-> e.N],
      ok |-> Valid(e.w) /\ e.other = 0 /\ bad = {}]
Same_(e) == [exp |-> e.tol, ok |-> e.obs <= e.tol]
Count_(e) == [exp |-> e.exp, ok |-> e.obs = e.exp]
Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE}
  IN [exp |-> bad, ok |-> bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "norm" -> Norm_(e)
         [] e.k = "marg" -> Marg_(e)
         [] e.k = "freq" -> Freq_(e)
         [] e.k = "same" -> Same_(e)
         [] e.k = "count" -> Count_(e)
         [] e.k = "flags" -> Flags_(e)

Init == i \in 1..Len(Events) /\ verdict = "todo"
Next ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
=============================================================================
