----------------------------- MODULE QuantTrace ------------------------------
(* Conformance of recorded preprocessing.  Event kinds:                       *)
(*  reduce  e.us: pixels, e.obs: results in 1/64 levels                       *)
(*  disc    the same for discrete leaves: integers                            *)
(*  gauss   results (y + 0.5) * bins in 1/1024, with or without noise         *)
(*  noise   histogram of the noise over the parts of a bin                    *)
(*  domain  values, minimum and maximum of a domain                           *)
(*  levels  which of the values 0..2^bits+1 a leaf gives probability to       *)
(*          (units 10^-6), and the range of its samples                       *)
(*  flags   named observations that must all hold                             *)
EXTENDS Quant, Arith, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Events == Data.events
VARIABLES i, verdict
tvars == <<qvars, i, verdict>>

\* level in units of 1/q
Val(x, b, q) == IF b = 8 THEN (x * q) \div 8 ELSE q * Level(x, b)
Each(e, ok(_, _)) ==
  LET bad == {k \in DOMAIN e.us : ~ok(e.us[k], e.obs[k])}
  IN [exp |-> IF bad = {} THEN <<>> ELSE LET k == CHOOSE k \in bad : TRUE IN <<e.us[k], e.obs[k], Cardinality(bad)>>,
      ok |-> Len(e.us) = Len(e.obs) /\ bad = {}]
Reduce_(e) == Each(e, LAMBDA x, o : Abs(o - Val(x, e.b, 64)) <= 0)
Disc_(e) == Each(e, LAMBDA x, o : o = Level(x, e.b))
Gauss_(e) == Each(e, LAMBDA x, o :
  IF e.noise THEN o - Val(x, e.b, 1024) \in (-2)..1026 ELSE Abs(o - Val(x, e.b, 1024)) <= 1)
Noise_(e) ==
  LET bad == {k \in DOMAIN e.obs : ~FreqOK(e.obs[k], e.N \div Len(e.obs), TRUE)}
  IN [exp |-> bad, ok |-> bad = {} /\ SumSeq(e.obs) = e.N]
Domain_(e) == [exp |-> <<e.lo, e.hi>>,
               ok |-> /\ e.obs = [k \in 1..(e.hi - e.lo + 1) |-> e.lo + k - 1]
                      /\ e.min = e.lo /\ e.max = e.hi]
Levels_(e) ==
  [exp |-> Two(e.b),
   ok |-> /\ \A k \in DOMAIN e.obs : IF k <= Two(e.b) THEN e.obs[k] > 0 ELSE e.obs[k] = 0
          /\ Len(e.obs) > Two(e.b)
          /\ Abs(SumSeq(e.obs) - 100000000) <= 100000   \* lgamma in single precision
          /\ e.smin >= 0 /\ e.smax <= Two(e.b) - 1]
Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE}
  IN [exp |-> bad, ok |-> bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "reduce" -> Reduce_(e) [] e.k = "disc" -> Disc_(e) [] e.k = "gauss" -> Gauss_(e)
         [] e.k = "noise" -> Noise_(e) [] e.k = "domain" -> Domain_(e) [] e.k = "levels" -> Levels_(e)
         [] e.k = "flags" -> Flags_(e)

TInit == i \in 1..Len(Events) /\ verdict = "todo" /\ u = 0 /\ bits = 8 /\ lev = 0
TNext ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED <<qvars, i>>
TSpec == TInit /\ [][TNext]_tvars
Conforms == verdict # "bad"
=============================================================================
