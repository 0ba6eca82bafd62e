------------------------------ MODULE PwlTrace ------------------------------
(* Piecewise-linear leaves.  A leaf is given by the data of its cluster       *)
(* (integers) for one feature and channel:                                    *)
(*   discrete domain: the relative frequency of every value of the domain,    *)
(*     optionally with Laplace smoothing; uniform without data;               *)
(*   continuous domain: the function through the points (middle of bin k,     *)
(*     density of bin k), zero at the outer edges, divided by its integral,   *)
(*     where the nb bins divide [min, max] of the data evenly.                *)
(* Masses and densities are exact integers over a common denominator.         *)
EXTENDS Arith, FiniteSets, TLC, Json, IOUtils

Data_ == JsonDeserialize(IOEnv.DATA)
Events == Data_.events

VARIABLES i, verdict
vars == <<i, verdict>>

CountOf(d, v) == FoldLeft(LAMBDA a, b : IF b = v THEN a + 1 ELSE a, 0, d)

\* ---- discrete: weight of domain value number k (denominator DiscDen)
DiscW(e, k) == IF Len(e.data) = 0 THEN 1 ELSE CountOf(e.data, e.dom[k]) + e.alpha
DiscDen(e) == IF Len(e.data) = 0 THEN Len(e.dom) ELSE Len(e.data) + e.alpha * Len(e.dom)

\* ---- continuous: number of data points in bin k of nb
Lo(e) == FoldLeft(LAMBDA a, b : Min2(a, b), e.data[1], e.data)
Hi(e) == FoldLeft(LAMBDA a, b : Max2(a, b), e.data[1], e.data)
\* (data without spread has a single bin around it)
BinOf(e, v, lo, hi) == IF hi = lo THEN 0 ELSE Min2(e.nb - 1, ((v - lo) * e.nb) \div (hi - lo))
BinCounts(e) ==
  LET lo == TLCEval(Lo(e))
      hi == TLCEval(Hi(e))
      bins == TLCEval([j \in 1..Len(e.data) |-> BinOf(e, e.data[j], lo, hi)])
  IN TLCEval(FoldLeft(LAMBDA c, b : [c EXCEPT ![b + 1] = @ + 1], [k \in 1..e.nb |-> 0], bins))
\* height (times 4) at position q, in quarter bins from the lower edge (0..4 nb)
H4(c, nb, q) ==
  IF q <= 0 \/ q >= 4 * nb THEN 0
  ELSE IF q < 2 THEN 2 * c[1] * q
  ELSE IF q > 4 * nb - 2 THEN 2 * c[nb] * (4 * nb - q)
  ELSE LET k == (q - 2) \div 4 + 1
           r == (q - 2) - 4 * (k - 1)
       IN IF r = 0 THEN 4 * c[k] ELSE (4 - r) * c[k] + r * c[k + 1]
\* the integral in units of bin width / 32: trapezoids between quarter positions
Mass32(c, nb, q0, q1) == SumOp(LAMBDA q : H4(c, nb, q0 + q - 1) + H4(c, nb, q0 + q), q1 - q0)
Total32(c, nb) == Mass32(c, nb, 0, 4 * nb)

\* discrete density: obs[k] = density at domain value k times DiscDen * sc
Disc_(e) ==
  [exp |-> [k \in 1..Len(e.dom) |-> DiscW(e, k)],
   ok |-> /\ e.den = DiscDen(e)
          /\ \A k \in 1..Len(e.dom) : Close(e.obs[k], DiscW(e, k) * e.sc)]
DiscModes_(e) ==
  LET best == {k \in 1..Len(e.dom) : \A l \in 1..Len(e.dom) : DiscW(e, k) >= DiscW(e, l)}
  IN [exp |-> best, ok |-> \E k \in best : e.dom[k] = e.obs]
DiscFreq_(e) ==
  [exp |-> [k \in 1..Len(e.dom) |-> DiscW(e, k)],
   ok |-> e.other = 0 /\ \A k \in 1..Len(e.dom) :
            FreqOK(e.obs[k], MulDiv(e.N, DiscW(e, k), DiscDen(e)), DiscW(e, k) > 0)]
\* continuous: obs[q+1] = density at position q times bin width times 2^20
\* density * width = (H4/4) / (Total32/32) = 8 H4 / Total32
Cont_(e) ==
  LET c == BinCounts(e)
      tot == TLCEval(Total32(c, e.nb))
  IN [exp |-> [q \in 0..(4 * e.nb) |-> MulDiv(8 * H4(c, e.nb, q), 1048576, tot)],
      ok |-> \A q \in 0..(4 * e.nb) :
               LET x == MulDiv(8 * H4(c, e.nb, q), 1048576, tot)
               IN Abs(e.obs[q + 1] - x) <= 40 + x \div 2048]
ContModes_(e) ==
  LET c == BinCounts(e)
      best == {k \in 1..e.nb : \A l \in 1..e.nb : c[k] >= c[l]}
  IN [exp |-> best, ok |-> \E k \in best : e.obs = 4 * k - 2]
\* obs[q]: samples between the positions q-1 and q
ContFreq_(e) ==
  LET c == BinCounts(e)
      tot == TLCEval(Total32(c, e.nb))
      bad == {q \in 1..(4 * e.nb) :
                LET w == Mass32(c, e.nb, q - 1, q)
                IN ~FreqOK(e.obs[q], MulDiv(e.N, w, tot), w > 0)}
  IN [exp |-> IF bad = {} THEN "all samples in the domain" ELSE
              LET q == CHOOSE q \in bad : TRUE
              IN [position |-> q, count |-> e.obs[q], expected |-> MulDiv(e.N, Mass32(c, e.nb, q - 1, q), tot)],
      ok |-> e.other = 0 /\ bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "disc" -> Disc_(e)
         [] e.k = "discmode" -> DiscModes_(e)
         [] e.k = "discfreq" -> DiscFreq_(e)
         [] e.k = "cont" -> Cont_(e)
         [] e.k = "contmode" -> ContModes_(e)
         [] e.k = "contfreq" -> ContFreq_(e)
         [] e.k = "flags" -> [exp |-> "all true", ok |-> \A k \in DOMAIN e.obs : e.obs[k]]

Init == i \in 1..Len(Events) /\ verdict = "todo"
Next ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
=============================================================================
