---------------------------- MODULE MixtureTrace -----------------------------
(* A mixture of circuits: every row with evidence belongs to the component    *)
(* whose centroid is nearest on the observed features; rows without evidence  *)
(* are drawn from a component chosen by mixture weight, or evenly.            *)
(* A mixture is a record [comps, cen, w, wden, q]: indices of its circuits,   *)
(* centroids in 1/q of a value, integer weights.                              *)
(*  via = "route"  the row's own component explains the event                 *)
(*  via = "draw"   the component was drawn by weight                          *)
(*  via = "even"   e.comp is the component of this block of rows              *)
(*  via = "top"    a component of maximal weight (MPE without evidence)       *)
EXTENDS CircuitTrace

Mixes == Data.mixtures

RECURSIVE DistTo(_, _, _, _, _)
\* squared distance on the observed cells; cells are numbered channel by channel
DistTo(mx, k, x, F, n) ==
  IF n = 0 THEN 0
  ELSE LET v == x[((n - 1) \div F) + 1][((n - 1) % F) + 1]
           d == mx.q * v - mx.cen[k][n]
       IN (IF v = Missing THEN 0 ELSE d * d) + DistTo(mx, k, x, F, n - 1)
Route(mx, x) ==
  LET m == Models[mx.comps[1]]
      dist == [k \in 1..Len(mx.comps) |-> DistTo(mx, k, x, m.F, m.CH * m.F)]
  IN {k \in DOMAIN dist : \A j \in DOMAIN dist : dist[k] <= dist[j]}

\* law: what is not observed does not matter, and an observed centroid is its own component
CentroidRoutes(mx) ==
  LET m == Models[mx.comps[1]]
  IN \A k \in 1..Len(mx.comps) :
       LET x == [ch \in 1..m.CH |-> [f \in 1..m.F |-> mx.cen[k][(ch - 1) * m.F + f] \div mx.q]]
       IN (\A n \in 1..(m.F * m.CH) : mx.cen[k][n] % mx.q = 0) => k \in Route(mx, x)
RouteLaw == \A j \in 1..Len(Mixes) : CentroidRoutes(Mixes[j])

MixHist_(e) ==
  LET mx == Mixes[e.mix]
      ms == [k \in 1..Len(mx.comps) |-> TemperSums(Models[mx.comps[k]], e.ts)]
      any == AllMissing(ms[1])
      EM(k) == TemperLeaves(ms[k], Plain(ms[k]), e.tl)
      W == [k \in 1..Len(ms) |-> EmitMass(ms[k], EM(k), any, any, e.cls)]
      lam(j) == SumOp(LAMBDA k : mx.w[k] * MulDiv(e.N, EmitMass(ms[k], EM(k), any, Outcome(any, e.cells, e.V, j - 1), e.cls), W[k]),
                      Len(ms)) \div mx.wden
      pos(j) == \E k \in 1..Len(ms) : mx.w[k] > 0 /\ EmitMass(ms[k], EM(k), any, Outcome(any, e.cells, e.V, j - 1), e.cls) > 0
      bad == {j \in 1..Len(e.obs) : ~FreqOK(e.obs[j], lam(j), pos(j))}
  IN [exp |-> bad, ok |-> e.other = 0 /\ SumSeq(e.obs) = e.N /\ bad = {}]

MJudge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE IF e.mix = 0 \/ e.k \in {"flags", "wf", "twin"} THEN Judge(e)
  ELSE LET mx == Mixes[e.mix]
       IN CASE e.via = "draw" -> MixHist_(e)
            [] e.via = "even" -> Judge([e EXCEPT !.m = mx.comps[e.comp]])
            [] e.via = "top" ->
                 [exp |-> "a component of maximal weight",
                  ok |-> \E k \in 1..Len(mx.comps) :
                           (\A j \in 1..Len(mx.w) : mx.w[j] <= mx.w[k]) /\ Judge([e EXCEPT !.m = mx.comps[k]]).ok]
            [] OTHER ->
                 [exp |-> Route(mx, e.x), ok |-> \E k \in Route(mx, e.x) : Judge([e EXCEPT !.m = mx.comps[k]]).ok]

MNext ==
  /\ verdict = "todo"
  /\ LET j == MJudge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED i
MSpec == Init /\ [][MNext]_vars
=============================================================================
