------------------------------- MODULE Dropout -------------------------------
(* Training mode: in every sum layer with dropout a random set of children is *)
(* removed, per row, feature and repetition, never all of them; the outputs   *)
(* of one node group see the same removed children.  The specification gives  *)
(* the exact distribution of the likelihood of a row as a bag: a function     *)
(* from values to integer weights.  The rate is DA / DB.                      *)
EXTENDS Circuit, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Models == Data.models
Events == Data.events

VARIABLES i, verdict
vars == <<i, verdict>>

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + SumOver(S \ {s}, f)

\* the children that remain, and how likely (times (DB^n - DA^n))
KeptSets(n) == SUBSET (1..n) \ {{}}
KeptWeight(rate, K, n) == Pow(rate[1], n - Cardinality(K)) * Pow(rate[2] - rate[1], Cardinality(K))

\* bag of val(s) over s \in S with weight wt(s)
BagOf(S, val(_), wt(_)) ==
  LET vs == TLCEval([s \in S |-> val(s)])
      ws == TLCEval([s \in S |-> wt(s)])
  IN TLCEval([v \in {vs[s] : s \in S} |-> SumOver({s \in S : vs[s] = v}, ws)])

KeepSum(f(_), K, n) == SumOp(LAMBDA q : IF q \in K THEN f(q) ELSE 0, n)

\* does layer l of m have dropout?  The root sums of a bottom-up circuit do not.
Drops(m, l) == ~(m.layers[l].t = "sum" /\ l < Len(m.layers))
Choices_(m, l, n) == IF Drops(m, l) THEN KeptSets(n) ELSE {1..n}
ChoiceWeight(m, l, rate, K, n) == IF Drops(m, l) THEN KeptWeight(rate, K, n) ELSE 1

\* B[g][r]: bag of the value vector of node group g in repetition r
HalfBag(m, l, rate, B, g, r) ==
  LET L == m.layers[l]
  IN IF g \notin DOMAIN B THEN ([o \in 1..L.so |-> 1] :> 1)
     ELSE BagOf((DOMAIN B[g][r]) \X Choices_(m, l, L.si),
                LAMBDA s : [o \in 1..L.so |-> KeepSum(LAMBDA q : L.w[g][q][o][r] * s[1][q], s[2], L.si)],
                LAMBDA s : B[g][r][s[1]] * ChoiceWeight(m, l, rate, s[2], L.si))
GroupBag(m, l, rate, B, f, r) ==
  LET L == m.layers[l]
      left == B[2 * f - 1][r]
      right == IF 2 * f \in DOMAIN B THEN B[2 * f][r] ELSE ([q \in 1..L.si |-> 1] :> 1)
      hl == HalfBag(m, l, rate, B, 2 * f - 1, r)
      hr == HalfBag(m, l, rate, B, 2 * f, r)
  IN CASE L.t = "linsum" ->
            BagOf((DOMAIN left) \X (DOMAIN right) \X Choices_(m, l, L.si),
                  LAMBDA s : [o \in 1..L.so |-> KeepSum(LAMBDA q : L.w[f][q][o][r] * (s[1][q] * s[2][q]), s[3], L.si)],
                  LAMBDA s : left[s[1]] * right[s[2]] * ChoiceWeight(m, l, rate, s[3], L.si))
       [] L.t = "sum" -> HalfBag(m, l, rate, B, f, r)
       [] L.t = "linsum2" ->
            BagOf((DOMAIN hl) \X (DOMAIN hr), LAMBDA s : [o \in 1..L.so |-> s[1][o] * s[2][o]],
                  LAMBDA s : hl[s[1]] * hr[s[2]])
       [] L.t = "einsum" ->     \* children of either input are removed
            BagOf((DOMAIN left) \X (DOMAIN right) \X KeptSets(L.si) \X KeptSets(L.si),
                  LAMBDA s : [o \in 1..L.so |->
                    KeepSum(LAMBDA q : KeepSum(LAMBDA p : L.w[f][o][r][q][p] * (s[1][q] * s[2][p]), s[4], L.si),
                            s[3], L.si)],
                  LAMBDA s : left[s[1]] * right[s[2]] * KeptWeight(rate, s[3], L.si) * KeptWeight(rate, s[4], L.si))
RECURSIVE ProdBag(_, _, _, _)
ProdBag(L, B, g, r) ==
  IF g = 0 THEN ([o \in 1..L.so |-> 1] :> 1)
  ELSE LET b == ProdBag(L, B, g - 1, r)
       IN BagOf((DOMAIN b) \X (DOMAIN B[g][r]), LAMBDA s : [o \in 1..L.so |-> s[1][o] * s[2][o]],
                LAMBDA s : b[s[1]] * B[g][r][s[2]])
LayerBags(m, l, rate, B) ==
  LET L == m.layers[l]
  IN TLCEval([f \in 1..L.fo |-> [r \in 1..m.R |->
       IF L.t = "prod" THEN ProdBag(L, B, Cardinality(DOMAIN B), r)
       ELSE GroupBag(m, l, rate, B, f, r)]])
LeafBags(m, x) ==
  TLCEval([g \in 1..Len(m.reg[1]) |-> [r \in 1..m.R |-> ([k \in 1..m.K |-> RegionVal(m, x, g, k, r)] :> 1)]])
TopBags(m, x, rate) ==
  FoldLeft(LAMBDA B, l : LayerBags(m, l, rate, B), LeafBags(m, x), [l \in 1..Len(m.layers) |-> l])[1]

\* repetitions: all combinations, then every class removes some of them
RECURSIVE Joint(_, _)
Joint(T, r) ==
  IF r = 0 THEN (<<>> :> 1)
  ELSE LET b == Joint(T, r - 1)
       IN TLCEval(BagOf((DOMAIN b) \X (DOMAIN T[r]), LAMBDA s : Append(s[1], s[2]), LAMBDA s : b[s[1]] * T[r][s[2]]))
Outcomes(m, x, rate) ==
  LET T == TopBags(m, x, rate)
      J == Joint(T, m.R)
      picks == [1..m.C -> KeptSets(m.R)]
  IN IF m.R = 1 THEN T[1]
     ELSE BagOf((DOMAIN J) \X picks,
                LAMBDA s : [c \in 1..m.C |-> KeepSum(LAMBDA r : m.mix[c][r] * s[1][r][c], s[2][c], m.R)],
                LAMBDA s : J[s[1]] * ProdOp(LAMBDA c : KeptWeight(rate, s[2][c], m.R), m.C))

(* ---- conformance -------------------------------------------------------------- *)
\* e.obs: distinct value vectors (scaled by m.sc) with their counts
Same(m, o, v) == \A c \in 1..m.C : Close(o[c], v[c] * m.sc)
Alone(m, D, v) == \A u \in D : u # v => ~Same(m, [c \in 1..m.C |-> u[c] * m.sc], v)
Drop_(e) ==
  LET m == Models[e.m]
      bag == Outcomes(m, e.x, e.rate)
      D == DOMAIN bag
      W == SumOver(D, bag)
      full == Dens(m, e.x)
      strange == {q \in 1..Len(e.obs) : ~\E v \in D : Same(m, e.obs[q].v, v)}
      cnt(v) == SumOp(LAMBDA q : IF Same(m, e.obs[q].v, v) THEN e.obs[q].c ELSE 0, Len(e.obs))
      off == {v \in D : Alone(m, D, v) /\ ~FreqOK(cnt(v), MulDiv(e.N, bag[v], W), TRUE)}
  IN [laws |-> \A v \in D : \A c \in 1..m.C : v[c] <= full[c],      \* removal never adds anything
      ok |-> strange = {} /\ off = {},
      exp |-> IF strange # {} THEN [strange |-> e.obs[CHOOSE q \in strange : TRUE]]
              ELSE IF off # {} THEN LET v == CHOOSE v \in off : TRUE
                                    IN [value |-> v, count |-> cnt(v), expected |-> MulDiv(e.N, bag[v], W)]
              ELSE [outcomes |-> Cardinality(D)]]
Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE} IN [laws |-> TRUE, exp |-> bad, ok |-> bad = {}]
Judge(e) ==
  IF e.err # "" THEN [laws |-> TRUE, ok |-> FALSE, exp |-> "a value"]
  ELSE IF e.k = "drop" THEN Drop_(e) ELSE Flags_(e)

Init == i \in 1..Len(Events) /\ verdict = "todo"
Next ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ j.laws /\ verdict' = "ok"
        \/ ~j.laws /\ verdict' = "lawless"
        \/ ~j.ok /\ j.laws /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
Lawful == verdict # "lawless"
=============================================================================
