------------------------------- MODULE Circuit -------------------------------
(* The sum-product circuit a configuration denotes, with exact integer        *)
(* arithmetic.  A circuit instance is a record                                *)
(*   F, CH, K, R, C       features, channels, leaves, repetitions, classes    *)
(*   V[ch][f]             domain size of a variable (values 0..V-1)           *)
(*   leaf[ch][f][k][r][v] integer leaf weights, each row sums to leafDen      *)
(*   reg[r][i]            sequence of the features of leaf region i in rep. r *)
(*   layers               inner layers bottom to top, each a record with type *)
(*                        t, integer weights w and their common sum den       *)
(*   mix[c][r], mixDen    repetition mixture (only used if R > 1)             *)
(* Layers of type "pool" multiply the nodes listed in grp[f] (the windows of  *)
(* a convolutional circuit, whose leaf regions are the pixels).               *)
(* Layers of type "cross" have a node for every pair of children.             *)
(* Every probability in a circuit is then an integer over one common          *)
(* denominator, Den(m).  An input is x[ch][f], with Missing for a value that  *)
(* is marginalised.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Arith

Missing == -1

LeafVal(m, ch, f, k, r, v) == IF v = Missing THEN m.leafDen ELSE m.leaf[ch][f][k][r][v + 1]

\* value of leaf region i: product over its features and all channels
RegionVal(m, x, i, k, r) ==
  FoldLeft(LAMBDA a, f :
             a * ProdOp(LAMBDA ch : LeafVal(m, ch, f, k, r, x[ch][f]), m.CH),
           1, m.reg[r][i])

RegionTable(m, x) ==
  [i \in 1..Len(m.reg[1]) |-> [k \in 1..m.K |-> [r \in 1..m.R |-> RegionVal(m, x, i, k, r)]]]

(* ---- inner layers: value of output node (f, o, r) given the child table T - *)
Child(T, f, i, r) == IF f \in DOMAIN T THEN T[f][i][r] ELSE 1     \* padded child

LinsumVal(L, T, f, o, r) ==
  SumOp(LAMBDA i : L.w[f][i][o][r] * (T[2 * f - 1][i][r] * Child(T, 2 * f, i, r)), L.si)
SumVal(L, T, f, o, r) == SumOp(LAMBDA i : L.w[f][i][o][r] * T[f][i][r], L.si)
Linsum2Val(L, T, f, o, r) ==
  LET half(g) == IF g \in DOMAIN T THEN SumVal(L, T, g, o, r) ELSE 1
  IN half(2 * f - 1) * half(2 * f)
EinsumVal(L, T, f, o, r) ==
  SumOp(LAMBDA i : SumOp(LAMBDA j : L.w[f][o][r][i][j] * (T[2 * f - 1][i][r] * T[2 * f][j][r]), L.si), L.si)
\* children of node o of a cross product
CrossI(L, o) == ((o - 1) \div L.si) + 1
CrossJ(L, o) == ((o - 1) % L.si) + 1
CrossVal(L, T, f, o, r) == T[2 * f - 1][CrossI(L, o)][r] * Child(T, 2 * f, CrossJ(L, o), r)
RootProdVal(L, T, f, o, r) == ProdOp(LAMBDA g : T[g][o][r], Cardinality(DOMAIN T))

NodeVal(L, T, f, o, r) ==
  CASE L.t = "linsum"  -> LinsumVal(L, T, f, o, r)
    [] L.t = "linsum2" -> Linsum2Val(L, T, f, o, r)
    [] L.t = "einsum"  -> EinsumVal(L, T, f, o, r)
    [] L.t = "sum"     -> SumVal(L, T, f, o, r)
    [] L.t = "prod"    -> RootProdVal(L, T, f, o, r)
    [] L.t = "cross"   -> CrossVal(L, T, f, o, r)
    [] L.t = "pool"    -> FoldLeft(LAMBDA a, g : a * T[g][o][r], 1, L.grp[f])

LayerOut(m, L, T) ==
  [f \in 1..L.fo |-> [o \in 1..L.so |-> [r \in 1..m.R |-> NodeVal(L, T, f, o, r)]]]

\* all tables, leaf regions first
Tables(m, x) ==
  FoldLeft(LAMBDA acc, L : Append(acc, LayerOut(m, L, acc[Len(acc)])),
           <<RegionTable(m, x)>>, m.layers)

RootVal(m, T, c) ==
  IF m.R = 1 THEN T[1][c][1] ELSE SumOp(LAMBDA r : m.mix[c][r] * T[1][c][r], m.R)

\* numerator of p(x | class c); Missing entries are summed out
DensT(m, tabs) == [c \in 1..m.C |-> RootVal(m, tabs[Len(tabs)], c)]
Dens(m, x) == DensT(m, Tables(m, x))

(* ---- the common denominator ------------------------------------------------ *)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

\* number of sum nodes below a root: every node of the layer is below it exactly once
LayerDen(L) ==
  CASE L.t = "linsum2" -> Pow(L.den, L.fi)
    [] L.t \in {"prod", "pool", "cross"} -> 1
    [] OTHER           -> Pow(L.den, L.fo)
Den(m) == Pow(m.leafDen, m.F * m.CH) * ProdSeq([i \in 1..Len(m.layers) |-> LayerDen(m.layers[i])])
          * (IF m.R = 1 THEN 1 ELSE m.mixDen)

(* ---- inputs ------------------------------------------------------------------ *)
AllMissing(m) == [ch \in 1..m.CH |-> [f \in 1..m.F |-> Missing]]
Cells(m) == (1..m.CH) \X (1..m.F)
Holes(m, x) == {q \in Cells(m) : x[q[1]][q[2]] = Missing}

\* all completions of x: the holes range over their domains
RECURSIVE FillFrom(_, _, _)
FillFrom(m, xs, holes) ==
  IF holes = {} THEN xs
  ELSE LET q == CHOOSE q \in holes : TRUE
       IN FillFrom(m, {[x EXCEPT ![q[1]][q[2]] = v] : x \in xs, v \in 0..(m.V[q[1]][q[2]] - 1)}, holes \ {q})
Completions(m, x) == FillFrom(m, {x}, Holes(m, x))

(* ---- well-formedness of an instance ------------------------------------------- *)
\* In every repetition the leaf regions partition the features (decomposability and
\* completeness), and every weight row sums to its denominator.
Partition(m) ==
  \A r \in 1..m.R :
    /\ \A f \in 1..m.F : Cardinality({<<i, j>> \in (1..Len(m.reg[r])) \X (1..m.F) :
                                        j <= Len(m.reg[r][i]) /\ m.reg[r][i][j] = f}) = 1
    /\ \A i \in 1..Len(m.reg[r]) : \A j \in 1..Len(m.reg[r][i]) : m.reg[r][i][j] \in 1..m.F
WeightRows(m) ==
  /\ \A ch \in 1..m.CH, f \in 1..m.F, k \in 1..m.K, r \in 1..m.R : SumSeq(m.leaf[ch][f][k][r]) = m.leafDen
  /\ m.R = 1 \/ \A c \in 1..m.C : SumSeq(m.mix[c]) = m.mixDen
  /\ \A l \in 1..Len(m.layers) :
       LET L == m.layers[l]
       IN CASE L.t \in {"linsum", "sum"} ->
                 \A f \in 1..L.fo, o \in 1..L.so, r \in 1..m.R :
                    SumOp(LAMBDA i : L.w[f][i][o][r], L.si) = L.den
            [] L.t = "linsum2" ->
                 \A f \in 1..L.fi, o \in 1..L.so, r \in 1..m.R :
                    SumOp(LAMBDA i : L.w[f][i][o][r], L.si) = L.den
            [] L.t = "einsum" ->
                 \A f \in 1..L.fo, o \in 1..L.so, r \in 1..m.R :
                    SumOp(LAMBDA i : SumSeq(L.w[f][o][r][i]), L.si) = L.den
            [] L.t = "pool" ->   \* the windows partition the nodes below
                 \A g \in 1..L.fi : Cardinality({q \in (1..L.fo) \X (1..L.fi) :
                                                    q[2] <= Len(L.grp[q[1]]) /\ L.grp[q[1]][q[2]] = g}) = 1
            [] OTHER -> TRUE

(* ---- the sampling process --------------------------------------------------- *)
(* Sampling descends from the root.  A sum node takes child i with probability  *)
(* proportional to (its choice weight) * (value of the child given the          *)
(* evidence); a leaf emits a value for every feature that is missing.  EM       *)
(* describes what is emitted: EM.e[ch][f][k][r][v] with common sum EM.den, and  *)
(* EM.all if observed features are emitted as well (leaf parameters).           *)
Plain(m) == [e |-> m.leaf, den |-> m.leafDen, all |-> FALSE]

\* value 1 on the mode if it is unique
ModeRow(row) ==
  LET mx == FoldLeft(LAMBDA a, b : Max2(a, b), 0, row)
  IN [v \in 1..Len(row) |-> IF row[v] = mx THEN 1 ELSE 0]
Map5(m, op(_)) ==
  [ch \in 1..m.CH |-> [f \in 1..m.F |-> [k \in 1..m.K |-> [r \in 1..m.R |-> op(m.leaf[ch][f][k][r])]]]]
UniqueModes(m) ==
  \A ch \in 1..m.CH, f \in 1..m.F, k \in 1..m.K, r \in 1..m.R : SumSeq(ModeRow(m.leaf[ch][f][k][r])) = 1
Modes(m) == [e |-> Map5(m, ModeRow), den |-> 1, all |-> FALSE]

\* the leaf reached, numbered k + K * r from zero
LeafIds(m) ==
  [e |-> [ch \in 1..m.CH |-> [f \in 1..m.F |-> [k \in 1..m.K |-> [r \in 1..m.R |->
            [v \in 1..(m.K * m.R) |-> IF v = (r - 1) * m.K + k THEN 1 ELSE 0]]]]],
   den |-> 1, all |-> TRUE]

\* weight of cell (ch, f) for evidence x and outcome y (y[ch][f] = Missing: any outcome)
CellVal(m, EM, x, y, ch, f, k, r) ==
  LET emit == IF y[ch][f] = Missing THEN EM.den ELSE EM.e[ch][f][k][r][y[ch][f] + 1]
  IN IF x[ch][f] = Missing THEN emit
     ELSE LeafVal(m, ch, f, k, r, x[ch][f]) * (IF EM.all THEN emit ELSE 1)
EmitTables(m, EM, x, y) ==
  FoldLeft(LAMBDA acc, L : Append(acc, LayerOut(m, L, acc[Len(acc)])),
           << [i \in 1..Len(m.reg[1]) |-> [k \in 1..m.K |-> [r \in 1..m.R |->
                 FoldLeft(LAMBDA a, f : a * ProdOp(LAMBDA ch : CellVal(m, EM, x, y, ch, f, k, r), m.CH),
                          1, m.reg[r][i])]]] >>, m.layers)
\* numerator of the probability that sampling with evidence x yields y; the class is
\* cls, or drawn from its posterior under the uniform prior if cls = 0
EmitMass(m, EM, x, y, cls) ==
  LET d == DensT(m, EmitTables(m, EM, x, y))
  IN IF cls = 0 THEN SumOp(LAMBDA c : d[c], m.C) ELSE d[cls]

(* ---- most probable branches ----------------------------------------------------- *)
\* scores that are equal up to 2^-14 may be ordered either way by floating point
NearMax(s, mx) == mx - s <= mx \div 16384
ArgMaxSet(f(_), n) ==
  LET mx == FoldLeft(LAMBDA a, j : Max2(a, f(j)), 0, [j \in 1..n |-> j])
  IN {j \in 1..n : NearMax(f(j), mx)}

\* can leaf (k, r) yield y in cell (ch, f) as its most probable value?
LeafHit(m, x, y, ids, ch, f, k, r) ==
  IF ids THEN y[ch][f] = (r - 1) * m.K + k - 1
  ELSE IF x[ch][f] # Missing THEN y[ch][f] = x[ch][f]
  ELSE /\ y[ch][f] + 1 \in DOMAIN m.leaf[ch][f][k][r]
       /\ y[ch][f] + 1 \in ArgMaxSet(LAMBDA v : m.leaf[ch][f][k][r][v], Len(m.leaf[ch][f][k][r]))

NodeHit(m, L, T, H, f, o, r) ==
  LET H2(g, i) == IF g \in DOMAIN H THEN H[g][i][r] ELSE TRUE
      half(g) == IF g \in DOMAIN T
                 THEN \E i \in ArgMaxSet(LAMBDA i : L.w[g][i][o][r] * T[g][i][r], L.si) : H[g][i][r]
                 ELSE TRUE
  IN CASE L.t = "linsum" ->
            \E i \in ArgMaxSet(LAMBDA i : L.w[f][i][o][r] * (T[2 * f - 1][i][r] * Child(T, 2 * f, i, r)), L.si) :
               H2(2 * f - 1, i) /\ H2(2 * f, i)
       [] L.t = "linsum2" -> half(2 * f - 1) /\ half(2 * f)
       [] L.t = "sum" -> half(f)
       [] L.t = "einsum" ->
            \E q \in ArgMaxSet(LAMBDA q : LET i == (q - 1) \div L.si + 1
                                              j == ((q - 1) % L.si) + 1
                                          IN L.w[f][o][r][i][j] * (T[2 * f - 1][i][r] * T[2 * f][j][r]), L.si * L.si) :
               H2(2 * f - 1, (q - 1) \div L.si + 1) /\ H2(2 * f, ((q - 1) % L.si) + 1)
       [] L.t = "prod" -> \A g \in DOMAIN H : H[g][o][r]
       [] L.t = "cross" -> H2(2 * f - 1, CrossI(L, o)) /\ H2(2 * f, CrossJ(L, o))
       [] L.t = "pool" -> \A q \in DOMAIN L.grp[f] : H[L.grp[f][q]][o][r]

\* can descending along most probable branches given x end in y?
MpeHit(m, x, y, cls, ids) ==
  LET tabs == Tables(m, x)
      H0 == [i \in 1..Len(m.reg[1]) |-> [k \in 1..m.K |-> [r \in 1..m.R |->
              \A j \in 1..Len(m.reg[r][i]) : \A ch \in 1..m.CH : LeafHit(m, x, y, ids, ch, m.reg[r][i][j], k, r)]]]
      hits == FoldLeft(LAMBDA acc, l :
                [f \in 1..m.layers[l].fo |-> [o \in 1..m.layers[l].so |-> [r \in 1..m.R |->
                   NodeHit(m, m.layers[l], tabs[l], acc, f, o, r)]]],
                H0, [l \in 1..Len(m.layers) |-> l])
      top == tabs[Len(tabs)]
      roothit(c) == IF m.R = 1 THEN hits[1][c][1]
                    ELSE \E r \in ArgMaxSet(LAMBDA r : m.mix[c][r] * top[1][c][r], m.R) : hits[1][c][r]
      d == DensT(m, tabs)
  IN IF cls # 0 THEN roothit(cls)
     ELSE \E c \in ArgMaxSet(LAMBDA c : d[c], m.C) : roothit(c)

(* ---- temperature of the sum nodes -------------------------------------------------- *)
\* instances for temperature 2 have weight rows that are permutations of one row of
\* perfect squares, so the tempered rows have a common sum again
Isqrt(n) == CHOOSE a \in 0..n : a * a = n
PowT(n, t) == IF t = "2" THEN Isqrt(n) ELSE IF t = "1/2" THEN n * n ELSE n
TemperRow(row, t) == [v \in 1..Len(row) |-> PowT(row[v], t)]
TemperW(L, t) ==
  CASE L.t \in {"prod", "pool", "cross"} -> L.w
    [] L.t = "einsum" -> [f \in DOMAIN L.w |-> [o \in DOMAIN L.w[f] |-> [r \in DOMAIN L.w[f][o] |->
                            [i \in DOMAIN L.w[f][o][r] |-> TemperRow(L.w[f][o][r][i], t)]]]]
    [] OTHER -> [f \in DOMAIN L.w |-> [i \in DOMAIN L.w[f] |-> [o \in DOMAIN L.w[f][i] |-> TemperRow(L.w[f][i][o], t)]]]
TemperSums(m, t) ==
  IF t = "1" THEN m
  ELSE [m EXCEPT !.layers = [l \in DOMAIN m.layers |-> [m.layers[l] EXCEPT !.w = TemperW(m.layers[l], t)]],
                 !.mix = [c \in DOMAIN m.mix |-> IF m.R = 1 THEN m.mix[c] ELSE TemperRow(m.mix[c], t)]]
TemperLeaves(m, EM, t) ==
  IF t = "1" THEN EM
  ELSE LET e == Map5(m, LAMBDA row : TemperRow(row, t))
       IN [EM EXCEPT !.e = e, !.den = SumSeq(e[1][1][1][1])]

(* ---- expected usage of edges (gradients) ------------------------------------------- *)
(* Usage is counted in units of 2^-20.  The usage of a node given x is the       *)
(* posterior probability that it is on the path from the root of class c.        *)
FU == 1048576
Share(u, part, total) == IF total = 0 THEN 0 ELSE MulDiv(u, part, total)
\* usage of the children of layer l, given the usage U[f][o][r] of its nodes
EdgeUse(L, T, U, f, i, o, r) ==
  CASE L.t = "linsum" -> Share(U[f][o][r], L.w[f][i][o][r] * (T[2 * f - 1][i][r] * Child(T, 2 * f, i, r)),
                               LinsumVal(L, T, f, o, r))
    [] L.t = "sum" -> Share(U[f][o][r], L.w[f][i][o][r] * T[f][i][r], SumVal(L, T, f, o, r))
    [] L.t = "linsum2" -> Share(U[(f + 1) \div 2][o][r], L.w[f][i][o][r] * T[f][i][r], SumVal(L, T, f, o, r))
EinEdgeUse(L, T, U, f, i, j, o, r) ==
  Share(U[f][o][r], L.w[f][o][r][i][j] * (T[2 * f - 1][i][r] * T[2 * f][j][r]), EinsumVal(L, T, f, o, r))
ChildUse(m, L, T, U, g, i, r) ==
  LET f == (g + 1) \div 2
  IN CASE L.t = "linsum" -> SumOp(LAMBDA o : EdgeUse(L, T, U, f, i, o, r), L.so)
       [] L.t \in {"sum", "linsum2"} -> SumOp(LAMBDA o : EdgeUse(L, T, U, g, i, o, r), L.so)
       [] L.t = "prod" -> U[1][i][r]
       [] L.t = "cross" -> SumOp(LAMBDA j : IF g % 2 = 1 THEN U[f][((i - 1) * L.si) + j][r]
                                            ELSE U[f][((j - 1) * L.si) + i][r], L.si)
       [] L.t = "pool" -> U[CHOOSE q \in 1..L.fo : \E z \in DOMAIN L.grp[q] : L.grp[q][z] = g][i][r]
       [] L.t = "einsum" ->
            SumOp(LAMBDA o : SumOp(LAMBDA j : IF g % 2 = 1 THEN EinEdgeUse(L, T, U, f, i, j, o, r)
                                             ELSE EinEdgeUse(L, T, U, f, j, i, o, r), L.si), L.so)
RootUse(m, tabs, c) ==
  LET top == tabs[Len(tabs)]
  IN <<[o \in 1..m.C |-> [r \in 1..m.R |->
        IF o # c THEN 0
        ELSE IF m.R = 1 THEN FU
        ELSE Share(FU, m.mix[c][r] * top[1][c][r], RootVal(m, top, c))]]>>
\* usages of all nodes, top layer first; the last entry are the leaf regions
Uses(m, tabs, c) ==
  FoldLeft(LAMBDA acc, l :
             Append(acc, [g \in DOMAIN tabs[l] |-> [i \in 1..m.layers[l].si |-> [r \in 1..m.R |->
                            ChildUse(m, m.layers[l], tabs[l], acc[Len(acc)], g, i, r)]]]),
           <<RootUse(m, tabs, c)>>, [j \in 1..Len(m.layers) |-> Len(m.layers) + 1 - j])
==============================================================================
