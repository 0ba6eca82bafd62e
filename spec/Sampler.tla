------------------------------- MODULE Sampler -------------------------------
(* The sampling procedure as a state machine: choose a class, choose a        *)
(* repetition, let every selected sum node choose one child, and let every    *)
(* selected leaf emit its value.  The mass of a state is the (integer)        *)
(* probability of reaching it times what is still to be decided, so           *)
(* LocalBalance - the mass of a state is the sum of the masses of its         *)
(* successors - together with the mass of the initial state (Dens of the      *)
(* evidence) shows by induction that the procedure yields completion y with   *)
(* probability Dens(y) / Dens(evidence).  With Mpe = TRUE only most probable  *)
(* children are chosen.                                                       *)
EXTENDS Circuit, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Models == Data.models
Starts == Data.starts          \* records [m, x, cls, mpe, any]: instance, evidence, class (0: drawn)

VARIABLES st, tabs
vars == <<st, tabs>>

M(s) == Models[Starts[s.j].m]
E(s) == Starts[s.j].x
IsMpe(s) == Starts[s.j].mpe
NL(m) == Len(m.layers)

NodeT(s, q) == tabs[q[1] + 1][q[2]][q[3]][s.r]       \* q = <<layer (0: leaf region), node, channel>>

\* features below node f of level l in repetition r
RECURSIVE Scope(_, _, _, _)
Scope(m, l, f, r) ==
  IF l = 0 THEN {m.reg[r][f][j] : j \in 1..Len(m.reg[r][f])}
  ELSE LET L == m.layers[l]
       IN CASE L.t = "sum" -> Scope(m, l - 1, f, r)
            [] L.t = "prod" -> UNION {Scope(m, l - 1, g, r) : g \in 1..L.fi}
            [] L.t = "pool" -> UNION {Scope(m, l - 1, L.grp[f][z], r) : z \in DOMAIN L.grp[f]}
            [] OTHER -> UNION {Scope(m, l - 1, g, r) : g \in {2 * f - 1, 2 * f} \cap (1..L.fi)}

\* mass of a state
Todo(s) == s.todo
Mass(s) ==
  CASE s.stage = "class" -> LET d == DensT(M(s), tabs) IN SumOp(LAMBDA c : d[c], M(s).C)
    [] s.stage = "rep"   -> DensT(M(s), tabs)[s.c]
    [] OTHER -> s.acc * ProdSeq([k \in 1..Len(s.todo) |-> NodeT(s, s.todo[k])])
                * ProdSeq([k \in 1..Len(s.leaf) |->
                     LET q == s.leaf[k] IN LeafVal(M(s), q[1], q[2], q[3], s.r, E(s)[q[1]][q[2]])])

(* ---- successors ---------------------------------------------------------------- *)
\* choices of a sum node: records [w, kids]
Branches(m, s, q) ==
  LET l == q[1]
      L == m.layers[l]
      f == q[2]
      o == q[3]
      T == tabs[l]
      kids(i) == SelectSeq(<<<<l - 1, 2 * f - 1, i>>, <<l - 1, 2 * f, i>>>>, LAMBDA z : z[2] <= L.fi)
  IN CASE L.t = "linsum" -> [i \in 1..L.si |-> [w |-> L.w[f][i][o][s.r], kids |-> kids(i)]]
       [] L.t = "sum" -> [i \in 1..L.si |-> [w |-> L.w[f][i][o][s.r], kids |-> <<<<l - 1, f, i>>>>]]
       [] L.t = "einsum" -> [p \in 1..(L.si * L.si) |->
                              LET a == (p - 1) \div L.si + 1
                                  b == ((p - 1) % L.si) + 1
                              IN [w |-> L.w[f][o][s.r][a][b], kids |-> <<<<l - 1, 2 * f - 1, a>>, <<l - 1, 2 * f, b>>>>]]
       [] L.t = "prod" -> <<[w |-> 1, kids |-> [g \in 1..L.fi |-> <<l - 1, g, o>>]]>>
       [] L.t = "pool" -> <<[w |-> 1, kids |-> [z \in DOMAIN L.grp[f] |-> <<l - 1, L.grp[f][z], o>>]]>>
       [] L.t = "cross" -> <<[w |-> 1, kids |-> SelectSeq(<<<<l - 1, 2 * f - 1, CrossI(L, o)>>, <<l - 1, 2 * f, CrossJ(L, o)>>>>,
                                                          LAMBDA z : z[2] <= L.fi)]>>
       \* both sums below the product choose
       [] L.t = "linsum2" -> [p \in 1..(L.si * (IF 2 * f <= L.fi THEN L.si ELSE 1)) |->
                              LET a == ((p - 1) % L.si) + 1
                                  b == (p - 1) \div L.si + 1
                              IN IF 2 * f <= L.fi
                                 THEN [w |-> L.w[2 * f - 1][a][o][s.r] * L.w[2 * f][b][o][s.r],
                                       kids |-> <<<<l - 1, 2 * f - 1, a>>, <<l - 1, 2 * f, b>>>>]
                                 ELSE [w |-> L.w[2 * f - 1][a][o][s.r], kids |-> <<<<l - 1, 2 * f - 1, a>>>>]]

Expand(s) ==
  LET m == M(s)
      q == Head(s.todo)
      ch == Branches(m, s, q)
      score(k) == ch[k].w * ProdSeq([z \in 1..Len(ch[k].kids) |-> NodeT(s, ch[k].kids[z])])
      allowed == IF IsMpe(s) THEN ArgMaxSet(score, Len(ch)) ELSE 1..Len(ch)
  IN IF q[1] = 0
     THEN \* a selected leaf region: its features wait for their leaf
       {[s EXCEPT !.todo = Tail(s.todo),
                  !.leaf = s.leaf \o [z \in 1..(Len(m.reg[s.r][q[2]]) * m.CH) |->
                              <<((z - 1) % m.CH) + 1, m.reg[s.r][q[2]][(z - 1) \div m.CH + 1], q[3]>>]]}
     ELSE {[s EXCEPT !.todo = Tail(s.todo) \o ch[k].kids, !.acc = s.acc * ch[k].w] : k \in allowed}

Emit(s) ==
  LET m == M(s)
      q == Head(s.leaf)
      row == m.leaf[q[1]][q[2]][q[3]][s.r]
      ev == E(s)[q[1]][q[2]]
      vals == IF ev # Missing THEN {ev}
              ELSE IF IsMpe(s) THEN {v - 1 : v \in ArgMaxSet(LAMBDA v : row[v], Len(row))}
              ELSE 0..(Len(row) - 1)
  IN {[s EXCEPT !.leaf = Tail(s.leaf), !.acc = s.acc * row[v + 1], !.y = [s.y EXCEPT ![q[1]][q[2]] = v],
                !.n = s.n + 1] : v \in vals}

Succ(s) ==
  LET m == M(s)
      d == DensT(m, tabs)
      top == tabs[Len(tabs)]
  IN CASE s.stage = "class" ->
            {[s EXCEPT !.stage = "rep", !.c = c] : c \in IF IsMpe(s) THEN ArgMaxSet(LAMBDA c : d[c], m.C) ELSE 1..m.C}
       [] s.stage = "rep" ->
            {[s EXCEPT !.stage = "go", !.r = r, !.acc = IF m.R = 1 THEN 1 ELSE m.mix[s.c][r],
                       !.todo = <<<<NL(m), 1, s.c>>>>] :
               r \in IF m.R = 1 THEN {1}
                     ELSE IF IsMpe(s) THEN ArgMaxSet(LAMBDA r : m.mix[s.c][r] * top[1][s.c][r], m.R) ELSE 1..m.R}
       [] s.todo # <<>> -> Expand(s)
       [] s.leaf # <<>> -> Emit(s)
       [] OTHER -> {}

Init ==
  \E j \in 1..Len(Starts) :
    LET b == Starts[j]
        m == Models[b.m]
    IN /\ st = [j |-> j, stage |-> IF b.cls = 0 THEN "class" ELSE "rep", c |-> b.cls, r |-> 0, acc |-> 1, todo |-> <<>>,
                leaf |-> <<>>, y |-> AllMissing(m), n |-> 0]
       /\ tabs = Tables(m, b.x)
Next == \E t \in Succ(st) : st' = t /\ UNCHANGED tabs
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------------------- *)
Done(s) == s.stage = "go" /\ s.todo = <<>> /\ s.leaf = <<>>
MassSum(S, f(_)) == FoldLeft(LAMBDA a, b : a + f(b), 0, SetToSeq(S))

LocalBalance == Done(st) \/ IsMpe(st) \/ MassSum(Succ(st), Mass) = Mass(st)
EvidenceKept ==
  \A ch \in 1..M(st).CH, f \in 1..M(st).F :
    E(st)[ch][f] # Missing => st.y[ch][f] \in {Missing, E(st)[ch][f]}
\* every feature is written exactly once: scopes of what is left are disjoint and cover the rest
Decomposes ==
  st.stage # "go" \/
    LET m == M(st)
        below == [k \in 1..Len(st.todo) |-> Scope(m, st.todo[k][1], st.todo[k][2], st.r)]
        cells == {<<st.leaf[k][1], st.leaf[k][2]>> : k \in 1..Len(st.leaf)}
        written == {q \in Cells(m) : st.y[q[1]][q[2]] # Missing}
    IN /\ SumSeq([k \in 1..Len(below) |-> Cardinality(below[k])]) = Cardinality(UNION {below[k] : k \in 1..Len(below)})
       /\ Cardinality(cells) = Len(st.leaf)
       /\ st.n = Cardinality(written)
       /\ written \cap cells = {}
       /\ written \cup cells \cup ((1..m.CH) \X UNION {below[k] : k \in 1..Len(below)}) = Cells(m)
Complete == Done(st) => \A q \in Cells(M(st)) : st.y[q[1]][q[2]] # Missing
\* a completed sample has positive density, and MPE results are what MpeHit accepts
Supported == Done(st) =>
  /\ IsMpe(st) \/ st.acc = 0 \/ Dens(M(st), st.y)[st.c] >= st.acc
  /\ IsMpe(st) => MpeHit(M(st), E(st), st.y, Starts[st.j].cls, FALSE)
==============================================================================
