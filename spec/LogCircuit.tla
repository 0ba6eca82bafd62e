----------------------------- MODULE LogCircuit -----------------------------
(* The same circuit as Circuit.tla in the logarithmic domain: logits, leaf    *)
(* parameters and results are integers in units of 1/1000 nat, so weights and *)
(* densities of any magnitude, and circuits of any size, can be evaluated.    *)
(* An instance has F, CH, K, R, C, reg, layers and mix as in Circuit.tla,     *)
(* but layers[l].w and mix hold logits (normalised here), and leaves are      *)
(*   fam[f] = "norm": mu[ch][f][k][r] integer mean, sg[ch][f][k][r] in        *)
(*                 {-1,0,1}: standard deviation 2^sg; observations are integer*)
(*   fam[f] = "cat": lg[ch][f][k][r] logits of the values 0, 1, ... (also the *)
(*                 Bernoulli and binomial leaves)                             *)
(* A missing observation is NoVal.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NoVal == 99999
MaxI(a, b) == IF a >= b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

(* ---- ln(1 + exp(-d)), d in steps of 1/100 nat, linear in between ------------- *)
LogAddTable ==
  << 693, 688, 683, 678, 673, 668, 664, 659, 654, 649, 644, 640, 635, 630, 626, 621, 616,
     612, 607, 603, 598, 594, 589, 585, 580, 576, 572, 567, 563, 559, 554, 550, 546, 542,
     538, 533, 529, 525, 521, 517, 513, 509, 505, 501, 497, 493, 489, 486, 482, 478, 474,
     470, 467, 463, 459, 455, 452, 448, 445, 441, 437, 434, 430, 427, 423, 420, 417, 413,
     410, 407, 403, 400, 397, 393, 390, 387, 384, 380, 377, 374, 371, 368, 365, 362, 359,
     356, 353, 350, 347, 344, 341, 338, 335, 333, 330, 327, 324, 321, 319, 316, 313, 311,
     308, 305, 303, 300, 297, 295, 292, 290, 287, 285, 282, 280, 277, 275, 273, 270, 268,
     266, 263, 261, 259, 256, 254, 252, 250, 248, 245, 243, 241, 239, 237, 235, 233, 231,
     228, 226, 224, 222, 220, 218, 216, 215, 213, 211, 209, 207, 205, 203, 201, 200, 198,
     196, 194, 192, 191, 189, 187, 186, 184, 182, 181, 179, 177, 176, 174, 172, 171, 169,
     168, 166, 165, 163, 162, 160, 159, 157, 156, 154, 153, 152, 150, 149, 147, 146, 145,
     143, 142, 141, 139, 138, 137, 136, 134, 133, 132, 131, 129, 128, 127, 126, 125, 123,
     122, 121, 120, 119, 118, 117, 116, 114, 113, 112, 111, 110, 109, 108, 107, 106, 105,
     104, 103, 102, 101, 100, 99, 98, 97, 96, 96, 95, 94, 93, 92, 91, 90, 89, 89, 88, 87,
     86, 85, 84, 84, 83, 82, 81, 80, 80, 79, 78, 77, 77, 76, 75, 74, 74, 73, 72, 72, 71,
     70, 70, 69, 68, 68, 67, 66, 66, 65, 64, 64, 63, 63, 62, 61, 61, 60, 60, 59, 58, 58,
     57, 57, 56, 56, 55, 55, 54, 54, 53, 53, 52, 52, 51, 51, 50, 50, 49, 49, 48, 48, 47,
     47, 46, 46, 45, 45, 44, 44, 44, 43, 43, 42, 42, 42, 41, 41, 40, 40, 40, 39, 39, 38,
     38, 38, 37, 37, 37, 36, 36, 36, 35, 35, 34, 34, 34, 33, 33, 33, 33, 32, 32, 32, 31,
     31, 31, 30, 30, 30, 29, 29, 29, 29, 28, 28, 28, 27, 27, 27, 27, 26, 26, 26, 26, 25,
     25, 25, 25, 24, 24, 24, 24, 23, 23, 23, 23, 23, 22, 22, 22, 22, 21, 21, 21, 21, 21,
     20, 20, 20, 20, 20, 19, 19, 19, 19, 19, 19, 18, 18, 18, 18, 18, 17, 17, 17, 17, 17,
     17, 16, 16, 16, 16, 16, 16, 15, 15, 15, 15, 15, 15, 15, 14, 14, 14, 14, 14, 14, 14,
     13, 13, 13, 13, 13, 13, 13, 13, 12, 12, 12, 12, 12, 12, 12, 12, 11, 11, 11, 11, 11,
     11, 11, 11, 11, 11, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 9, 9, 9, 9, 9, 9, 9, 9,
     9, 9, 9, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
     7, 7, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 5, 5, 5, 5, 5, 5, 5, 5, 5,
     5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,
     4, 4, 4, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
     3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
     2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
     2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
     1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
     1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
     1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
     1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
     0, 0, 0, 0, 0, 0, 0 >>
Softplus(d) == IF d >= 8990 THEN 0
               ELSE LET a == d \div 10
                        b == d % 10
                    IN LogAddTable[a + 1] - ((LogAddTable[a + 1] - LogAddTable[a + 2]) * b + 5) \div 10
\* log(exp(a) + exp(b))
LogAdd(a, b) == IF a >= b THEN a + Softplus(a - b) ELSE b + Softplus(b - a)
\* log of the sum of exp(f(1)), ..., exp(f(n)), halves first
RECURSIVE LseFrom(_, _, _)
LseFrom(f(_), a, b) == IF a = b THEN f(a)
                       ELSE LET c == (a + b) \div 2 IN LogAdd(LseFrom(f, a, c), LseFrom(f, c + 1, b))
Lse(f(_), n) == LseFrom(f, 1, n)
RECURSIVE Total(_, _)
Total(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + Total(f, n - 1)

(* ---- leaves -------------------------------------------------------------------- *)
HalfLog2Pi == 919
Log2 == 693
LeafLog(m, ch, f, k, r, v) ==
  IF v = NoVal THEN 0
  ELSE IF m.fam[f] = "norm"
       THEN LET d == AbsI(v - m.mu[ch][f][k][r])
                s == m.sg[ch][f][k][r]
                q == IF s = 0 THEN 500 * d * d ELSE IF s = 1 THEN 125 * d * d ELSE 2000 * d * d
            IN -(q + HalfLog2Pi + s * Log2)
       ELSE LET l == m.lg[ch][f][k][r] IN l[v + 1] - Lse(LAMBDA u : l[u], Len(l))

RegionLog(m, x, g, k, r) ==
  FoldLeft(LAMBDA a, f : a + Total(LAMBDA ch : LeafLog(m, ch, f, k, r, x[ch][f]), m.CH), 0, m.reg[r][g])
RegionLogs(m, x) ==
  [g \in 1..Len(m.reg[1]) |-> [k \in 1..m.K |-> [r \in 1..m.R |-> RegionLog(m, x, g, k, r)]]]

(* ---- inner layers: the log value of branch number q of a node, without normaliser -- *)
Kid(T, g, a, r) == IF g \in DOMAIN T THEN T[g][a][r] ELSE 0
Row(q, n) == ((q - 1) \div n) + 1
Col(q, n) == ((q - 1) % n) + 1
\* linsum2 keeps the two halves of a node apart: g is the input feature
HalfBranch(L, T, g, o, r, q) == L.w[g][q][o][r] + T[g][q][r]
HalfLog(L, T, g, o, r) ==
  IF g \notin DOMAIN T THEN 0
  ELSE Lse(LAMBDA q : HalfBranch(L, T, g, o, r, q), L.si) - Lse(LAMBDA q : L.w[g][q][o][r], L.si)
LinBranch(L, T, f, o, r, q) == L.w[f][q][o][r] + T[2 * f - 1][q][r] + Kid(T, 2 * f, q, r)
EinBranch(L, T, f, o, r, q) ==
  L.w[f][o][r][Row(q, L.si)][Col(q, L.si)] + T[2 * f - 1][Row(q, L.si)][r] + T[2 * f][Col(q, L.si)][r]

NodeLog(L, T, f, o, r) ==
  CASE L.t = "linsum" -> Lse(LAMBDA q : LinBranch(L, T, f, o, r, q), L.si) - Lse(LAMBDA q : L.w[f][q][o][r], L.si)
    [] L.t = "sum" -> HalfLog(L, T, f, o, r)
    [] L.t = "linsum2" -> HalfLog(L, T, 2 * f - 1, o, r) + HalfLog(L, T, 2 * f, o, r)
    [] L.t = "einsum" -> Lse(LAMBDA q : EinBranch(L, T, f, o, r, q), L.si * L.si)
                         - Lse(LAMBDA q : L.w[f][o][r][Row(q, L.si)][Col(q, L.si)], L.si * L.si)
    [] L.t = "prod" -> Total(LAMBDA g : T[g][o][r], Cardinality(DOMAIN T))
    [] L.t = "pool" -> FoldLeft(LAMBDA a, g : a + T[g][o][r], 0, L.grp[f])
    [] L.t = "cross" -> T[2 * f - 1][Row(o, L.si)][r] + Kid(T, 2 * f, Col(o, L.si), r)

LayerLogs(m, L, T) ==
  TLCEval([f \in 1..L.fo |-> [o \in 1..L.so |-> [r \in 1..m.R |-> NodeLog(L, T, f, o, r)]]])
LogTables(m, x) ==
  FoldLeft(LAMBDA acc, L : Append(acc, LayerLogs(m, L, acc[Len(acc)])), <<TLCEval(RegionLogs(m, x))>>, m.layers)

RootLog(m, T, c) ==
  IF m.R = 1 THEN T[1][c][1]
  ELSE Lse(LAMBDA r : m.mix[c][r] + T[1][c][r], m.R) - Lse(LAMBDA r : m.mix[c][r], m.R)
LogDens(m, tabs) == TLCEval([c \in 1..m.C |-> RootLog(m, tabs[Len(tabs)], c)])

(* ---- descending along the best (or not negligible) branches -------------------------- *)
\* branches within tol of the best one may be taken
Tol(v) == 60 + AbsI(v) \div 200000
Best(f(_), n, slack) ==
  LET mx == FoldLeft(LAMBDA a, q : MaxI(a, f(q)), f(1), [q \in 1..n |-> q])
  IN {q \in 1..n : f(q) >= mx - slack - Tol(mx)}

\* what a leaf may have put into the cell: its mode, or any value that is not negligible.
\* Values of Gaussian leaves are recorded in 1/100.
LeafMay(m, x, y, ch, f, k, r, slack) ==
  IF x[ch][f] # NoVal THEN y[ch][f] = 100 * x[ch][f]
  ELSE IF m.fam[f] = "norm"
       THEN AbsI(y[ch][f] - 100 * m.mu[ch][f][k][r])
              <= (IF slack = 0 THEN 1 ELSE CASE m.sg[ch][f][k][r] = 0 -> 700 [] m.sg[ch][f][k][r] = 1 -> 1400
                                             [] OTHER -> 350)
       ELSE LET l == m.lg[ch][f][k][r]
            IN \E v \in Best(LAMBDA u : l[u], Len(l), slack) : y[ch][f] = 100 * (v - 1)

NodeMay(m, L, T, H, f, o, r, slack) ==
  LET H2(g, a) == IF g \in DOMAIN H THEN H[g][a][r] ELSE TRUE
      half(g) == g \in DOMAIN T => \E q \in Best(LAMBDA q : HalfBranch(L, T, g, o, r, q), L.si, slack) : H[g][q][r]
  IN CASE L.t = "linsum" -> \E q \in Best(LAMBDA q : LinBranch(L, T, f, o, r, q), L.si, slack) :
                              H2(2 * f - 1, q) /\ H2(2 * f, q)
       [] L.t = "linsum2" -> half(2 * f - 1) /\ half(2 * f)
       [] L.t = "sum" -> half(f)
       [] L.t = "einsum" -> \E q \in Best(LAMBDA q : EinBranch(L, T, f, o, r, q), L.si * L.si, slack) :
                              H2(2 * f - 1, Row(q, L.si)) /\ H2(2 * f, Col(q, L.si))
       [] L.t = "prod" -> \A g \in DOMAIN H : H[g][o][r]
       [] L.t = "pool" -> \A q \in DOMAIN L.grp[f] : H[L.grp[f][q]][o][r]
       [] L.t = "cross" -> H2(2 * f - 1, Row(o, L.si)) /\ H2(2 * f, Col(o, L.si))

\* can a descent whose choices are within slack of the best end in y?  cls = 0: class open
MayReachLeaf(m, x, y, cls, slack, leafslack) ==
  LET tabs == LogTables(m, x)
      H0 == TLCEval([g \in 1..Len(m.reg[1]) |-> [k \in 1..m.K |-> [r \in 1..m.R |->
              \A j \in 1..Len(m.reg[r][g]) : \A ch \in 1..m.CH : LeafMay(m, x, y, ch, m.reg[r][g][j], k, r, leafslack)]]])
      H == FoldLeft(LAMBDA acc, l :
             TLCEval([f \in 1..m.layers[l].fo |-> [o \in 1..m.layers[l].so |-> [r \in 1..m.R |->
                NodeMay(m, m.layers[l], tabs[l], acc, f, o, r, slack)]]]),
             H0, [l \in 1..Len(m.layers) |-> l])
      top == tabs[Len(tabs)]
      root(c) == IF m.R = 1 THEN H[1][c][1]
                 ELSE \E r \in Best(LAMBDA r : m.mix[c][r] + top[1][c][r], m.R, slack) : H[1][c][r]
      d == LogDens(m, tabs)
  IN IF cls # 0 THEN root(cls) ELSE \E c \in Best(LAMBDA c : d[c], m.C, slack) : root(c)
MayReach(m, x, y, cls, slack) == MayReachLeaf(m, x, y, cls, slack, slack)
\* the same with the leaves at their modes
MayReachModes(m, x, y, cls, slack) == MayReachLeaf(m, x, y, cls, slack, 0)
=============================================================================
