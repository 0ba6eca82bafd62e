------------------------------ MODULE InitStats ------------------------------
(* Initialising Gaussian leaves from data.  The machine reads a column of     *)
(* numbers in batches of any sizes and accumulates count, sum and sum of      *)
(* squares; whatever the batches are, it ends with the statistics of the      *)
(* whole column.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Squares(s) == FoldLeft(LAMBDA a, b : a + b * b, 0, s)
\* n * (n - 1) * variance
VarTop(s) == Len(s) * Squares(s) - Sum(s) * Sum(s)
\* sum of squared differences of all pairs: the variance without any mean
Pairs(s) == FoldLeft(LAMBDA a, j : a + FoldLeft(LAMBDA b, k : b + (s[j] - s[k]) * (s[j] - s[k]), 0, [k \in 1..(j - 1) |-> k]),
                     0, [j \in 1..Len(s) |-> j])

CONSTANTS Values, MaxLen
VARIABLES col, pos, n, sum, sq
svars == <<col, pos, n, sum, sq>>
SInit == /\ \E l \in 1..MaxLen : col \in [1..l -> Values]
         /\ pos = 0 /\ n = 0 /\ sum = 0 /\ sq = 0
Batch(k) == LET b == SubSeq(col, pos + 1, pos + k)
            IN /\ pos' = pos + k /\ n' = n + k /\ sum' = sum + Sum(b) /\ sq' = sq + Squares(b) /\ UNCHANGED col
SNext == \E k \in 1..(Len(col) - pos) : Batch(k)
SSpec == SInit /\ [][SNext]_svars

Done == pos = Len(col)
WholeColumn == Done => n = Len(col) /\ sum = Sum(col) /\ n * sq - sum * sum = VarTop(col)
\* never negative, and independent of where the numbers lie
VarLaw == Done => VarTop(col) = Pairs(col) /\ VarTop([k \in DOMAIN col |-> col[k] + 3]) = VarTop(col)
=============================================================================
