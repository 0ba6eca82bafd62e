------------------------------- MODULE Wiring --------------------------------
(* The random wiring of features to leaf regions.                              *)
(* A case is [kind, F, fo, R]: F features, fo leaf regions, R repetitions.     *)
(*  "simple"   (top-down, one repetition) F features and dummies are shuffled  *)
(*             into fo regions of ceil(F/fo) slots                             *)
(*  "groups"   (top-down, more repetitions) region sizes differ by at most one *)
(*             and are the same in all repetitions; the features are shuffled  *)
(*             anew in every repetition                                        *)
(*  "order"    (bottom-up) the features are shuffled in every repetition, each *)
(*             is a region of its own                                          *)
(* The construction is a state machine: items are dealt to slots one by one,   *)
(* then the wiring is used and never changes.  Its terminal states, counted,   *)
(* are the distribution of wirings (Chance).                                   *)
EXTENDS Arith, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
GenCases == Data.gen

CeilDiv(a, b) == (a + b - 1) \div b
Items(c) == IF c.kind = "simple" THEN CeilDiv(c.F, c.fo) * c.fo ELSE c.F

(* ---- what a wiring must satisfy ---------------------------------------------- *)
\* reg[i] = features of region i, in one repetition
PartitionOf(F, reg) ==
  /\ \A i \in DOMAIN reg : \A j \in DOMAIN reg[i] : reg[i][j] \in 1..F
  /\ SumSeq([i \in 1..Len(reg) |-> Len(reg[i])]) = F
  /\ {reg[i][j] : <<i, j>> \in {p \in (1..Len(reg)) \X (1..F) : p[2] <= Len(reg[p[1]])}} = 1..F
BalancedIn(c, reg) ==
  /\ Len(reg) = c.fo
  /\ CASE c.kind = "simple" -> \A i \in DOMAIN reg : Len(reg[i]) <= CeilDiv(c.F, c.fo)
       [] c.kind = "groups" -> \A i \in DOMAIN reg : Len(reg[i]) \in {c.F \div c.fo, CeilDiv(c.F, c.fo)}
       [] c.kind = "order"  -> \A i \in DOMAIN reg : Len(reg[i]) = 1
InverseOf(p, q) == /\ Len(p) = Len(q)
                   /\ \A i \in DOMAIN p : p[i] \in DOMAIN p /\ q[p[i]] = i /\ p[q[i]] = i

(* ---- the distribution of wirings -------------------------------------------------- *)
\* where every feature ends up: a[f] = region
RegionOfSlot(c, sizes, s) ==
  CHOOSE i \in 1..c.fo : SumOp(LAMBDA k : sizes[k], i - 1) < s /\ s <= SumOp(LAMBDA k : sizes[k], i)
SizeChoices(c) ==
  IF c.kind = "groups"
  THEN {s \in [1..c.fo -> {c.F \div c.fo, CeilDiv(c.F, c.fo)}] : SumOp(LAMBDA k : s[k], c.fo) = c.F}
  ELSE {[i \in 1..c.fo |-> Items(c) \div c.fo]}
\* number of ways to deal all items to slots such that every feature f lands in a[f]
RECURSIVE Ways(_, _, _, _)
\* deal items one by one; free[i] = free slots of region i
Ways(a, free, f, n) ==
  IF f > n THEN 1
  ELSE IF f <= Len(a) THEN IF free[a[f]] = 0 THEN 0 ELSE free[a[f]] * Ways(a, [free EXCEPT ![a[f]] = @ - 1], f + 1, n)
  ELSE (n - f + 1) * Ways(a, free, f + 1, n)          \* dummies fill what is left in any order
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
\* chance of the wirings as[r] of all repetitions, as a fraction of ChanceDen
ChanceDen(c) == Cardinality(SizeChoices(c)) * ProdOp(LAMBDA r : Fact(Items(c)), c.R)
Chance(c, as) ==
  LET ss == SizeChoices(c)
  IN FoldLeft(LAMBDA acc, s : acc + ProdOp(LAMBDA r : Ways(as[r], s, 1, Items(c)), c.R), 0, SetToSeq(ss))

(* ---- the construction as a state machine ------------------------------------------ *)
VARIABLES case, sizes, dealt, used
gvars == <<case, sizes, dealt, used>>
Total(c) == Items(c) * c.R
GInit == /\ case \in 1..Len(GenCases) /\ sizes \in SizeChoices(GenCases[case])
         /\ dealt = <<>> /\ used = 0
Rep(c, k) == ((k - 1) \div Items(c)) + 1
Deal ==
  LET c == GenCases[case]
  IN /\ Len(dealt) < Total(c)
     /\ \E it \in 1..Items(c) :
          /\ \A k \in DOMAIN dealt : Rep(c, k) = Rep(c, Len(dealt) + 1) => dealt[k] # it
          /\ dealt' = Append(dealt, it)
     /\ UNCHANGED <<case, sizes, used>>
\* any call of the finished model
Use == /\ Len(dealt) = Total(GenCases[case]) /\ used < 2 /\ used' = used + 1
       /\ UNCHANGED <<case, sizes, dealt>>
GSpec == GInit /\ [][Deal \/ Use]_gvars

Regions(c, r) ==
  [i \in 1..c.fo |->
    SelectSeq([s \in 1..Items(c) |-> IF RegionOfSlot(c, sizes, s) = i THEN dealt[(r - 1) * Items(c) + s] ELSE 0],
              LAMBDA it : it \in 1..c.F)]
Assigned(c, r) == [f \in 1..c.F |-> CHOOSE i \in 1..c.fo : \E j \in DOMAIN Regions(c, r)[i] : Regions(c, r)[i][j] = f]
Finished == Len(dealt) = Total(GenCases[case])
GoodWiring ==
  Finished => LET c == GenCases[case]
              IN /\ \A r \in 1..c.R : PartitionOf(c.F, Regions(c, r)) /\ BalancedIn(c, Regions(c, r))
                 /\ Chance(c, [r \in 1..c.R |-> Assigned(c, r)]) > 0
Frozen == [][Finished => UNCHANGED <<sizes, dealt>>]_gvars
=============================================================================
