------------------------------- MODULE Splits --------------------------------
(* How a data set becomes training, validation and test data.  The source     *)
(* offers rows in groups: "train" rows, and possibly "valid", "test" and      *)
(* "extra" rows.  Every row is dealt to exactly one split:                    *)
(*  pool   one group; a tenth becomes test data, a tenth of the rest          *)
(*         validation data, each class in proportion                          *)
(*  carve  training and test rows are given, a tenth of the training rows     *)
(*         becomes validation data; extra rows are training data              *)
(*  given  all three are given                                                *)
(* The machine deals the rows of a small source in every possible way; the    *)
(* laws that recorded splits are judged by hold in all its final states.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Gen == Data.gen

VARIABLES case, out
gvars == <<case, out>>

Names == {"train", "val", "test"}
Rows(o, s) == {o[s][j] : j \in DOMAIN o[s]}
Dealt(o) == UNION {Rows(o, s) : s \in Names}
\* a tenth of n, up to one row
Tenth(k, n) == 10 * k >= n - 10 /\ 10 * k <= n + 10
Count(S, src, y) == Cardinality({id \in S : src[id].y = y})

\* where a row of a group may go
May(kind, g) ==
  CASE kind = "pool" -> Names
    [] g = "train" -> IF kind = "carve" THEN {"train", "val"} ELSE {"train"}
    [] g = "valid" -> {"val"}
    [] g = "test" -> {"test"}
    [] g = "extra" -> {"train"}
Groups(kind, src, o) ==
  \A s \in Names : \A id \in Rows(o, s) : s \in May(kind, src[id].g)
Once(o) == \A s \in Names : Cardinality(Rows(o, s)) = Len(o[s])
           /\ \A t \in Names : s = t \/ Rows(o, s) \cap Rows(o, t) = {}
All(src, o) == Dealt(o) = DOMAIN src
Sizes(kind, src, o) ==
  LET n == Len(src)
      nt == Cardinality({id \in DOMAIN src : src[id].g = "train"})
  IN CASE kind = "pool" -> Tenth(Len(o.test), n) /\ Tenth(Len(o.val), n - Len(o.test))
       [] kind = "carve" -> Tenth(Len(o.val), nt)
       [] OTHER -> TRUE
\* every class has its share of the held-out rows
Strata(kind, src, o) ==
  kind = "pool" =>
    LET ys == {src[id].y : id \in DOMAIN src}
    IN \A y \in ys : LET c == Count(DOMAIN src, src, y)
                         t == Count(Rows(o, "test"), src, y)
                         v == Count(Rows(o, "val"), src, y)
                     IN 10 * t >= c - 20 /\ 10 * t <= c + 20 /\ 10 * v >= c - t - 20 /\ 10 * v <= c - t + 20
\* no split is empty
Filled(src, o) == \A s \in Names : Len(o[s]) > 0

GInit == case \in 1..Len(Gen) /\ out = [train |-> <<>>, val |-> <<>>, test |-> <<>>]
Deal(id, s) == out' = [out EXCEPT ![s] = Append(@, id)] /\ UNCHANGED case
G == Gen[case]
\* rows are dealt in their order; a split never exceeds its share
GNext ==
  LET id == Cardinality(Dealt(out)) + 1
  IN id \in DOMAIN G.src /\ \E s \in May(G.kind, G.src[id].g) : Deal(id, s)
GSpec == GInit /\ [][GNext]_gvars

Running == Once(out) /\ Groups(G.kind, G.src, out)
\* dealing ends with every row in one split
Ends == ~ENABLED GNext => All(G.src, out)
\* the shares can be met, and only by splits that hold rows back
SharesHold == All(G.src, out) /\ Sizes(G.kind, G.src, out) /\ G.kind # "given"
              => Len(out.train) >= Len(out.val)
=============================================================================
