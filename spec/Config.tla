------------------------------- MODULE Config -------------------------------
(* Which configurations denote a model, and what its layers look like.        *)
(* A configuration is a record of typed fields: counts are [t, v] with t the  *)
(* type of the value (int, npint, float, none, str), dropout is in 1/1000.    *)
(* The behaviours walk over the lattice of configurations: from a valid base  *)
(* configuration, one field is changed per step.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Bases == Data.bases          \* start configurations
Steps == Data.steps          \* number of fields that are changed
Doms == Data.doms            \* candidate values of every field

Count(x, lo) == x.t \in {"int", "npint", "npint32", "tint"} /\ x.v >= lo
LeafTypes == {"normal", "ratnormal", "bernoulli", "binomial", "categorical", "mvn", "multi"}
Layers == {"linsum", "linsum2", "einsum"}
Structures == {"top-down", "bottom-up"}
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)

\* number of variables of the leaf layer: groups of `card` features
Groups(c) == CeilDiv(c.nf.v, c.card)
\* groups that are completely filled decide how deep the circuit may be
FullGroups(c) == c.nf.v \div c.card

Valid(c) ==
  /\ Count(c.nf, 2) /\ Count(c.ch, 1) /\ Count(c.s, 1) /\ Count(c.k, 1) /\ Count(c.r, 1) /\ Count(c.c, 1)
  /\ Count(c.d, 0)
  /\ c.p.t \in {"float", "npfloat", "npfloat64", "tfloat"} /\ c.p.v >= 0 /\ c.p.v < 1000
  /\ c.leaf \in LeafTypes /\ c.layer \in Layers /\ c.struct \in Structures
  /\ c.d.v < 20 /\ TwoTo(c.d.v) <= FullGroups(c)
  /\ c.struct = "bottom-up" => c.layer = "linsum" /\ c.card = 1

(* ---- the layers of a valid configuration, bottom to top ------------------------- *)
Lay(t, fi, fo, si, so) == [t |-> t, fi |-> fi, fo |-> fo, si |-> si, so |-> so]
RECURSIVE BottomUp(_, _, _, _)
BottomUp(c, j, fi, si) ==
  IF j = c.d.v THEN <<Lay("sum", fi, fi, si, c.c.v), Lay("prod", fi, 1, c.c.v, c.c.v)>>
  ELSE <<Lay("linsum", fi, CeilDiv(fi, 2), si, c.s.v)>> \o BottomUp(c, j + 1, CeilDiv(fi, 2), c.s.v)
Plan(c) ==
  IF c.struct = "bottom-up" THEN BottomUp(c, 0, c.nf.v, c.k.v)
  ELSE IF c.d.v = 0 THEN <<Lay("sum", 1, 1, c.k.v, c.c.v)>>
  ELSE [j \in 1..c.d.v |-> LET i == c.d.v + 1 - j       \* level below the root
                           IN Lay(c.layer, TwoTo(i), TwoTo(i - 1), IF i = c.d.v THEN c.k.v ELSE c.s.v,
                                  IF i = 1 THEN c.c.v ELSE c.s.v)]
LeafRegions(c) == IF c.struct = "bottom-up" THEN c.nf.v ELSE TwoTo(c.d.v)
HasMixing(c) == c.r.v > 1

(* ---- laws of the construction ---------------------------------------------------- *)
Chained(c) ==
  LET P == Plan(c)
  IN /\ P[1].fi = LeafRegions(c) /\ P[1].si = c.k.v
     /\ P[Len(P)].fo = 1 /\ P[Len(P)].so = c.c.v
     /\ \A j \in 1..(Len(P) - 1) : P[j].fo = P[j + 1].fi /\ P[j].so = P[j + 1].si
     /\ \A j \in 1..Len(P) : P[j].fi >= P[j].fo /\ P[j].fo >= 1

VARIABLES c, n, changed
vars == <<c, n, changed>>
Init == c \in {Bases[j] : j \in 1..Len(Bases)} /\ n = 0 /\ changed = {}
Next == /\ n < Steps
        /\ \E f \in DOMAIN Doms \ changed : \E j \in 1..Len(Doms[f]) :
             /\ Doms[f][j] # c[f]
             /\ c' = [c EXCEPT ![f] = Doms[f][j]]
             /\ changed' = changed \cup {f}
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
View == c

LayersFit == Valid(c) => Chained(c)
\* every leaf region gets at least one group of features
Inhabited == Valid(c) => LeafRegions(c) <= Groups(c)
Emit == PrintT("EMIT " \o ToJson(c))
=============================================================================
