----------------------------- MODULE MultiScopes -----------------------------
(* Scope lists of a multi-distribution leaf.  A list of feature lists is      *)
(* valid if it covers each feature 0..F-1 exactly once; the j-th feature of   *)
(* the p-th list is then modelled by variable j of distribution p.            *)
(* Generation: lists grow element by element.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
F == Data.F
MaxElems == Data.elems
MaxLists == Data.lists
Events == Data.events

Pos(s) == {<<p, j>> \in (1..Len(s)) \X (1..10) : j <= Len(s[p])}
Valid(s, n) ==
  /\ \A q \in Pos(s) : s[q[1]][q[2]] \in 0..(n - 1)
  /\ \A f \in 0..(n - 1) : Cardinality({q \in Pos(s) : s[q[1]][q[2]] = f}) = 1
Owner(s, f) == CHOOSE q \in Pos(s) : s[q[1]][q[2]] = f

VARIABLE s
Size == Cardinality(Pos(s))
Init == s = <<>>
Next == /\ Size < MaxElems
        /\ \E v \in -1..F :
             \/ Len(s) > 0 /\ s' = [s EXCEPT ![Len(s)] = Append(@, v)]
             \/ Len(s) < MaxLists /\ s' = Append(s, <<v>>)
Spec == Init /\ [][Next]_s

\* laws: a valid list has exactly F elements, and appending to one makes it invalid
Exact == Valid(s, F) => Size = F
Tight == [][Valid(s, F) => ~Valid(s', F)]_s
Emit == Len(s) > 0 => PrintT("EMIT " \o ToJson(s))
=============================================================================
