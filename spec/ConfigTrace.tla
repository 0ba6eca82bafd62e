----------------------------- MODULE ConfigTrace -----------------------------
(* What the implementation did with a configuration: accepted or rejected,    *)
(* the layers it built, and the shapes of the results of its calls.           *)
EXTENDS Config

Events == Data.events
VARIABLES i, verdict
tvars == <<i, verdict, c, n, changed>>

LayersOK(e) ==
  LET P == Plan(e.c)
  IN /\ Len(e.layers) = Len(P)
     /\ \A j \in 1..Len(P) : e.layers[j] = P[j]
     /\ e.mixing = HasMixing(e.c)
     /\ e.regions = LeafRegions(e.c)
\* what every call should return, by its name
Shape(e, what) ==
  LET C == e.c.c.v
      D == e.c.nf.v
      H == e.c.ch.v
  IN CASE what = "forward" -> <<e.n, C>>
       [] what = "forward one row" -> <<1, C>>
       [] what = "sample" -> <<e.n, H, D>>
       [] what = "default sample" -> <<1, H, D>>
       [] what = "class sample" -> <<e.n, H, D>>
       [] what = "conditional" -> <<e.n, H, D>>
       [] what = "differentiable" -> <<e.n, H, D>>
       [] what = "mpe" -> <<e.n, H, D>>
       [] what = "default mpe" -> <<1, H, D>>
       [] what = "posterior" -> <<e.n, C>>
BadShapes(e) == {q \in 1..Len(e.shapes) : e.shapes[q].shape # Shape(e, e.shapes[q].what)}

Judge(e) ==
  IF ~Valid(e.c) THEN [ok |-> ~e.accepted, exp |-> "rejected"]
  ELSE IF ~e.accepted THEN [ok |-> FALSE, exp |-> "accepted"]
  ELSE LET b == BadShapes(e)
       IN [ok |-> LayersOK(e) /\ b = {} /\ e.finite,
           exp |-> [plan |-> Plan(e.c), calls |-> {e.shapes[q] : q \in b}]]

TInit == i \in 1..Len(Events) /\ verdict = "todo" /\ c = 0 /\ n = 0 /\ changed = 0
TNext ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED <<i, c, n, changed>>
TSpec == TInit /\ [][TNext]_tvars
Conforms == verdict # "bad"
=============================================================================
