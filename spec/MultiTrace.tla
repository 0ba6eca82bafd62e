----------------------------- MODULE MultiTrace ------------------------------
(* What the implementation did with scope lists (see MultiScopes).            *)
EXTENDS MultiScopes

VARIABLES i, verdict
Judge(e) ==
  IF ~Valid(e.s, e.F) THEN ~e.accepted
  ELSE /\ e.accepted /\ e.err = ""
       \* which variable the implementation used for every feature, call by call
       /\ \A c \in 1..Len(e.calls) : \A f \in 1..e.F : e.calls[c].owner[f] = Owner(e.s, f - 1)
TInit == i \in 1..Len(Events) /\ verdict = "todo" /\ s = <<>>
TNext ==
  /\ verdict = "todo"
  /\ LET ok == Judge(Events[i])
     IN \/ ok /\ verdict' = "ok"
        \/ ~ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> Valid(Events[i].s, Events[i].F)]))
  /\ UNCHANGED <<i, s>>
TSpec == TInit /\ [][TNext]_<<i, verdict, s>>
Conforms == verdict # "bad"
=============================================================================
