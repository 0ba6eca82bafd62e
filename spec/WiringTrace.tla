---------------------------- MODULE WiringTrace ------------------------------
(* Conformance of recorded wirings with Wiring.  Event kinds:                 *)
(*  wire   a built model: recorded and probed regions, permutations with      *)
(*         their inverses                                                     *)
(*  joint  how often each assignment occurred in N constructions              *)
(*  many   the regions of many repetitions of one model with so many wirings   *)
(*         that chance cannot repeat one                                       *)
(*  life   wirings recorded before and after each step of a history           *)
EXTENDS Wiring

Events == Data.events
VARIABLES i, verdict
tvars == <<gvars, i, verdict>>

SameRegions(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A k \in DOMAIN a : ToSet(a[k]) = ToSet(b[k])
Wire_(e) ==
  LET c == e.case
      why == {w \in {"partition", "balance", "probe", "inverse", "repetitions"} :
                CASE w = "partition" -> \E r \in DOMAIN e.reg : ~PartitionOf(c.F, e.reg[r])
                  [] w = "balance" -> \E r \in DOMAIN e.reg : ~BalancedIn(c, e.reg[r])
                  [] w = "probe" -> Len(e.probe) # Len(e.reg) \/ \E r \in DOMAIN e.reg : ~SameRegions(e.reg[r], e.probe[r])
                  [] w = "inverse" -> \E k \in DOMAIN e.perms : ~InverseOf(e.perms[k][1], e.perms[k][2])
                  [] w = "repetitions" -> Len(e.reg) # c.R}
  IN [exp |-> why, ok |-> why = {}]
\* every assignment, seen or not, and every pair of memberships (feature f in region i of repetition r)
\* must occur as often as the construction says
Joint_(e) ==
  LET c == e.case
      all == SetToSeq([1..c.R -> [1..c.F -> 1..c.fo]])
      ch == TLCEval([k \in DOMAIN all |-> Chance(c, all[k])])
      cnt(a) == FoldLeft(LAMBDA t, o : IF o.a = a THEN t + o.n ELSE t, 0, e.obs)
      lam(m) == MulDiv(e.N, m, ChanceDen(c))
      seen == SumSeq([k \in DOMAIN e.obs |-> e.obs[k].n])
      rare == {k \in DOMAIN e.obs : Chance(c, e.obs[k].a) = 0}
      off == {k \in DOMAIN all : ch[k] > 0 /\ ~FreqOK(cnt(all[k]), lam(ch[k]), TRUE)}
      atoms == {<<r, f, j>> : r \in 1..c.R, f \in 1..c.F, j \in 1..c.fo}
      In(a, t) == a[t[1]][t[2]] = t[3]
      mass(t, u) == FoldLeft(LAMBDA z, k : IF ch[k] > 0 /\ In(all[k], t) /\ In(all[k], u) THEN z + ch[k] ELSE z, 0,
                             [k \in DOMAIN all |-> k])
      hits(t, u) == FoldLeft(LAMBDA z, o : IF In(o.a, t) /\ In(o.a, u) THEN z + o.n ELSE z, 0, e.obs)
      pairs == {<<t, u>> \in atoms \X atoms : t[1] < u[1] \/ (t[1] = u[1] /\ t[2] <= u[2])}
      skew == {p \in pairs : LET w == mass(p[1], p[2]) IN ~FreqOK(hits(p[1], p[2]), lam(w), w > 0)}
  IN [exp |-> [impossible |-> {e.obs[k] : k \in rare}, off |-> {<<all[k], cnt(all[k]), lam(ch[k])>> : k \in off}, pairs |-> skew],
      ok |-> seen = e.N /\ rare = {} /\ off = {} /\ skew = {}]
Life_(e) ==
  LET bad == {k \in 2..Len(e.obs) : \E r \in DOMAIN e.obs[1].reg : e.obs[k].reg[r] # e.obs[1].reg[r]}
  IN [exp |-> {e.obs[k].op : k \in bad}, ok |-> bad = {}]
Many_(e) ==
  LET sets == TLCEval([r \in DOMAIN e.reg |-> [k \in DOMAIN e.reg[r] |-> ToSet(e.reg[r][k])]])
      same == {<<a, b>> \in (DOMAIN sets) \X (DOMAIN sets) : a < b /\ sets[a] = sets[b]}
  IN [exp |-> same, ok |-> same = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "wire" -> Wire_(e) [] e.k = "joint" -> Joint_(e) [] e.k = "many" -> Many_(e) [] e.k = "life" -> Life_(e)

TInit == i \in 1..Len(Events) /\ verdict = "todo" /\ case = 1 /\ sizes = <<>> /\ dealt = <<>> /\ used = 0
TNext ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED <<gvars, i>>
TSpec == TInit /\ [][TNext]_tvars
Conforms == verdict # "bad"
=============================================================================
