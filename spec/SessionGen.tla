---------------------------- MODULE SessionGen -----------------------------
(* Enumerates histories over an alphabet of operations, and checks laws that  *)
(* the lifecycle of Session obeys in every history.                           *)
EXTENDS Session, Json, IOUtils, FiniteSets

Data == JsonDeserialize(IOEnv.DATA)
Ops == Data.ops
MaxLen == Data.len
NCache == Data.ncache
\* operations after which a history may end (those with an observable result)
Observes(op) == op.k \in {"fwd", "post", "mpe", "smp", "grad", "fail"}

VARIABLES st, h, seen
\* seen: what each term evaluated so far was evaluated from: [term, leaf, sum]
vars == <<st, h, seen>>

Init == st = Fresh(0, 0, NCache) /\ h = <<>> /\ seen = {}

Next ==
  /\ Len(h) < MaxLen
  /\ \E j \in 1..Len(Ops) :
       /\ Len(h) = MaxLen - 1 => Observes(Ops[j])
       /\ Len(h) > 0 => h[Len(h)] # j \/ Observes(Ops[j])   \* repeating an assignment is pointless
       /\ h' = Append(h, j)
       /\ st' = After(st, Ops[j])
       /\ seen' = {[op |-> j, leaf |-> st.leaf, sum |-> st.sum, train |-> st.train, t |-> Terms(st, Ops[j], FALSE, 0)]}
Spec == Init /\ [][Next]_vars

\* --- laws of the specification
\* cached entries are overwritten only by reset or copy
CacheSticky == [][\A c \in 1..NCache :
                    (st.cache[c] # NoCache /\ st'.cache[c] # st.cache[c]) => st'.cache[c] = NoCache]_vars
\* calls without an index leave every entry alone, indices are independent
CacheIndependent ==
  [][\A c \in 1..NCache :
       LET op == Ops[h'[Len(h')]]
       IN (op.k \notin {"reset", "copy", "fresh"} /\ ~(op.k = "fwd" /\ op.ci = c)) => st'.cache[c] = st.cache[c]]_vars
\* an uncached deterministic result depends on nothing but versions and arguments
Functional ==
  \A r \in seen :
    LET op == Ops[r.op]
    IN (op.k \in {"fwd", "post", "mpe", "grad"} /\ ~(op.k = "fwd" /\ op.ci # 0))
         => r.t = Terms([Fresh(r.leaf, r.sum, NCache) EXCEPT !.train = r.train], op, FALSE, 0)
\* a cache hit with the same input and leaf parameters agrees with the uncached call
Transparent ==
  \A r \in seen :
    LET op == Ops[r.op]
    IN (op.k = "fwd" /\ op.ci # 0) =>
         \/ r.t = Terms(Fresh(r.leaf, r.sum, NCache), op, FALSE, 0)
         \/ \E c \in {op.ci} : st.cache[c] # Entry([st EXCEPT !.leaf = r.leaf], op)
\* sum weights are always current
SumsCurrent == \A r \in seen : Ops[r.op].k = "fwd" => \A j \in 1..Len(r.t) : r.t[j][3] = r.sum

Emit == Len(h) = MaxLen => PrintT("EMIT " \o ToJson(h))
=============================================================================
