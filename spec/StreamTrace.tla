---------------------------- MODULE StreamTrace ------------------------------
(* Conformance of recorded index streams.  Event kinds:                        *)
(*  stream  the first indices of a stream                                      *)
(*  hist    a history of operations on several samplers, with what was read    *)
(*  perms   first blocks of many seeds: every permutation equally often        *)
(*  epoch   batches of one epoch of a finite loader over n examples            *)
(*  loop    batches of an endless loader                                       *)
(*  flags   named observations that must all hold                              *)
EXTENDS Stream, Arith

Events == Data.events
VARIABLES i, verdict
tvars == <<gvars, i, verdict>>

Stream_(e) ==
  [exp |-> "blocks are permutations",
   ok |-> Covers(e.obs, e.n) /\ (e.shuffle \/ Identity(e.obs, e.n))]
\* e.samplers[s] = [n, shuffle, seed]; e.ops as in Stream with v = value read
RECURSIVE Replay(_, _, _, _)
Replay(e, k, its, outs) ==
  IF k > Len(e.ops) THEN [its |-> its, outs |-> outs]
  ELSE LET o == e.ops[k]
       IN CASE o.k = "open" -> Replay(e, k + 1, Append(its, o.a), Append(outs, <<>>))
            [] o.k = "read" -> Replay(e, k + 1, its, [outs EXCEPT ![o.a] = Append(@, o.v)])
            [] OTHER -> Replay(e, k + 1, its, outs)
Hist_(e) ==
  LET r == Replay(e, 1, <<>>, <<>>)
      same(a, b) == e.samplers[r.its[a]] = e.samplers[r.its[b]]
      bad == {j \in DOMAIN r.its : ~Covers(r.outs[j], e.samplers[r.its[j]].n)
                                   \/ (~e.samplers[r.its[j]].shuffle /\ ~Identity(r.outs[j], e.samplers[r.its[j]].n))}
             \cup {j \in DOMAIN r.its : \E b \in DOMAIN r.its : same(j, b) /\
                     \E k \in DOMAIN r.outs[j] : k \in DOMAIN r.outs[b] /\ r.outs[j][k] # r.outs[b][k]}
  IN [exp |-> bad, ok |-> bad = {}]
RECURSIVE Fac(_)
Fac(n) == IF n <= 1 THEN 1 ELSE n * Fac(n - 1)
Perms_(e) ==
  LET bad == {k \in DOMAIN e.obs : ~FreqOK(e.obs[k].c, e.N \div Fac(e.n), Covers(e.obs[k].p, e.n))}
  IN [exp |-> bad, ok |-> bad = {} /\ Len(e.obs) = Fac(e.n) /\ SumSeq([k \in DOMAIN e.obs |-> e.obs[k].c]) = e.N]
Cat(bs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, bs)
\* every batch is full but the last
Sizes(bs, n, size) ==
  \A k \in DOMAIN bs : Len(bs[k]) = IF k * size <= n THEN size ELSE n - (k - 1) * size
Epoch_(e) ==
  LET s == TLCEval(Cat(e.obs))
  IN [exp |-> "every example once",
      ok |-> /\ Len(s) = e.n /\ Covers(s, e.n) /\ Sizes(e.obs, e.n, e.size)
             /\ Len(e.obs) = (e.n + e.size - 1) \div e.size
             /\ e.shuffle \/ Identity(s, e.n)]
Loop_(e) == LET s == TLCEval(Cat(e.obs))
            IN [exp |-> "an endless stream of epochs",
                ok |-> Covers(s, e.n) /\ \A k \in DOMAIN e.obs : Len(e.obs[k]) = e.size]
Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE}
  IN [exp |-> bad, ok |-> bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "stream" -> Stream_(e) [] e.k = "hist" -> Hist_(e) [] e.k = "perms" -> Perms_(e)
         [] e.k = "epoch" -> Epoch_(e) [] e.k = "loop" -> Loop_(e) [] e.k = "flags" -> Flags_(e)

TInit == i \in 1..Len(Events) /\ verdict = "todo" /\ content = <<>> /\ iters = <<>> /\ h = <<>> /\ out = <<>>
TNext ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED <<gvars, i>>
TSpec == TInit /\ [][TNext]_tvars
Conforms == verdict # "bad"
=============================================================================
