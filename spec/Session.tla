------------------------------ MODULE Session ------------------------------
(* The life of a model as its user sees it: parameters, train/eval mode, the  *)
(* leaf cache, copies, the global random state, and calls -- some of which    *)
(* fail.  The specification says which *facts* the result of a call may       *)
(* depend on: every call yields symbolic terms, and two calls with the same   *)
(* term must give the same result, on whatever object and after whatever      *)
(* history.                                                                   *)
(*                                                                            *)
(* An object is [leaf, sum: versions of the leaf and the other parameters,    *)
(*               train: BOOLEAN, slot: the versions in the last checkpoint,   *)
(*               cache: sequence of entries].                                 *)
(* A cache entry is <<>> (empty) or <<leaf version, rows, scopes>>, a record  *)
(* of what was evaluated when the index was first used.                       *)
(*                                                                            *)
(* Operations (records; field k):                                             *)
(*   fwd   rows, mg, ci   likelihoods of the listed rows; mg identifies the   *)
(*                        marginalized scopes, ci the cache index (0: none)   *)
(*   post  rows           class posterior                                     *)
(*   mpe   rows, mg, v    deterministic completion, variant v                 *)
(*   smp   a, seed, ev    a sampling call with argument list a                *)
(*   grad  rows           gradients of the likelihood                         *)
(*   fail  a, seed        a call that raises                                  *)
(*   leaf/sum v           assign the parameters' version v                    *)
(*   reset                reset_cache()                                       *)
(*   train/eval           change mode                                         *)
(*   rng   v              the user reseeds the global generator               *)
(*   copy  via            continue with a copy of the object: deepcopy,       *)
(*                        pickle, or a fresh object loading the state_dict    *)
(*   ckpt / back          take a checkpoint (state_dict) / load it again      *)
(*   fresh leaf, sum      a newly built object with these parameters          *)
EXTENDS Integers, Sequences, TLC

NoCache == <<>>
Fresh(l, s, n) == [leaf |-> l, sum |-> s, train |-> FALSE, slot |-> <<l, s>>, cache |-> [k \in 1..n |-> NoCache]]

Entry(st, op) == <<st.leaf, op.rows, op.mg>>
\* what a forward call evaluates its leaves on
Used(st, op) ==
  IF op.ci = 0 \/ st.cache[op.ci] = NoCache THEN Entry(st, op) ELSE st.cache[op.ci]

\* The state after the operation.  A call that fails changes nothing.
After(st, op) ==
  CASE op.k = "fwd" -> IF op.ci = 0 THEN st ELSE [st EXCEPT !.cache[op.ci] = Used(st, op)]
    [] op.k = "leaf" -> [st EXCEPT !.leaf = op.v]
    [] op.k = "sum" -> [st EXCEPT !.sum = op.v]
    [] op.k = "reset" -> [st EXCEPT !.cache = [k \in DOMAIN st.cache |-> NoCache]]
    [] op.k = "train" -> [st EXCEPT !.train = TRUE]
    [] op.k = "eval" -> [st EXCEPT !.train = FALSE]
    [] op.k = "copy" -> [st EXCEPT !.cache = [k \in DOMAIN st.cache |-> NoCache],
                                   !.train = IF op.via = "load" THEN FALSE ELSE st.train]
    [] op.k = "ckpt" -> [st EXCEPT !.slot = <<st.leaf, st.sum>>]
    [] op.k = "back" -> [st EXCEPT !.leaf = st.slot[1], !.sum = st.slot[2]]
    [] op.k = "fresh" -> Fresh(op.leaf, op.sum, Len(st.cache))
    [] OTHER -> st

\* Does the operation draw from the global generator?  (drop: the model has dropout)
Stochastic(st, op, drop) ==
  \/ op.k = "smp" /\ op.seed = 0
  \/ drop /\ st.train /\ (op.k \in {"fwd", "post", "grad", "mpe"} \/ (op.k = "smp" /\ op.seed = 0))
Seeded(op) == op.k \in {"smp", "fail"} /\ op.seed # 0
\* mode matters only with dropout
Mode(st, drop) == drop /\ st.train

\* The terms of the results, one per recorded result; rng is the state of the global
\* generator before the call.
RowTerm(k, l, s, row, mg, v) == <<k, l, s, row, mg, v>>
Terms(st, op, drop, rng) ==
  IF Stochastic(st, op, drop)
  THEN \* everything the call was given, and the generator
       <<<<"all", op.k, st.leaf, st.sum, Mode(st, drop), op.args, rng>>>>
  ELSE CASE op.k = "fwd" ->
              LET u == Used(st, op)
              IN [j \in 1..Len(u[2]) |-> RowTerm("fwd", u[1], st.sum, u[2][j], u[3], 0)]
         [] op.k = "post" -> [j \in 1..Len(op.rows) |-> RowTerm("post", st.leaf, st.sum, op.rows[j], 0, 0)]
         [] op.k = "mpe" -> [j \in 1..Len(op.rows) |-> RowTerm("mpe", st.leaf, st.sum, op.rows[j], op.mg, op.v)]
         [] op.k = "grad" -> <<<<"grad", st.leaf, st.sum, op.args>>>>
         [] op.k = "smp" -> <<<<"smp", st.leaf, st.sum, Mode(st, drop), op.args, op.seed>>>>
         [] OTHER -> <<>>

----------------------------------------------------------------------------
(* Generation of histories: all sequences of operations of an alphabet up to *)
(* a length; the histories are replayed on real objects.                     *)
=============================================================================
