------------------------------ MODULE Training -------------------------------
(* Training a circuit: what the generative and discriminative steps compute,   *)
(* the learning rate schedule, and generated samples.  Event kinds:            *)
(*  gen    a generative step: rows of the batch, value, what was logged        *)
(*  disc   a discriminative step: rows, labels, loss and number of hits        *)
(*  post1  log_likelihoods of rows under the uniform class prior or targets    *)
(*  test   a test run of the script: rows, labels, average loss, accuracy       *)
(*  lr     learning rates of all epochs                                        *)
(*  modes  generated samples: modes of the leaves of one path                  *)
(*  run    a training run: one event per step, as a state machine              *)
(*  flags  named observations that must all hold                               *)
EXTENDS LogCircuit, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Models == Data.models
Events == Data.events

VARIABLES i, verdict
vars == <<i, verdict>>

SumN(f(_), n) == Total(f, n)
MaxTol(f(_), n) == FoldLeft(LAMBDA a, k : MaxI(a, Tol(f(k))), 0, [k \in 1..n |-> k])

(* ---- the objectives ------------------------------------------------------------ *)
LL(m, x) == LogDens(m, LogTables(m, x))
\* negative log-likelihood of a batch, in 1/1000 nat; mean unless red = "sum"
Nll(m, xs, red) ==
  LET d == TLCEval([k \in DOMAIN xs |-> LL(m, xs[k])[1]])
      s == -SumN(LAMBDA k : d[k], Len(xs))
  IN [v |-> IF red = "sum" THEN s ELSE s \div Len(xs),
      tol |-> MaxTol(LAMBDA k : d[k], Len(xs)) * (IF red = "sum" THEN Len(xs) ELSE 1) + 2]
\* log class posteriors of a row under the uniform prior
Post(m, x) == LET d == LL(m, x) t == Lse(LAMBDA c : d[c], m.C) IN [c \in 1..m.C |-> d[c] - t]
Xent(m, xs, ys) ==
  LET p == TLCEval([k \in DOMAIN xs |-> Post(m, xs[k])])
      big == TLCEval([k \in DOMAIN xs |-> LL(m, xs[k])[1]])
      hit(k, slack) == \A c \in 1..m.C : p[k][ys[k]] + slack >= p[k][c]
      lone(k, slack) == \A c \in 1..m.C : c # ys[k] => p[k][ys[k]] > p[k][c] + slack
      tol(k) == 2 * Tol(big[k])
  IN [v |-> -SumN(LAMBDA k : p[k][ys[k]], Len(xs)) \div Len(xs),
      tol |-> 2 * MaxTol(LAMBDA k : big[k], Len(xs)) + 2,
      \* near ties may be decided either way
      most |-> Cardinality({k \in DOMAIN xs : hit(k, tol(k))}),
      least |-> Cardinality({k \in DOMAIN xs : lone(k, tol(k))})]

SetName(n) == CASE n = 0 -> "train" [] n = 1 -> "val" [] n = 2 -> "test"
GenName(e) == CASE e.step = "train" -> "Train/loss" [] e.step = "val" -> "Val/loss"
                [] e.step = "test" -> "Test/" \o SetName(e.set) \o "_nll"
Gen_(e) ==
  LET q == Nll(Models[e.m], e.xs, e.red)
      near(v) == AbsI(v - q.v) <= q.tol
  IN [exp |-> q.v,
      ok |-> /\ e.step # "test" => near(e.obs)
             /\ e.step = "direct" \/ (Len(e.log) = 1 /\ e.log[1].name = GenName(e) /\ near(e.log[1].v))]
DiscLoss(e) == CASE e.step = "train" -> "Train/loss" [] e.step = "val" -> "Val/loss" [] OTHER -> ""
DiscAcc(e) == CASE e.step = "train" -> "Train/accuracy" [] e.step = "val" -> "Val/accuracy"
                [] e.step = "test" -> "Test/" \o SetName(e.set) \o "_accuracy"
Disc_(e) ==
  LET q == Xent(Models[e.m], e.xs, e.ys)
      near(v) == AbsI(v - q.v) <= q.tol
      n == Len(e.xs)
      \* accuracies are logged in 1/1000
      acc(v) == \E h \in q.least..q.most : AbsI(v * n - 1000 * h) <= n
  IN [exp |-> q,
      ok |-> /\ e.step # "test" => near(e.obs)
             /\ \A k \in DOMAIN e.log :
                  \/ e.log[k].name = DiscLoss(e) /\ near(e.log[k].v)
                  \/ e.log[k].name = DiscAcc(e) /\ acc(e.log[k].v)
             /\ {e.log[k].name : k \in DOMAIN e.log} = {DiscAcc(e)} \cup (IF e.step = "test" THEN {} ELSE {DiscLoss(e)})]
Mix_(e) ==
  LET m == Models[e.m]
      d(k) == LL(m, e.xs[k])
      want(k) == IF e.ys # <<>> THEN d(k)[e.ys[k]]
                 ELSE LET dk == d(k) IN Lse(LAMBDA c : dk[c], m.C) - Lse(LAMBDA c : 0, m.C)
  IN [exp |-> [k \in DOMAIN e.xs |-> want(k)],
      ok |-> \A k \in DOMAIN e.xs : AbsI(e.obs[k] - want(k)) <= Tol(want(k)) + 2]

\* average loss of the script's test run under the uniform class mixture (the printed value has four digits) and
\* the accuracy in 1/100 percent, -1 if none is printed
Test_(e) ==
  LET m == Models[e.m]
      n == Len(e.xs)
      d == TLCEval([k \in DOMAIN e.xs |-> LET dk == LL(m, e.xs[k]) IN Lse(LAMBDA c : dk[c], m.C) - Lse(LAMBDA c : 0, m.C)])
      v == -SumN(LAMBDA k : d[k], n) \div n
      q == Xent(m, e.xs, e.ys)
  IN [exp |-> [loss |-> v, hits |-> <<q.least, q.most>>],
      ok |-> /\ AbsI(e.obs - v) <= MaxTol(LAMBDA k : d[k], n) + 2
             /\ IF e.acc = -1 THEN m.C = 1
                ELSE \E h \in q.least..q.most : AbsI(e.acc * n - 10000 * h) <= n]

(* ---- the schedule: tenfold smaller at 70% and at 90% of the epochs ------------- *)
Milestones(n) == <<(7 * n) \div 10, (9 * n) \div 10>>
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Lr(n, ep) == 100000 \div Pow10(Cardinality({k \in 1..2 : Milestones(n)[k] <= ep}))
\* observed: learning rate of epochs 0, 1, ... relative to the configured one, in 1/100000
Lr_(e) ==
  LET bad == {k \in DOMAIN e.obs : AbsI(e.obs[k] - Lr(e.epochs, k - 1)) > 2}
  IN [exp |-> bad, ok |-> Len(e.obs) = e.epochs /\ bad = {}]

(* ---- a run: every step sees the next batch, its loss is the objective at the -------- *)
(* current parameters, and the parameters move against the gradient                       *)
RunState0 == [epoch |-> 0, step |-> 0, ver |-> 0]
RunStep(st, e, s) ==
  LET last == st.step + 1 = s.of
  IN [ok |-> /\ s.epoch = st.epoch /\ s.batch = st.step      \* batches of an epoch in order, none left out
             /\ s.before = st.ver                            \* nothing but steps changes parameters
             /\ AbsI(s.loss - s.ref) <= Tol(s.ref) + 2
             /\ s.fresh /\ s.against,
      st |-> [epoch |-> IF last THEN st.epoch + 1 ELSE st.epoch, step |-> IF last THEN 0 ELSE st.step + 1, ver |-> st.ver + 1]]
RECURSIVE RunFrom(_, _, _)
RunFrom(st, e, k) ==
  IF k > Len(e.steps) THEN [bad |-> IF st.epoch = e.epochs /\ st.step = 0 THEN 0 ELSE k]
  ELSE LET n == RunStep(st, e, e.steps[k]) IN IF n.ok THEN RunFrom(n.st, e, k + 1) ELSE [bad |-> k]
Run_(e) == LET r == RunFrom(RunState0, e, 1) IN [exp |-> [failing_step |-> r.bad], ok |-> r.bad = 0]

Modes_(e) ==
  [exp |-> "modes of the leaves of one path", ok |-> MayReachModes(Models[e.m], e.x, e.obs, 0, 18000)]
Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE}
  IN [exp |-> bad, ok |-> bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "gen" -> Gen_(e) [] e.k = "disc" -> Disc_(e) [] e.k = "post1" -> Mix_(e) [] e.k = "test" -> Test_(e) [] e.k = "lr" -> Lr_(e)
         [] e.k = "modes" -> Modes_(e) [] e.k = "run" -> Run_(e) [] e.k = "flags" -> Flags_(e)

Init == i \in 1..Len(Events) /\ verdict = "todo"
Next ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
=============================================================================
