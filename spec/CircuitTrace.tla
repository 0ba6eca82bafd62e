---------------------------- MODULE CircuitTrace ----------------------------
(* Conformance: calls recorded on the real model are validated one by one     *)
(* against the circuit the configuration denotes.  Event kinds:               *)
(*  wf     the instance is well formed (wiring and weight rows)               *)
(*  dens   likelihoods of one row, per class                                  *)
(*  post   class posterior of one row                                         *)
(*  hist   how often every outcome was sampled, given evidence / class /      *)
(*         temperature; outcomes are values or leaf identities                *)
(*  pairs  joint frequencies of one missing cell in two rows, given evidence  *)
(*  disp   numbers of rows with a property in many calls of N rows each       *)
(*  twin   two samples of the same distribution                               *)
(*  mpe    the completion (or leaves) found by MPE                            *)
(*  modes  every emitted value is a mode of some selectable leaf              *)
(*  grad   gradients of one row's log-likelihood                              *)
(*  flags  named observations that must all hold                              *)
EXTENDS Circuit, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Models == Data.models
Events == Data.events

VARIABLES i, verdict
vars == <<i, verdict>>

M(e) == Models[e.m]

Dens_(e) ==
  LET m == M(e)
      d == Dens(m, e.x)
  IN [exp |-> [c \in 1..m.C |-> d[c] * m.sc],
      ok  |-> Len(e.obs) = m.C /\ \A c \in 1..m.C : Close(e.obs[c], d[c] * m.sc)]

Wf_(e) ==
  [exp |-> "partition, normalised rows and matching denominator",
   ok |-> Partition(M(e)) /\ WeightRows(M(e)) /\ Den(M(e)) = M(e).den]

\* posterior in units of 10^-6
Post_(e) ==
  LET m == M(e)
      d == Dens(m, e.x)
      t == SumOp(LAMBDA c : d[c], m.C)
      p == [c \in 1..m.C |-> MulDiv(1000000, d[c], t)]
  IN [exp |-> p,
      ok  |-> /\ Len(e.obs) = m.C
              /\ \A c \in 1..m.C : Abs(e.obs[c] - p[c]) <= 60
              /\ Abs(SumSeq(e.obs) - 1000000) <= 20]

\* the j-th outcome: the cells listed in cells run through 0..V-1, the last one fastest
RECURSIVE Digits(_, _, _)
Digits(j, n, V) == IF n = 0 THEN <<>> ELSE Append(Digits(j \div V, n - 1, V), j % V)
Outcome(x, cells, V, j) ==
  LET d == Digits(j, Len(cells), V)
      at(ch, f) == {q \in 1..Len(cells) : cells[q][1] = ch /\ cells[q][2] = f}
  IN [ch \in DOMAIN x |-> [f \in DOMAIN x[ch] |->
        IF at(ch, f) = {} THEN x[ch][f] ELSE d[CHOOSE q \in at(ch, f) : TRUE]]]

Emission(m, e) ==
  CASE e.emit = "value" -> TemperLeaves(m, Plain(m), e.tl)
    [] e.emit = "mode" -> Modes(m)
    [] e.emit = "leaf" -> LeafIds(m)

\* e.x: evidence, e.cells: the cells that were filled, e.obs[j + 1]: count of outcome j,
\* e.other: number of rows that changed the evidence or left the domain
Hist_(e) ==
  LET m == TemperSums(M(e), e.ts)
      EM == Emission(m, e)
      any == [ch \in 1..m.CH |-> [f \in 1..m.F |-> Missing]]
      W == EmitMass(m, EM, e.x, any, e.cls)
      base == IF EM.all THEN any ELSE e.x
      w(j) == EmitMass(m, EM, e.x, Outcome(base, e.cells, e.V, j - 1), e.cls)
      bad == {j \in 1..Len(e.obs) :
                LET p == w(j) IN ~FreqOK(e.obs[j], MulDiv(e.N, p, W), p > 0)}
  IN [exp |-> IF bad = {} THEN "rows outside the domain"
              ELSE LET j == CHOOSE j \in bad : TRUE
                   IN [outcome |-> Outcome(base, e.cells, e.V, j - 1), count |-> e.obs[j],
                       expected |-> MulDiv(e.N, w(j), W), of |-> e.N, wrong |-> Cardinality(bad)],
      ok |-> e.other = 0 /\ SumSeq(e.obs) = e.N /\ bad = {}]

\* e.cell: <<ch, f>>; e.obs[a + 1][b + 1]: pairs of distinct rows with values a and b there
Pairs_(e) ==
  LET m == M(e)
      any == [ch \in 1..m.CH |-> [f \in 1..m.F |-> Missing]]
      W == EmitMass(m, Plain(m), e.x, any, e.cls)
      p(v) == MulDiv(1048576, EmitMass(m, Plain(m), e.x, [any EXCEPT ![e.cell[1]][e.cell[2]] = v], e.cls), W)
      lam(a, b) == MulDiv(MulDiv(e.N, p(a), 1048576), p(b), 1048576)
  IN [exp |-> [a \in 1..e.V |-> [b \in 1..e.V |-> lam(a - 1, b - 1)]],
      ok |-> \A a \in 1..e.V, b \in 1..e.V : FreqOK(e.obs[a][b], lam(a - 1, b - 1), TRUE)]

\* e.obs[k + 1]: number of calls (of e.J) in which k of the e.N rows had a value in e.set; the sum of the
\* squared deviations is that of independent rows up to a factor of two (many standard deviations for e.J >= 400)
Disp_(e) ==
  LET m == M(e)
      any == [ch \in 1..m.CH |-> [f \in 1..m.F |-> Missing]]
      W == EmitMass(m, Plain(m), e.x, any, e.cls)
      p == SumSeq([j \in 1..Len(e.set) |->
             MulDiv(1048576, EmitMass(m, Plain(m), e.x, [any EXCEPT ![e.cell[1]][e.cell[2]] = e.set[j]], e.cls), W)])
      mu == MulDiv(16 * e.N, p, 1048576)
      var == MulDiv(MulDiv(256 * e.N, p, 1048576), 1048576 - p, 1048576)
      dev(k) == Min2(Abs(16 * k - mu), 3000)
      sum == SumSeq([k \in 1..Len(e.obs) |-> IF e.obs[k] = 0 THEN 0 ELSE e.obs[k] * dev(k - 1) * dev(k - 1)])
      mean == sum \div e.J
  IN [exp |-> [variance |-> var, observed |-> mean],
      ok |-> /\ SumSeq(e.obs) = e.J
             /\ var >= 256 * 5 => 10 * mean <= 17 * var /\ 10 * mean >= 6 * var]

Twin_(e) ==
  LET bad == {k \in 1..Len(e.a) : ~TwinOK(e.a[k], e.b[k])}
  IN [exp |-> {[a |-> e.a[k], b |-> e.b[k]] : k \in bad}, ok |-> bad = {} /\ SumSeq(e.a) = SumSeq(e.b)]

Mpe_(e) ==
  LET m == M(e)
  IN [exp |-> "a completion along most probable branches",
      ok |-> MpeHit(m, e.x, e.obs, e.cls, e.ids)]

\* with several features per cell nothing more is known without the path
Modes_(e) ==
  LET m == M(e)
      hit(ch, f) == \E k \in 1..m.K, r \in 1..m.R : LeafHit(m, e.x, e.obs, FALSE, ch, f, k, r)
  IN [exp |-> "evidence and modes of leaves", ok |-> \A ch \in 1..m.CH, f \in 1..m.F : hit(ch, f)]

\* gradients in units of 2^-20, laid out as the weights
GTol == 400
Grad_(e) ==
  LET m == M(e)
      tabs == Tables(m, e.x)
      us == Uses(m, tabs, e.cls)
      n == Len(m.layers)
      wgrad(l) ==   \* layer l
        LET L == m.layers[l]
            T == tabs[l]
            U == us[n + 1 - l]
            g == e.obs.layers[l]
            node(f, o, r) == IF L.t = "linsum2" THEN U[(f + 1) \div 2][o][r] ELSE U[f][o][r]
        IN CASE L.t \in {"prod", "pool", "cross"} -> TRUE
             [] L.t = "einsum" ->
                  \A f \in 1..L.fo, o \in 1..L.so, r \in 1..m.R, a \in 1..L.si, b \in 1..L.si :
                    Abs(g[f][o][r][a][b] - (EinEdgeUse(L, T, U, f, a, b, o, r)
                                            - MulDiv(U[f][o][r], L.w[f][o][r][a][b], L.den))) <= GTol
             [] OTHER ->
                  \A f \in 1..(IF L.t = "linsum2" THEN L.fi ELSE L.fo), o \in 1..L.so, r \in 1..m.R, a \in 1..L.si :
                    Abs(g[f][a][o][r] - (EdgeUse(L, T, U, f, a, o, r)
                                         - MulDiv(node(f, o, r), L.w[f][a][o][r], L.den))) <= GTol
      mixok == m.R = 1 \/ \A c \in 1..m.C, r \in 1..m.R :
                 Abs(e.obs.mix[c][r] - (us[1][1][c][r]
                       - (IF c = e.cls THEN MulDiv(FU, m.mix[c][r], m.mixDen) ELSE 0))) <= GTol
      leafU == us[n + 1]
      regionOf(f, r) == CHOOSE q \in 1..Len(m.reg[r]) : \E j \in 1..Len(m.reg[r][q]) : m.reg[r][q][j] = f
      leafok == e.obs.leaf = <<>> \/
        \A ch \in 1..m.CH, f \in 1..m.F, k \in 1..m.K, r \in 1..m.R, v \in 1..Len(m.leaf[1][1][1][1]) :
          LET u == leafU[regionOf(f, r)][k][r]
              p == MulDiv(u, m.leaf[ch][f][k][r][v], m.leafDen)
          IN Abs(e.obs.leaf[ch][f][k][r][v]
                 - (IF e.x[ch][f] = Missing THEN 0 ELSE (IF e.x[ch][f] = v - 1 THEN u ELSE 0) - p)) <= GTol
      badl == {l \in 1..n : ~wgrad(l)}
  IN [exp |-> [layers |-> badl, mix |-> mixok, leaf |-> leafok],
      ok |-> e.obs.finite /\ badl = {} /\ mixok /\ leafok]

Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE}
  IN [exp |-> bad, ok |-> bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "dens" -> Dens_(e)
         [] e.k = "wf" -> Wf_(e)
         [] e.k = "post" -> Post_(e)
         [] e.k = "hist" -> Hist_(e)
         [] e.k = "pairs" -> Pairs_(e)
         [] e.k = "disp" -> Disp_(e)
         [] e.k = "twin" -> Twin_(e)
         [] e.k = "mpe" -> Mpe_(e)
         [] e.k = "modes" -> Modes_(e)
         [] e.k = "grad" -> Grad_(e)
         [] e.k = "flags" -> Flags_(e)

Init == i \in 1..Len(Events) /\ verdict = "todo"
Next ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
=============================================================================
