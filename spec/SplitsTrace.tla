----------------------------- MODULE SplitsTrace -----------------------------
(* Conformance of recorded data sets with Splits.  Event kinds:               *)
(*  split   rows (numbers of source rows) and labels of the three splits, and *)
(*          the same recorded again later, in another random state            *)
(*  bag     splits whose rows cannot be told apart but by label               *)
(*  scale   raw and standardised values: one affine map per column, whose     *)
(*          statistics are those of the training rows                         *)
(*  loader  the batches of the three loaders of a data set                    *)
(*  flags   named observations that must all hold                             *)
EXTENDS Splits, SequencesExt

Events == Data.events
VARIABLES i, verdict
tvars == <<gvars, i, verdict>>

Abs(n) == IF n < 0 THEN -n ELSE n
SumOf(f(_), n) == FoldLeft(LAMBDA a, j : a + f(j), 0, [j \in 1..n |-> j])

Split_(e) ==
  LET o == e.parts
      known == \A s \in Names : \A j \in DOMAIN o[s] : o[s][j] \in DOMAIN e.src
      why == IF ~known THEN {"row"} ELSE
             {w \in {"once", "all", "groups", "sizes", "classes", "filled", "labels", "again"} :
                CASE w = "once" -> ~Once(o)
                  [] w = "all" -> ~All(e.src, o)
                  [] w = "groups" -> ~Groups(e.kind, e.src, o)
                  [] w = "sizes" -> ~Sizes(e.kind, e.src, o)
                  [] w = "classes" -> ~Strata(e.kind, e.src, o)
                  [] w = "filled" -> ~Filled(e.src, o)
                  [] w = "labels" -> \E s \in Names : \E j \in DOMAIN o[s] : e.labels[s][j] # e.src[o[s][j]].y
                  [] w = "again" -> e.again # o}
  IN [exp |-> why, ok |-> why = {}]

\* e.src: group -> labels in order; e.labels: split -> labels in order
Bag_(e) ==
  LET has(seq, y) == Cardinality({j \in DOMAIN seq : seq[j] = y})
      ys == ToSet(e.src.train) \cup ToSet(e.src.test)
      why == {w \in {"test", "train", "sizes", "again"} :
                CASE w = "test" -> e.labels.test # e.src.test
                  [] w = "train" -> \E y \in ys : has(e.labels.train, y) + has(e.labels.val, y) # has(e.src.train, y)
                  [] w = "sizes" -> ~Tenth(Len(e.labels.val), Len(e.src.train))
                  [] w = "again" -> e.again # e.labels}
  IN [exp |-> why, ok |-> why = {} /\ \A s \in Names : ToSet(e.labels[s]) \subseteq ys]

\* e.x[c][id]: raw integers, e.z[c][id]: recorded values in 1/10000, e.train: the rows of the training split
Column(e, c) ==
  LET x == e.x[c]
      z == e.z[c]
      n == Len(e.train)
      a == e.train[1]
      \* a second row as far away as possible, for the slope of the map
      b == FoldLeft(LAMBDA m, q : IF Abs(x[q] - x[a]) > Abs(x[m] - x[a]) THEN q ELSE m, a, e.train)
      dx == x[b] - x[a]
      dz == z[b] - z[a]
      mean == SumOf(LAMBDA j : z[e.train[j]], n)
      sq == SumOf(LAMBDA j : (z[e.train[j]] \div 100) * (z[e.train[j]] \div 100), n)
  IN {w \in {"mean", "variance", "affine", "constant"} :
        CASE w = "mean" -> dx # 0 /\ Abs(mean) > 20 * n
          [] w = "variance" -> dx # 0 /\ Abs(sq - 10000 * n) > 250 * n
          [] w = "affine" -> dx # 0 /\ \E q \in DOMAIN x : Abs((z[q] - z[a]) * dx - dz * (x[q] - x[a])) > 40 * Abs(dx) + 4 * Abs(x[q] - x[a])
          [] w = "constant" -> dx = 0 /\ \E q \in DOMAIN e.train : Abs(z[e.train[q]]) > 20}
Scale_(e) ==
  LET bad == {c \in DOMAIN e.x : Column(e, c) # {}}
  IN [exp |-> [c \in bad |-> Column(e, c)], ok |-> bad = {}]

Cat(bs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, bs)
Full(bs, n, size) ==
  /\ Len(bs) = (n + size - 1) \div size
  /\ \A k \in DOMAIN bs : Len(bs[k]) = IF k * size <= n THEN size ELSE n - (k - 1) * size
Loader_(e) ==
  LET o == e.parts
      tr == Cat(e.train)
      n == Len(o.train)
      why == {w \in {"val", "test", "train"} :
                CASE w = "val" -> Cat(e.val) # o.val \/ ~Full(e.val, Len(o.val), e.size)
                  [] w = "test" -> Cat(e.test) # o.test \/ ~Full(e.test, Len(o.test), e.size)
                  [] w = "train" ->
                       IF e.loop
                       THEN \/ \E k \in DOMAIN e.train : Len(e.train[k]) # e.size
                            \/ \E q \in 0..((Len(tr) \div n) - 1) : ToSet(SubSeq(tr, q * n + 1, (q + 1) * n)) # ToSet(o.train)
                       ELSE ~Full(e.train, n, e.size) \/ ToSet(tr) # ToSet(o.train)}
  IN [exp |-> why, ok |-> why = {}]

Flags_(e) ==
  LET bad == {k \in DOMAIN e.obs : e.obs[k] # TRUE}
  IN [exp |-> bad, ok |-> bad = {}]

Judge(e) ==
  IF e.err # "" THEN [ok |-> FALSE, exp |-> "a value"]
  ELSE CASE e.k = "split" -> Split_(e) [] e.k = "bag" -> Bag_(e) [] e.k = "scale" -> Scale_(e)
         [] e.k = "loader" -> Loader_(e) [] e.k = "flags" -> Flags_(e)

TInit == i \in 1..Len(Events) /\ verdict = "todo" /\ case = 1 /\ out = <<>>
TNext ==
  /\ verdict = "todo"
  /\ LET j == Judge(Events[i])
     IN \/ j.ok /\ verdict' = "ok"
        \/ ~j.ok /\ verdict' = "bad" /\ PrintT("BAD " \o ToJson([i |-> i, exp |-> j.exp]))
  /\ UNCHANGED <<gvars, i>>
TSpec == TInit /\ [][TNext]_tvars
Conforms == verdict # "bad"
=============================================================================
