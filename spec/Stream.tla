------------------------------- MODULE Stream --------------------------------
(* Samplers of training indices as their users see them: a sampler has a size,  *)
(* a shuffle switch and a seed; every iterator over it yields an endless        *)
(* stream.  The state is the position of every open iterator; the world can     *)
(* disturb the global random state at any time.  StreamGen enumerates histories *)
(* of opening, reading and disturbing.                                          *)
(* Laws: what position p of an iterator yields is a function of (size, shuffle, *)
(* seed, p) alone (Content is such a function, chosen in Init); blocks of size  *)
(* consecutive indices are permutations.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
MaxLen == Data.len
NSamplers == Data.nsamplers
MaxIters == Data.niters

\* consecutive blocks of n are permutations of 0..n-1, a started block has no repetition
BlockOf(s, n, b) == SubSeq(s, (b - 1) * n + 1, IF b * n <= Len(s) THEN b * n ELSE Len(s))
Blocks(s, n) == (Len(s) + n - 1) \div n
Covers(s, n) ==
  /\ \A k \in DOMAIN s : s[k] \in 0..(n - 1)
  /\ \A b \in 1..Blocks(s, n) :
       LET B == TLCEval(BlockOf(s, n, b)) IN Cardinality({B[k] : k \in DOMAIN B}) = Len(B)
Identity(s, n) == \A k \in DOMAIN s : s[k] = (k - 1) % n
\* after any number of draws the counts of two examples differ by at most one (follows from Covers)
Count(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
Even(s, n) == \A a \in 0..(n - 1), b \in 0..(n - 1) : Count(s, a) - Count(s, b) <= 1

(* ---- histories: operations on abstract samplers, each of size two ------------------ *)
VARIABLES content, iters, h, out
gvars == <<content, iters, h, out>>
Perms2 == {<<0, 1>>, <<1, 0>>}
GInit == /\ content \in [1..NSamplers -> [1..2 -> Perms2]]     \* two blocks of every sampler
         /\ iters = <<>> /\ h = <<>> /\ out = <<>>
Open(s) == /\ Len(iters) < MaxIters
           /\ iters' = Append(iters, [s |-> s, pos |-> 0]) /\ h' = Append(h, [k |-> "open", a |-> s])
           /\ out' = Append(out, <<>>) /\ UNCHANGED content
Read(j) == LET it == iters[j]
           IN /\ it.pos < 4
              /\ iters' = [iters EXCEPT ![j].pos = @ + 1] /\ h' = Append(h, [k |-> "read", a |-> j])
              /\ out' = [out EXCEPT ![j] = Append(@, content[it.s][(it.pos \div 2) + 1][(it.pos % 2) + 1])]
              /\ UNCHANGED content
Disturb == /\ Len(h) > 0 /\ h[Len(h)].k # "disturb" /\ h' = Append(h, [k |-> "disturb", a |-> 0])
           /\ UNCHANGED <<content, iters, out>>
GNext == /\ Len(h) < MaxLen
         /\ \/ \E s \in 1..NSamplers : Open(s)
            \/ \E j \in DOMAIN iters : Read(j)
            \/ Disturb
GSpec == GInit /\ [][GNext]_gvars

\* the laws the implementation is held to follow from this state machine
Lawful == \A j \in DOMAIN out : Covers(out[j], 2) /\ Even(out[j], 2)
Prefixes == \A a \in DOMAIN out, b \in DOMAIN out :
              iters[a].s = iters[b].s => \A k \in DOMAIN out[a] : k \in DOMAIN out[b] => out[a][k] = out[b][k]
\* histories that read at least twice are emitted once (for one content)
Emit == (Len(h) = MaxLen /\ content = [s \in 1..NSamplers |-> [b \in 1..2 |-> <<0, 1>>]])
          => PrintT("EMIT " \o ToJson(h))
=============================================================================
