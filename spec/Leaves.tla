------------------------------- MODULE Leaves -------------------------------
(* The textbook distributions behind the leaves, from their documented        *)
(* parameters, in integers.  A leaf is a record with field t:                 *)
(*   bern   p = a / (a + b)                                                   *)
(*   binom  n trials, p = a / (a + b)                                         *)
(*   cat    weights w, probabilities w[v] / sum of w                          *)
(*   blog   binomial with n trials and log-odds lo in 1/1000 nat              *)
(*   clog   categorical with logits lg in 1/1000 nat                          *)
(*   norm   mean mu / u, standard deviation sd / u; if e is given, observations *)
(*          and parameters are recorded multiplied by 2^e                     *)
(*   rat    standard deviation lo + (hi - lo) a / (a + b), all in 1/u; mean   *)
(*          mu / u, or if bnd between mlo / u and mhi / u at ma / (ma + mb)   *)
(*   mvn    mean mu[i] / 8, lower triangular L: L[i][i] = 2^(sg[i]), other    *)
(*          entries l2[i][j] / 2                                              *)
(* Log densities are in 1/1000 nat.                                           *)
EXTENDS Arith, FiniteSets, TLC

\* ln of 1, 2, ... in units of 10^-6
LnTable ==
  <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225,
    2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213, 2890372,
    2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876, 3258097, 3295837,
    3332205, 3367296, 3401197, 3433987, 3465736, 3496508, 3526361, 3555348, 3583519,
    3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662,
    3828641, 3850148, 3871201, 3891820, 3912023, 3931826, 3951244, 3970292, 3988984,
    4007333, 4025352, 4043051, 4060443, 4077537, 4094345, 4110874, 4127134, 4143135,
    4158883, 4174387, 4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666,
    4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027, 4394449,
    4406719, 4418841, 4430817, 4442651, 4454347, 4465908, 4477337, 4488636, 4499810,
    4510860, 4521789, 4532599, 4543295, 4553877, 4564348, 4574711, 4584967, 4595120,
    4605170, 4615121, 4624973, 4634729, 4644391, 4653960, 4663439, 4672829, 4682131,
    4691348, 4700480, 4709530, 4718499, 4727388, 4736198, 4744932, 4753590, 4762174,
    4770685, 4779123, 4787492, 4795791, 4804021, 4812184, 4820282, 4828314, 4836282,
    4844187, 4852030, 4859812, 4867534, 4875197, 4882802, 4890349, 4897840, 4905275,
    4912655, 4919981, 4927254, 4934474, 4941642, 4948760, 4955827, 4962845, 4969813,
    4976734, 4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438,
    5036953, 5043425, 5049856, 5056246, 5062595, 5068904, 5075174, 5081404, 5087596,
    5093750, 5099866, 5105945, 5111988, 5117994, 5123964, 5129899, 5135798, 5141664,
    5147494, 5153292, 5159055, 5164786, 5170484, 5176150, 5181784, 5187386, 5192957,
    5198497, 5204007, 5209486, 5214936, 5220356, 5225747, 5231109, 5236442, 5241747,
    5247024, 5252273, 5257495, 5262690, 5267858, 5273000, 5278115, 5283204, 5288267,
    5293305, 5298317, 5303305, 5308268, 5313206, 5318120, 5323010, 5327876, 5332719,
    5337538, 5342334, 5347108, 5351858, 5356586, 5361292, 5365976, 5370638, 5375278,
    5379897, 5384495, 5389072, 5393628, 5398163, 5402677, 5407172, 5411646, 5416100,
    5420535, 5424950, 5429346, 5433722, 5438079, 5442418, 5446737, 5451038, 5455321,
    5459586, 5463832, 5468060, 5472271, 5476464, 5480639, 5484797, 5488938, 5493061,
    5497168, 5501258, 5505332, 5509388, 5513429, 5517453, 5521461, 5525453, 5529429,
    5533389, 5537334, 5541264, 5545177, 5549076 >>
\* normal distribution function at 0, 1/16, 2/16, ..., 6 in units of 2^-20
PhiTable ==
  <<524288, 550416, 576442, 602266, 627789, 652917, 677558, 701629, 725051, 747752,
    769670, 790748, 810940, 830208, 848521, 865861, 882214, 897576, 911952, 925352,
    937794, 949301, 959902, 969631, 978524, 986621, 993965, 1000600, 1006571,
    1011924, 1016703, 1020954, 1024721, 1028045, 1030967, 1033526, 1035758, 1037697,
    1039375, 1040822, 1042065, 1043128, 1044033, 1044802, 1045451, 1045999, 1046458,
    1046841, 1047161, 1047425, 1047644, 1047824, 1047971, 1048091, 1048189, 1048268,
    1048332, 1048383, 1048425, 1048457, 1048483, 1048504, 1048520, 1048533, 1048543,
    1048551, 1048557, 1048561, 1048565, 1048568, 1048570, 1048571, 1048572, 1048573,
    1048574, 1048575, 1048575, 1048575, 1048575, 1048576, 1048576, 1048576, 1048576,
    1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
    1048576, 1048576, 1048576, 1048576, 1048576 >>
P20 == 1048576

Ln6(k) == LnTable[k]
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Comb(_, _)
Comb(n, k) == IF k = 0 \/ k = n THEN 1 ELSE (Comb(n - 1, k - 1) * n) \div k
RoundDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
Sq(a) == a * a

(* ---- discrete leaves: exact weights of the values 0, 1, ... ------------------- *)
Exact(d) == d.t \in {"bern", "binom", "cat"}
Weights(d) ==
  CASE d.t = "bern" -> <<d.b, d.a>>
    [] d.t = "binom" -> [v \in 1..d.n + 1 |-> Comb(d.n, v - 1) * Pow(d.a, v - 1) * Pow(d.b, d.n - v + 1)]
    [] d.t = "cat" -> d.w
Mass(d) == SumSeq(Weights(d))

\* log of the binomial coefficient and of the binomial mass, in 10^-6
LnComb6(n, k) == SumOp(LAMBDA j : Ln6(n - j + 1) - Ln6(j), k)
\* ln(1 + exp(x)), x in 1/1000, through whole tables would be coarse: the normaliser of the log
\* binomial is given by the law that the masses sum to one, see LogLaw in LeavesTrace
LogStep6(n, k, lo) == Ln6(n - k) - Ln6(k + 1) + 1000 * lo     \* ln of mass(k+1) / mass(k)

\* modes: the values of maximal mass
ModesOf(w) == {v \in 1..Len(w) : \A u \in 1..Len(w) : w[u] <= w[v]}
IsModeLog(d, v) ==
  CASE d.t = "blog" -> /\ v \in 0..d.n
                       /\ v = d.n \/ LogStep6(d.n, v, d.lo) <= 20
                       /\ v = 0 \/ LogStep6(d.n, v - 1, d.lo) >= -20
    [] d.t = "clog" -> v \in 0..Len(d.lg) - 1 /\ \A u \in 1..Len(d.lg) : d.lg[u] <= d.lg[v + 1]

(* ---- Gaussian leaves ------------------------------------------------------------- *)
Mean8(d) == CASE d.t = "norm" -> d.mu
              [] d.t = "rat" -> IF d.bnd THEN d.mlo + RoundDiv((d.mhi - d.mlo) * d.ma, d.ma + d.mb) ELSE d.mu
Sd8(d) == CASE d.t = "norm" -> d.sd
            [] d.t = "rat" -> d.lo + RoundDiv((d.hi - d.lo) * d.a, d.a + d.b)
HalfLn2Pi6 == 918939
\* 500 (x / s)^2 in two steps to stay small
QuadMilli(x, s) == LET a == Sq(x) \div Sq(s)
                       b == Sq(x) - a * Sq(s)
                   IN 500 * a + (IF Sq(s) < 4000000 THEN RoundDiv(500 * b, Sq(s)) ELSE b \div (Sq(s) \div 500))
Scale6(d) == IF "e" \in DOMAIN d THEN d.e * Ln6(2) ELSE 0
NormLog(d, x8) == -(QuadMilli(x8 - Mean8(d), Sd8(d)) + RoundDiv(HalfLn2Pi6 + Ln6(Sd8(d)) - Ln6(d.u) - Scale6(d), 1000))

\* normal distribution function at num / den
PhiPos(num, den) ==
  LET a == (16 * num) \div den
      b == 16 * num - a * den
  IN IF a >= 96 THEN P20 ELSE PhiTable[a + 1] + ((PhiTable[a + 2] - PhiTable[a + 1]) * b) \div den
Phi(num, den) == IF num >= 0 THEN PhiPos(num, den) ELSE P20 - PhiPos(-num, den)

\* square root of n / 64 in units of 1/64, for the standard deviation of a component: r with r^2 <= 64 n
RECURSIVE RootFrom(_, _, _)
RootFrom(n, a, b) == IF b - a <= 1 THEN a ELSE LET c == (a + b) \div 2 IN IF c * c <= n THEN RootFrom(n, c, b) ELSE RootFrom(n, a, c)
Root(n) == RootFrom(n, 0, 40000)

(* ---- multivariate Gaussian: z = L^-1 (x - mu) in units of 1/128 -------------------- *)
Card(d) == Len(d.mu)
Halve(a, s) == CASE s = 0 -> a [] s = 1 -> RoundDiv(a, 2) [] s = 2 -> RoundDiv(a, 4) [] s = -1 -> 2 * a
Whiten(d, x8) ==
  FoldLeft(LAMBDA z, i : Append(z, Halve(16 * (x8[i] - d.mu[i]) - RoundDiv(SumOp(LAMBDA j : d.l2[i][j] * z[j], i - 1), 2), d.sg[i])),
           <<>>, [i \in 1..Card(d) |-> i])
MvnLog(d, x8) ==
  LET z == Whiten(d, x8)
  IN -(SumOp(LAMBDA i : QuadMilli(z[i], 128), Card(d))
       + RoundDiv(Card(d) * HalfLn2Pi6 + SumOp(LAMBDA i : d.sg[i], Card(d)) * Ln6(2), 1000))
\* entries of L in 1/2 and of the covariance L L' in 1/4
L2(d, i, j) == IF i = j THEN (CASE d.sg[i] = -1 -> 1 [] d.sg[i] = 0 -> 2 [] d.sg[i] = 1 -> 4 [] d.sg[i] = 2 -> 8)
               ELSE IF j < i THEN d.l2[i][j] ELSE 0
Cov4(d, i, j) == SumOp(LAMBDA k : L2(d, i, k) * L2(d, j, k), Card(d))

(* ---- laws of the definitions themselves, checked for every small leaf --------------- *)
VARIABLE leaf
LeafInit ==
  \/ \E n \in 1..8, a, b \in 1..4 : leaf = [t |-> "binom", n |-> n, a |-> a, b |-> b]
  \/ \E a, b \in 1..9 : leaf = [t |-> "bern", a |-> a, b |-> b]
  \/ \E s1, s2 \in -1..1, c, x1, x2 \in {-3, 0, 1, 4} :
       leaf = [t |-> "mvn", mu |-> <<8, -8>>, sg |-> <<s1, s2>>, l2 |-> <<<<>>, <<c>>>>, z |-> <<x1, x2>>]
LeafSpec == LeafInit /\ [][UNCHANGED leaf]_leaf
\* the masses of a binomial sum to (a + b)^n: its probabilities sum to one
TotalMass == leaf.t \in {"bern", "binom"} => Mass(leaf) = Pow(leaf.a + leaf.b, IF leaf.t = "bern" THEN 1 ELSE leaf.n)
\* a Bernoulli leaf is a binomial leaf with one trial
OneTrial == leaf.t = "bern" => Weights(leaf) = Weights([t |-> "binom", n |-> 1, a |-> leaf.a, b |-> leaf.b])
\* the textbook mode floor((n + 1) p) (at most n) has maximal mass, and the mass is unimodal
ModeLaw ==
  leaf.t = "binom" =>
    LET w == Weights(leaf)
        f == Min2(leaf.n, ((leaf.n + 1) * leaf.a) \div (leaf.a + leaf.b))
    IN /\ f + 1 \in ModesOf(w)
       /\ \A v \in 1..leaf.n : (v <= f => w[v] <= w[v + 1]) /\ (v > f + 1 => w[v] >= w[v + 1])
\* whitening inverts x = mu + L z (z in 1/2)
WhitenLaw ==
  leaf.t = "mvn" =>
    LET x8 == [i \in 1..2 |-> leaf.mu[i] + 2 * SumOp(LAMBDA j : L2(leaf, i, j) * leaf.z[j], 2)]
    IN Whiten(leaf, x8) = [i \in 1..2 |-> 64 * leaf.z[i]]
PhiLaw == /\ \A j \in 1..96 : PhiTable[j] <= PhiTable[j + 1]
          /\ Phi(0, 1) = P20 \div 2
          /\ \A x \in -60..60 : Phi(x, 10) + Phi(-x, 10) = P20
=============================================================================
