-------------------------------- MODULE Arith --------------------------------
(* Integer arithmetic shared by all specifications: sums and products of      *)
(* sequences, overflow-free a*b/c, closeness of a recorded (scaled, rounded)  *)
(* real number to an exact integer, and a concentration bound for recorded    *)
(* frequencies.  TLC integers are 32 bit and overflow is an error, so nothing *)
(* here can silently wrap.                                                    *)
EXTENDS Integers, Sequences, SequencesExt

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

\* sum of f[i] for i in 1..n, with f an operator
RECURSIVE SumOp(_, _)
SumOp(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumOp(f, n - 1)
RECURSIVE ProdOp(_, _)
ProdOp(f(_), n) == IF n = 0 THEN 1 ELSE f(n) * ProdOp(f, n - 1)

\* floor(a*b/c) for 0 <= a, 0 <= b <= c, 0 < c < 2^30 without forming a*b.
\* Writing a in binary, the pair <<q, r>> with a*b = q*c + r is doubled bit by bit.
RECURSIVE MulDivQR(_, _, _)
MulDivQR(a, b, c) ==
  IF a = 0 THEN <<0, 0>>
  ELSE LET h == MulDivQR(a \div 2, b, c)
           r2 == 2 * h[2] + (IF a % 2 = 1 THEN b % c ELSE 0)
           q2 == 2 * h[1] + (IF a % 2 = 1 THEN b \div c ELSE 0)
           k == r2 \div c
       IN <<q2 + k, r2 - k * c>>
MulDiv(a, b, c) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF a <= 2000000000 \div b THEN (a * b) \div c
  ELSE MulDivQR(a, b, c)[1]

\* A real number q was recorded as obs = round(q * S); it should equal n / D * S0
\* where the recorder used S = D * sc, so obs ~ n * sc up to relative 2^-14 and
\* one unit of rounding.
Close(obs, exact) == Abs(obs - exact) <= 1 + exact \div 16384

\* Deviation test for a count c out of N independent draws with success
\* probability lam / N (lam = expected count, here rounded down, error < 1).
\* Bernstein: P(|c - lam| >= t) <= 2 exp(-t^2 / (2 lam + 2 t / 3)).
\* With t^2 > 50 lam + 17 t the right side is below 3e-11.  An outcome of
\* probability zero must never occur.
FreqOK(c, lam, possible) ==
  IF ~possible THEN c = 0
  ELSE LET t == Max2(0, Abs(c - lam) - 2)
       IN t <= 20000 /\ t * t <= 50 * lam + 17 * t

\* Two counts from equally many draws of one distribution: their difference has at most the variance
\* a + b (plus the deviation of that sum, covered by the linear term).
TwinOK(a, b) ==
  LET t == Max2(0, Abs(a - b) - 2)
  IN t <= 20000 /\ t * t <= 50 * (a + b) + 17 * t
==============================================================================
