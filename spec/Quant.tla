-------------------------------- MODULE Quant --------------------------------
(* Image quantisation.  A pixel is an intensity u in eighths of 1/255, so     *)
(* u = 8k is the 8-bit value k.  At b bits it belongs to one of 2^b levels of *)
(* equal width.  The state machine reduces a pixel in one step or in several  *)
(* (to fewer and fewer bits); its laws are checked for every pixel and depth. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Intensities == 0..2040
Level(u, b) == u \div (8 * Two(8 - b))
\* 8-bit data is not reduced: between two 8-bit values nothing is rounded
Exact8(u, b) == b = 8 /\ u % 8 # 0

VARIABLES u, bits, lev
qvars == <<u, bits, lev>>
QInit == u \in Intensities /\ bits = 8 /\ lev = Level(u, 8)
Drop == bits > 1 /\ bits' = bits - 1 /\ lev' = lev \div 2 /\ UNCHANGED u
QSpec == QInit /\ [][Drop]_qvars

\* reducing bit by bit ends in the level of the pixel
StepLaw == lev = Level(u, bits)
InRange == lev \in 0..(Two(bits) - 1)
Monotone == u = 2040 \/ Level(u, bits) <= Level(u + 1, bits)
\* every level holds the same number of 8-bit values, the value 255 is in the last one
EqualWidth == u # 0 \/ \A l \in 0..(Two(bits) - 1) :
                Cardinality({k \in 0..255 : Level(8 * k, bits) = l}) = Two(8 - bits)
=============================================================================
