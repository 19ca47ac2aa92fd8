-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers (pixels, wavelengths, intensities, coefficients).               *)
(*                                                                         *)
(* The definitions below are over the integers and are what the exhaustive *)
(* models evaluate.  Trace validation needs the floating-point numbers of  *)
(* the implementation: every finite float is a rational, which the traces  *)
(* write as a string "p" or "p/q", and TLC evaluates the same operators    *)
(* exactly on those through the module override java/Num.java.  "nan"      *)
(* stands for a non-finite number; every comparison with it is FALSE.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NDiv(a, b) == a \div b          \* only used where exact, or with the override
NNeg(a)    == 0 - a
NAbs(a)    == IF a < 0 THEN 0 - a ELSE a
NLe(a, b)  == a <= b
NLt(a, b)  == a < b
NEq(a, b)  == a = b
NIsNum(a)  == a \in Int

RECURSIVE NSum(_)
NSum(s) == IF s = << >> THEN 0 ELSE Head(s) + NSum(Tail(s))

\* Value at x of the polynomial with coefficients c, lowest order first
RECURSIVE NPoly(_, _)
NPoly(c, x) == IF c = << >> THEN 0 ELSE Head(c) + x * NPoly(Tail(c), x)

\* Square root: the greatest integer whose square is not above a; with the override the rational
\* square root to 40 digits
NSqrt(a) == CHOOSE r \in 0..a : r * r <= a /\ (r + 1) * (r + 1) > a

NGe(a, b) == NLe(b, a)
NGt(a, b) == NLt(b, a)
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
NMax(a, b) == IF NLe(a, b) THEN b ELSE a

\* Equal up to an absolute tolerance
NNear(a, b, eps) == NLe(NAbs(NSub(a, b)), eps)
=============================================================================
