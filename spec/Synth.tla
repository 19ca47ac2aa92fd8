------------------------------- MODULE Synth -------------------------------
(***************************************************************************)
(* The synthetic spectrum generator (src/rascal/synthetic.py): a model     *)
(* from pixels to wavelengths, wavelength limits, and a query that inverts *)
(* the model within the limits.                                            *)
(*                                                                         *)
(* s: [coef: coefficients of the model (<< >>: none), lo, hi: limits]      *)
(*                                                                         *)
(* Coefficients: a linear model is given as <<intercept, gradient>>, every *)
(* higher one highest order first (that is how the implementation, its     *)
(* callers and its tests use them).                                        *)
(***************************************************************************)
EXTENDS Num

NONE == -99           \* a limit not given
BAD  == -98           \* a limit of a type that is not accepted
NOMODEL == << >>      \* a model of a type that is not accepted

Rev(c) == [k \in 1..Len(c) |-> c[Len(c) + 1 - k]]
Degree(c) == Len(c) - 1
LowestFirst(c) == IF Len(c) = 2 THEN c ELSE Rev(c)
Predict(c, x) == NPoly(LowestFirst(c), x)

NewLo(s, lo) == IF NEq(lo, NONE) THEN s.lo ELSE lo
NewHi(s, hi) == IF NEq(hi, NONE) THEN s.hi ELSE hi
LimitOK(s, lo, hi) == ~NEq(lo, BAD) /\ ~NEq(hi, BAD) /\ NLt(NewLo(s, lo), NewHi(s, hi))
SetLimit(s, lo, hi) == IF LimitOK(s, lo, hi) THEN [s EXCEPT !.lo = NewLo(s, lo), !.hi = NewHi(s, hi)] ELSE s

SetModel(s, c) == IF c = NOMODEL THEN s ELSE [s EXCEPT !.coef = c]

\* the wavelengths of a query that are answered, in the order of the query
Within(s, ws) == SelectSeq(ws, LAMBDA w : NLt(s.lo, w) /\ NLt(w, s.hi))

\* x answers w: the model predicts w there (a constant model always gives its constant)
Answers(s, x, w, eps) ==
  IF Degree(s.coef) = 0 THEN NEq(x, s.coef[1])
  ELSE NNear(Predict(s.coef, x), w, eps)
=============================================================================
