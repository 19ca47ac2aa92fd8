-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* Plots: what they need, what they write, what they return, what they     *)
(* show, and that they leave everything else as it is.                     *)
(*                                                                         *)
(* kind  "arc", "fit", "search" (methods of a calibrator) or "lines"       *)
(*       (plot_calibration_lines, which is drawn with matplotlib only)     *)
(* lib   "matplotlib" or "plotly"                                          *)
(***************************************************************************)
EXTENDS Num

Images == {"jpg", "png", "svg", "pdf"}
Recognised(lib) == IF lib = "plotly" THEN Images \cup {"iframe"} ELSE Images

Default(kind) == CASE kind = "search" -> "rascal_hough_search_space"
                   [] kind = "fit"    -> "rascal_solution"
                   [] OTHER           -> "rascal_arc"
\* "" stands for no name given
Stem(kind, name) == IF name = "" THEN Default(kind) ELSE name

\* Files written: one per recognised type; types is the set of types asked for
Files(kind, lib, save, types, name) ==
  IF ~save THEN {} ELSE {Stem(kind, name) \o "." \o t : t \in types \cap Recognised(lib)}

\* What the call returns
Returns(lib, json) == IF lib = "matplotlib" THEN "figure" ELSE IF json THEN "json" ELSE "none"

\* How often it is displayed; whether it is if the json string is returned is left open
Displayed(display, json, n) == IF display THEN n = 1 \/ (json /\ n = 0) ELSE n = 0

\* The data a plot is made of
Possible(kind, d) == CASE kind = "arc"    -> d.spectrum
                       [] kind = "fit"    -> d.solution
                       [] kind = "search" -> d.candidates
                       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* What is shown.  A series is a pair of equally long sequences.           *)

\* logarithm of a power of ten, up to rounding (anything else has none)
RECURSIVE Log10Up(_), Log10Down(_)
Unit(v) == NNear(v, 1, "1/1000000000")
Log10Down(v) == IF Unit(v) THEN 0 ELSE IF NLt(v, 1) THEN -1000 ELSE 1 + Log10Down(NDiv(v, 10))
Log10Up(v) == IF Unit(v) THEN 0 ELSE IF NLt(v, 1) THEN Log10Up(NMul(v, 10)) - 1 ELSE -1000
Log10(v) == IF ~NIsNum(v) \/ NLe(v, 0) THEN -1000 ELSE IF NLt(v, 1) THEN Log10Up(v) ELSE Log10Down(v)

RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE NMax(s[1], MaxOf(Tail(s)))

Map(F(_), s) == [k \in 1..Len(s) |-> F(s[k])]
Shift(s, v) == Map(LAMBDA a : NAdd(a, v), s)

\* the spectrum of the arc plot: relative to its maximum
Relative(spec, log) == LET m == MaxOf(spec)
                           F(v) == IF log THEN Log10(NDiv(v, m)) ELSE NDiv(v, m) IN Map(F, spec)
Wave(coef, pix) == LET F(p) == NPoly(coef, p) IN Map(F, pix)

\* the lines bounding the search space: from (0, lo) to (last pixel, hi), and both shifted by the tolerance
Boundary(pix, lo, hi, shift) == LET g == NDiv(NSub(hi, lo), MaxOf(pix))
                                    F(x) == NAdd(NAdd(NMul(g, x), lo), shift) IN Map(F, pix)
Levels(lo, hi, tol) == <<lo, hi, NAdd(lo, tol), NSub(lo, tol), NAdd(hi, tol), NSub(hi, tol)>>

\* closest line to a wavelength
Closest(lines, w) == CHOOSE k \in 1..Len(lines) : \A j \in 1..Len(lines) : NLe(NAbs(NSub(lines[k], w)), NAbs(NSub(lines[j], w)))
=============================================================================
