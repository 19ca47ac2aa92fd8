------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* One-to-one matching of detected peaks to atlas lines under a solution   *)
(* (Calibrator._match_bijective, match_peaks).                             *)
(*                                                                         *)
(* m: sequence of [p: peak, f: predicted wavelength, c: candidate lines].  *)
(* First every peak claims its closest candidate, then every line claimed  *)
(* more than once keeps the closest of its peaks.                          *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Err(f, w) == NAbs(NSub(f, w))

\* index of the (first) candidate closest to f
RECURSIVE ClosestFrom(_, _, _, _)
ClosestFrom(f, cs, k, best) ==
  IF k > Len(cs) THEN best
  ELSE ClosestFrom(f, cs, k + 1, IF NLt(Err(f, cs[k]), Err(f, cs[best])) THEN k ELSE best)
Closest(f, cs) == cs[ClosestFrom(f, cs, 2, 1)]

Claims(m) == TLCEval([k \in 1..Len(m) |-> LET w == Closest(m[k].f, m[k].c)
                                  IN [p |-> m[k].p, w |-> w, e |-> Err(m[k].f, w)]])

\* claim k wins its line: no other claim of the same line is closer, or equally close and earlier
Wins(cl, k) ==
  \A j \in 1..Len(cl) :
    (j # k /\ NEq(cl[j].w, cl[k].w)) => (NLt(cl[k].e, cl[j].e) \/ (NEq(cl[k].e, cl[j].e) /\ k < j))

\* the matching, as a sequence of [p, w, e] in the order of the peaks
Matching(m) ==
  LET cl == Claims(m)
      ks == SelectSeq([k \in 1..Len(cl) |-> k], LAMBDA k : Wins(cl, k))
  IN [k \in 1..Len(ks) |-> cl[ks[k]]]

-----------------------------------------------------------------------------
(* The same as a relation, up to ties and rounding (eps): q is a sequence  *)
(* of [p, w].                                                              *)
Distinct(s) == \A a, b \in 1..Len(s) : a # b => ~NEq(s[a], s[b])

IsOneToOne(q) ==
  /\ \A a, b \in 1..Len(q) : a # b => (~NEq(q[a].p, q[b].p) /\ ~NEq(q[a].w, q[b].w))

Row(m, p) == CHOOSE k \in 1..Len(m) : NEq(m[k].p, p)
HasRow(m, p) == \E k \in 1..Len(m) : NEq(m[k].p, p)
Among(w, s) == \E k \in 1..Len(s) : NEq(s[k], w)

\* every matched line is the closest candidate of its peak
ClosestFirst(m, q, eps) ==
  \A a \in 1..Len(q) :
    /\ HasRow(m, q[a].p)
    /\ LET r == m[Row(m, q[a].p)] IN
       /\ Among(q[a].w, r.c)
       /\ \A k \in 1..Len(r.c) : NLe(Err(r.f, q[a].w), NAdd(Err(r.f, r.c[k]), eps))

Unambiguous(r, eps) ==
  LET w == Closest(r.f, r.c) IN
  \A k \in 1..Len(r.c) : NEq(r.c[k], w) \/ NLt(NAdd(Err(r.f, w), eps), Err(r.f, r.c[k]))

\* the closest line of every peak is used, by a peak at least as close to it
NothingLost(m, q, eps) ==
  \A k \in 1..Len(m) : Unambiguous(m[k], eps) =>
    LET w == Closest(m[k].f, m[k].c) IN
    \E a \in 1..Len(q) :
      /\ NEq(q[a].w, w)
      /\ HasRow(m, q[a].p)
      /\ NLe(Err(m[Row(m, q[a].p)].f, w), NAdd(Err(m[k].f, w), eps))

IsMatching(m, q, eps) == IsOneToOne(q) /\ ClosestFirst(m, q, eps) /\ NothingLost(m, q, eps)

-----------------------------------------------------------------------------
(* What is reported about a solution (F02, M02) *)
SumSq(s) == NSum([k \in 1..Len(s) |-> NMul(s[k], s[k])])

\* rms is the root mean square of the residuals r
IsRms(rms, r, rel) ==
  LET ms == NDiv(SumSq(r), Len(r)) IN
  /\ NLe(0, rms)
  /\ NLe(NAbs(NSub(NMul(rms, rms), ms)), NAdd(NMul(ms, rel), "1/1000000000000000000"))

Residuals(coef, ps, ws) == [k \in 1..Len(ps) |-> NSub(NPoly(coef, ps[k]), ws[k])]
Sse(coef, ps, ws) == SumSq(Residuals(coef, ps, ws))

(* Fits minimise the Huber loss of the residuals: their squares, except that residuals beyond  *)
(* the scatter s (standard deviation) of the lines only count linearly.  Without such outliers *)
(* this is the least-squares polynomial.                                                       *)
Rho(r, s) == LET a == NAbs(r) IN
  IF NLe(a, s) THEN NMul(a, a) ELSE NSub(NMul(NMul(2, a), s), NMul(s, s))
Huber(coef, ps, ws, s) ==
  LET r == Residuals(coef, ps, ws) IN NSum([k \in 1..Len(r) |-> Rho(r[k], s)])

Mean(v) == NDiv(NSum(v), Len(v))
Variance(v) == LET m == Mean(v) IN NDiv(SumSq([k \in 1..Len(v) |-> NSub(v[k], m)]), Len(v))
IsStd(s, v) == /\ NLe(0, s)
               /\ NNear(NMul(s, s), Variance(v), NAdd(NMul(Variance(v), "1/1000000000"), "1/1000000000000000000"))

\* coef is as good a fit of the pairs as the polynomial ref of the same degree, up to the
\* accuracy of an iterative optimiser
NoWorse(coef, ref, ps, ws, s, rel, abs2) ==
  /\ Len(coef) = Len(ref)
  /\ NLe(Huber(coef, ps, ws, s), NAdd(NMul(Huber(ref, ps, ws, s), NAdd(1, rel)), abs2))
=============================================================================
