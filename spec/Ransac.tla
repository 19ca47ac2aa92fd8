------------------------------- MODULE Ransac -------------------------------
(***************************************************************************)
(* The RANSAC search of Calibrator.fit (_solve_candidate_ransac).          *)
(*                                                                         *)
(* A trial is a polynomial fitted to a sample of candidate pairs.  It is   *)
(* plausible if its intercept and monotonicity are right, it is admissible *)
(* if moreover its inliers meet the thresholds of the user, and the        *)
(* admissible trial of the lowest score wins.                              *)
(*                                                                         *)
(* g: [mini, maxi: intercept limits, deg, tol: inlier tolerance,           *)
(*     mf: minimum error, mm: minimum number of matches,                   *)
(*     mpu: minimum fraction of the peaks, np, nl: numbers of peaks and    *)
(*     lines]                                                              *)
(* rows: sequence of [p: peak, c: its candidate lines], by increasing peak *)
(***************************************************************************)
EXTENDS Match

-----------------------------------------------------------------------------
(* Candidates *)

\* the line removed from a close pair is the one of shorter wavelength
TooClose(cs, w, d) == \E k \in 1..Len(cs) : NLt(w, cs[k].w) /\ NLt(NSub(cs[k].w, w), d)
FilterClose(cs, tol) == SelectSeq(cs, LAMBDA x : ~TooClose(cs, x.w, NMul(3, tol)))

\* rows of a sequence of [p, w] that is grouped by increasing p
RECURSIVE GroupFrom(_, _, _)
GroupFrom(cs, k, acc) ==
  IF k > Len(cs) THEN acc
  ELSE IF acc # << >> /\ NEq(acc[Len(acc)].p, cs[k].p)
       THEN GroupFrom(cs, k + 1, [acc EXCEPT ![Len(acc)].c = Append(@, cs[k].w)])
       ELSE GroupFrom(cs, k + 1, Append(acc, [p |-> cs[k].p, c |-> <<cs[k].w>>]))
Group(cs) == GroupFrom(cs, 1, << >>)

-----------------------------------------------------------------------------
(* One trial *)

At(rows, coef) == TLCEval([k \in 1..Len(rows) |-> [p |-> rows[k].p, f |-> NPoly(coef, rows[k].p), c |-> rows[k].c]])
MatchOf(rows, coef) == Matching(At(rows, coef))
Inliers(m, tol) == SelectSeq(m, LAMBDA x : NLt(x.e, tol))

\* score as a fraction n / d, to be compared by cross multiplication
Score(m, g, weight) ==
  [n |-> NSum([k \in 1..Len(m) |-> NMin(m[k].e, g.tol)]),
   d |-> NMul(Len(m) - g.deg, weight)]
\* up to a relative margin, and what predictions of thousands of Angstrom are rounded by
ROUND == "1/1000000000"
ScoreLe(a, b, rel) == NLe(NMul(NSub(a.n, ROUND), b.d), NMul(NMul(NAdd(b.n, ROUND), a.d), NAdd(1, rel)))
ScoreLeInt(a, b) == a.n * b.d <= b.n * a.d

InterceptOK(g, c0, eps) == NLe(NSub(g.mini, eps), c0) /\ NLe(c0, NAdd(g.maxi, eps))

\* the increase P(x+1) - P(x), for degrees up to 3
C(coef, k) == IF k < Len(coef) THEN coef[k + 1] ELSE 0
Rise(coef, x) ==
  NSum(<<C(coef, 1),
         NMul(C(coef, 2), NAdd(NMul(2, x), 1)),
         NMul(C(coef, 3), NAdd(NAdd(NMul(3, NMul(x, x)), NMul(3, x)), 1))>>)
Slope(coef, x) ==
  NSum(<<C(coef, 1), NMul(NMul(2, C(coef, 2)), x), NMul(NMul(3, C(coef, 3)), NMul(x, x))>>)
\* position of the lowest slope of a cubic
Vertex(coef) == NDiv(NNeg(C(coef, 2)), NMul(3, C(coef, 3)))

\* range of the peaks extended by a fifth on both sides
FromPix(rows) == NSub(rows[1].p, NDiv(NSub(rows[Len(rows)].p, rows[1].p), 5))
ToPix(rows)   == NAdd(rows[Len(rows)].p, NDiv(NSub(rows[Len(rows)].p, rows[1].p), 5))

HasVertex(coef, a, b) == NLt(0, C(coef, 3)) /\ NLe(a, Vertex(coef)) /\ NLe(Vertex(coef), b)

\* strictly increasing on [a, b], by more than rounding
SurelyIncreasing3(coef, a, b, eps) ==
  /\ NLt(eps, Slope(coef, a)) /\ NLt(eps, Slope(coef, b))
  /\ HasVertex(coef, a, b) => NLt(eps, Slope(coef, Vertex(coef)))
\* decreasing by more than rounding somewhere in it, over at least a pixel
SurelyNotIncreasing3(coef, a, b, eps) ==
  LET slack == NAdd(eps, NMul(2, NAbs(C(coef, 3))))
      neg(x) == NLt(NAdd(Rise(coef, x), slack), 0)
  IN \/ NLe(NAdd(a, 1), b) /\ neg(a)
     \/ NLe(NAdd(a, 2), b) /\ neg(NSub(b, 2)) /\ neg(NSub(b, 1))
     \/ /\ HasVertex(coef, a, b) /\ NLe(NAdd(a, 2), Vertex(coef)) /\ NLe(NAdd(Vertex(coef), 2), b)
        /\ neg(Vertex(coef))

\* the same for any degree, with more between the two: the slope at PIECES + 1 places exceeds what it
\* can fall by in between, or the polynomial falls from one of some pixels to the next
PIECES == 24
Derivative(coef) == [k \in 1..(Len(coef) - 1) |-> NMul(k, coef[k + 1])]
Place(a, b, k) == NAdd(a, NMul(NDiv(k, PIECES), NSub(b, a)))
SurelyIncreasingN(coef, a, b, eps) ==
  LET d1 == TLCEval(Derivative(coef))
      d2 == TLCEval(Derivative(d1))
      bend == NPoly([k \in 1..Len(d2) |-> NAbs(d2[k])], NMax(NAbs(a), NAbs(b)))
      fall == NAdd(eps, NMul(bend, NDiv(NSub(b, a), PIECES)))
  IN \A k \in 0..PIECES : NLt(fall, NPoly(d1, Place(a, b, k)))
SurelyNotIncreasingN(coef, a, b, eps) ==
  \E k \in 0..24 : LET x == NAdd(a, 8 * k) IN
    /\ NLe(NAdd(x, 2), b)
    /\ NLt(NAdd(NSub(NPoly(coef, NAdd(x, 1)), NPoly(coef, x)), eps), 0)

SurelyIncreasing(coef, a, b, eps) ==
  IF Len(coef) <= 4 THEN SurelyIncreasing3(coef, a, b, eps) ELSE SurelyIncreasingN(coef, a, b, eps)
SurelyNotIncreasing(coef, a, b, eps) ==
  IF Len(coef) <= 4 THEN SurelyNotIncreasing3(coef, a, b, eps) ELSE SurelyNotIncreasingN(coef, a, b, eps)

PlausibleSurely(g, rows, coef, eps) ==
  InterceptOK(g, coef[1], NNeg(eps)) /\ SurelyIncreasing(coef, FromPix(rows), ToPix(rows), eps)
PlausibleMaybe(g, rows, coef, eps) ==
  InterceptOK(g, coef[1], eps) /\ ~SurelyNotIncreasing(coef, FromPix(rows), ToPix(rows), eps)

-----------------------------------------------------------------------------
(* Thresholds *)
MinI(a, b) == IF a <= b THEN a ELSE b
EffectiveMatches(g) == MinI(g.mm, MinI(g.np, g.nl))
\* eps: margin of the fraction of the peaks, which is seldom a number the implementation can hold
EnoughOf(g, n, eps) ==
  /\ n > g.deg
  /\ n >= EffectiveMatches(g)
  /\ NGe(NAdd(n, eps), NMul(g.mpu, g.np))
Enough(g, n) == EnoughOf(g, n, 0)

\* residuals of a fit are limited above by the inlier tolerance
Clip(r, tol) == IF NLt(tol, NAbs(r)) THEN tol ELSE r
ClipAll(rs, tol) == [k \in 1..Len(rs) |-> Clip(rs[k], tol)]
MeanSq(rs) == NDiv(SumSq(rs), Len(rs))

-----------------------------------------------------------------------------
(* Samples *)
DistinctSeq(s) == \A a, b \in 1..Len(s) : a # b => ~NEq(s[a], s[b])
IsCandidate(rows, p, w) == \E k \in 1..Len(rows) : NEq(rows[k].p, p) /\ Among(w, rows[k].c)
FromCandidates(rows, xs, ys) == Len(xs) = Len(ys) /\ \A k \in 1..Len(xs) : IsCandidate(rows, xs[k], ys[k])

\* coef is the least-squares polynomial of the sample: its residuals are orthogonal to all powers
IsLeastSquares(coef, xs, ys, rel) ==
  LET r == Residuals(coef, xs, ys)
      P(x, j) == NPoly([k \in 1..(j + 1) |-> IF k <= j THEN 0 ELSE 1], x)
  IN \A j \in 0..(Len(coef) - 1) :
       NLe(NAbs(NSum([k \in 1..Len(xs) |-> NMul(r[k], P(xs[k], j))])),
           NMul(rel, NSum([k \in 1..Len(xs) |-> NAbs(NMul(ys[k], P(xs[k], j)))])))

\* numbers of trials
Redraws == 100
MaxTrials(tries) == (Redraws + 1) * tries
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF n < k THEN 0 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
\* a sample can always be drawn if no peak can run out of unused lines
AlwaysDrawable(rows, size) == \A k \in 1..Len(rows) : Cardinality({j \in 1..Len(rows[k].c) : \A i \in 1..(j-1) : ~NEq(rows[k].c[i], rows[k].c[j])}) >= size

-----------------------------------------------------------------------------
(* Candidate selection: pairs within tol of a Hough line, each with the    *)
(* support of all the lines, and the most supported of every peak.         *)
NearLine(p, w, ln, tol) == NLe(NAbs(NSub(NAdd(NMul(ln[1], p), ln[2]), w)), tol)
Support(p, w, lns, tol) == Cardinality({k \in 1..Len(lns) : NearLine(p, w, lns[k], tol)})
=============================================================================
