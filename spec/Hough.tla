------------------------------- MODULE Hough -------------------------------
(***************************************************************************)
(* Hough transforms (src/rascal/houghtransform.py): points in              *)
(* (slope, intercept) space, a histogram over them, and the ranked lines.  *)
(*                                                                         *)
(* lim: [smin, smax, imin, imax].  A Hough point is <<slope, intercept>>.  *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

-----------------------------------------------------------------------------
(* H01: evenly spaced slopes, ends included *)
Slope(lim, n, k) ==
  IF n = 1 THEN lim.smin
  ELSE NAdd(lim.smin, NDiv(NMul(k - 1, NSub(lim.smax, lim.smin)), n - 1))

ThroughPoint(s, x, y) == <<s, NSub(y, NMul(s, x))>>

\* every grid slope through every point (m = number of points), before the limits apply
AllGridLines(xs, ys, lim, n) ==
  [q \in 1..(n * Len(xs)) |->
     LET k == ((q - 1) \div Len(xs)) + 1
         j == ((q - 1) % Len(xs)) + 1
     IN ThroughPoint(Slope(lim, n, k), xs[j], ys[j])]

\* the intercept is within the limits, each widened by eps
InLimits(lim, h, eps) ==
  NLe(NSub(lim.imin, eps), h[2]) /\ NLe(h[2], NAdd(lim.imax, eps))

GridLines(xs, ys, lim, n, eps) ==
  SelectSeq(AllGridLines(xs, ys, lim, n), LAMBDA h : InLimits(lim, h, eps))

-----------------------------------------------------------------------------
(* H02: lines through two points *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))

LineThrough(x1, y1, x2, y2) ==
  LET g == NDiv(NSub(y2, y1), NSub(x2, x1)) IN <<g, NSub(y1, NMul(g, x1))>>

AllPairLines(xs, ys) ==
  Flat([i \in 1..Len(xs) |->
    LET js == SelectSeq([j \in 1..Len(xs) |-> j], LAMBDA j : j > i /\ ~NEq(xs[i], xs[j]))
    IN [k \in 1..Len(js) |-> LineThrough(xs[i], ys[i], xs[js[k]], ys[js[k]])]])

StrictlyInside(lim, h, eps) ==
  /\ NLt(NSub(lim.smin, eps), h[1]) /\ NLt(h[1], NAdd(lim.smax, eps))
  /\ NLt(NSub(lim.imin, eps), h[2]) /\ NLt(h[2], NAdd(lim.imax, eps))

PairLines(xs, ys, lim, eps) ==
  SelectSeq(AllPairLines(xs, ys), LAMBDA h : StrictlyInside(lim, h, eps))

-----------------------------------------------------------------------------
(* H03: equal-width bins spanning the data *)
RECURSIVE SeqMin(_), SeqMax(_)
SeqMin(s) == IF Len(s) = 1 THEN s[1] ELSE NMin(s[1], SeqMin(Tail(s)))
SeqMax(s) == IF Len(s) = 1 THEN s[1] ELSE NMax(s[1], SeqMax(Tail(s)))

Edge(lo, hi, n, k) == NAdd(lo, NDiv(NMul(k - 1, NSub(hi, lo)), n))   \* k in 1..n+1

\* v lies in bin k of the edges e, with slack eps; the last bin includes its upper edge
InBin(e, k, v, eps) ==
  /\ NLe(NSub(e[k], eps), v)
  /\ IF k = Len(e) - 1 THEN NLe(v, NAdd(e[k+1], eps)) ELSE NLt(v, NAdd(e[k+1], eps))
\* in bin k and further than eps from its inner edges
SurelyInBin(e, k, v, eps) ==
  /\ (IF k = 1 THEN NLe(e[k], NAdd(v, eps)) ELSE NLe(NAdd(e[k], eps), v))
  /\ (IF k = Len(e) - 1 THEN NLe(NSub(v, eps), e[k+1]) ELSE NLt(v, NSub(e[k+1], eps)))

CountIn(pts, xe, ye, i, j, In(_, _, _)) ==
  Cardinality({k \in 1..Len(pts) : In(xe, i, pts[k][1]) /\ In(ye, j, pts[k][2])})

Centre(e, k) == NDiv(NAdd(e[k], e[k+1]), 2)

\* the histogram and the ranked lines of a list of points
BinExact(e, k, v) == InBin(e, k, v, 0)
Histogram(pts, xe, ye) ==
  [i \in 1..(Len(xe)-1) |-> [j \in 1..(Len(ye)-1) |->
     CountIn(pts, xe, ye, i, j, LAMBDA e, k, v : InBin(e, k, v, 0))]]

(***************************************************************************)
(* ranked: sequence of bins <<i, j>>                                       *)
(***************************************************************************)
Bins(hist) == {<<i, j>> : i \in DOMAIN hist, j \in DOMAIN hist[1]}
IsRanking(hist, ranked) ==
  /\ {ranked[k] : k \in 1..Len(ranked)} = Bins(hist)
  /\ Len(ranked) = Cardinality(Bins(hist))
  /\ \A k \in 1..(Len(ranked)-1) :
       hist[ranked[k][1]][ranked[k][2]] >= hist[ranked[k+1][1]][ranked[k+1][2]]
=============================================================================
