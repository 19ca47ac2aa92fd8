------------------------------- MODULE Calib -------------------------------
(***************************************************************************)
(* Calibrators and the atlases they refer to (src/rascal/calibrator.py).   *)
(* A calibrator refers to at most one atlas, possibly shared, and keeps a  *)
(* snapshot of its search space: the pairs of a detected peak and an atlas *)
(* line, optionally restricted to a polygon.                               *)
(***************************************************************************)
EXTENDS Atlas

\* every peak with every line
Product(peaks, lines) ==
  [k \in 1..(Len(peaks) * Len(lines)) |->
     LET p == ((k - 1) \div Len(lines)) + 1
         w == ((k - 1) % Len(lines)) + 1
     IN <<peaks[p], lines[w]>>]

(***************************************************************************)
(* The polygon of plausible pairs of the configuration g: between the two  *)
(* lines that connect the lowest (highest) wavelength of the first pixel   *)
(* with that of the last pixel P, both widened by the tolerances.          *)
(***************************************************************************)
LoStart(g) == NSub(NSub(g.minw, g.rt), g.ct)
HiStart(g) == NAdd(NAdd(g.minw, g.rt), g.ct)
LoEnd(g)   == NSub(NSub(g.maxw, g.rt), g.ct)
HiEnd(g)   == NAdd(NAdd(g.maxw, g.rt), g.ct)

\* w - (y0 + (y1 - y0) p / P), multiplied by P
Above(p, w, y0, y1, P) == NSub(NMul(NSub(w, y0), P), NMul(NSub(y1, y0), p))

InPolygon(g, P, x) ==
  /\ NLe(0, x[1]) /\ NLe(x[1], P)
  /\ NLe(0, Above(x[1], x[2], LoStart(g), LoEnd(g), P))
  /\ NLe(Above(x[1], x[2], HiStart(g), HiEnd(g), P), 0)

\* on the edge of the polygon, up to rounding
OnEdge(g, P, x, eps) ==
  \/ NNear(x[1], 0, eps) \/ NNear(x[1], P, eps)
  \/ NNear(Above(x[1], x[2], LoStart(g), LoEnd(g), P), 0, NMul(eps, P))
  \/ NNear(Above(x[1], x[2], HiStart(g), HiEnd(g), P), 0, NMul(eps, P))

SearchSpace(peaks, lines, g, P) ==
  IF g.cp THEN SelectSeq(Product(peaks, lines), LAMBDA x : InPolygon(g, P, x))
  ELSE Product(peaks, lines)

\* default range of a library request made through a calibrator
DefaultLo(g) == NSub(g.minw, g.rt)
DefaultHi(g) == NAdd(g.maxw, g.rt)
=============================================================================
