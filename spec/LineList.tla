------------------------------ MODULE LineList ------------------------------
(***************************************************************************)
(* Selection of calibration lines from a line list (src/rascal/util.py,    *)
(* load_calibration_lines; also behind every library addition to an        *)
(* atlas).  A line of the list is [e: element as written, lc: element in   *)
(* lower case, w: wavelength in vacuum, a: wavelength in air under the     *)
(* conditions of the request, i: intensity].                               *)
(*                                                                         *)
(* A request is [els: lower case element names, lo, hi: range, int: mode   *)
(* 0 none / 1 number / 2 per element, ints: thresholds, n: brightest n     *)
(* (-1: all), d: separation, vac: TRUE if vacuum wavelengths are wanted].  *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt

\* stage 1: the elements; the first entry of a repeated wavelength counts
OfElements(list, els) == SelectSeq(list, LAMBDA x : \E k \in 1..Len(els) : x.lc = els[k])

Distinct(list) ==
  LET RECURSIVE F(_, _)
      F(k, acc) == IF k > Len(list) THEN acc
                   ELSE F(k + 1, IF \E m \in 1..Len(acc) : NEq(acc[m].w, list[k].w)
                                 THEN acc ELSE Append(acc, list[k]))
  IN F(1, << >>)

ByWavelength(list) == SortSeq(list, LAMBDA x, y : NLt(x.w, y.w))

\* stage 2: the range, in the medium of the result.  In air the limits are
\* compared within slack because the conversion of the limits is inexact.
Medium(x, vac) == IF vac THEN x.w ELSE x.a
InRange(x, r) == NLe(r.lo, Medium(x, r.vac)) /\ NLe(Medium(x, r.vac), r.hi)
RangeBorderline(x, r, eps) ==
  ~r.vac /\ (NNear(x.a, r.lo, eps) \/ NNear(x.a, r.hi, eps))

\* stage 3: the intensity
Threshold(x, r) ==
  IF r.int = 1 THEN r.ints[1]
  ELSE r.ints[CHOOSE k \in 1..Len(r.els) : r.els[k] = x.lc]
Bright(x, r) == r.int = 0 \/ NLe(Threshold(x, r), x.i)

Qualifying(list, r) ==
  SelectSeq(ByWavelength(Distinct(OfElements(list, r.els))),
            LAMBDA x : InRange(x, r) /\ Bright(x, r))

\* stage 4: the brightest n.  Relational because of equally bright lines:
\* sel is a subsequence of q with the right number of lines, and no line left
\* out is brighter than a line kept.
Card(q, n) == IF n < 0 \/ n > Len(q) THEN Len(q) ELSE n
Brighter(q, x) == Cardinality({k \in 1..Len(q) : NLt(x.i, q[k].i)})
AtLeast(q, x)  == Cardinality({k \in 1..Len(q) : NLe(x.i, q[k].i)})
MustKeep(q, n, x) == AtLeast(q, x) <= Card(q, n)
MayKeep(q, n, x)  == Brighter(q, x) < Card(q, n)
Tied(q, n) == \E k \in 1..Len(q) : MayKeep(q, n, q[k]) /\ ~MustKeep(q, n, q[k])
Brightest(q, n) == SelectSeq(q, LAMBDA x : MustKeep(q, n, x))   \* when not Tied

\* stage 5: the separation from both neighbours (in vacuum)
Isolated(q, k, d) ==
  /\ k > 1 => NLe(d, NSub(q[k].w, q[k-1].w))
  /\ k < Len(q) => NLe(d, NSub(q[k+1].w, q[k].w))
IsolationBorderline(q, k, d, eps) ==
  \/ k > 1 /\ NNear(d, NSub(q[k].w, q[k-1].w), eps)
  \/ k < Len(q) /\ NNear(d, NSub(q[k+1].w, q[k].w), eps)
Keep(q, d) == {k \in 1..Len(q) : Isolated(q, k, d)}
Separated(q, d) ==
  IF NLe(d, 0) THEN q
  ELSE LET RECURSIVE F(_)
           F(k) == IF k > Len(q) THEN << >>
                   ELSE (IF Isolated(q, k, d) THEN <<q[k]>> ELSE << >>) \o F(k + 1)
       IN F(1)

\* the whole selection, for requests without ties
Selected(list, r) == Separated(Brightest(Qualifying(list, r), r.n), r.d)
=============================================================================
