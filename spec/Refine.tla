------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Refinement of peak positions.  A spectrum of len pixels is described by *)
(* its lines, records [c |-> centre, s |-> width]; a line gives light to   *)
(* the pixels within REACH widths of its centre only.                      *)
(***************************************************************************)
EXTENDS Num

REACH == 8

\* Pixels Lo..Hi-1 looked at for an initial position in whole pixels
Lo(p, w) == NMax(0, NSub(p, w))
Hi(p, w, len) == NMin(NAdd(p, w), len)
Off(p, w, len) == NLe(Hi(p, w, len), Lo(p, w))

\* the line gives light to some pixel of the window
Lights(ln, p, w, len) == /\ NLe(Lo(p, w), NAdd(ln.c, NMul(REACH, ln.s)))
                         /\ NLe(NSub(ln.c, NMul(REACH, ln.s)), NSub(Hi(p, w, len), 1))
Seen(lines, p, w, len) == IF Off(p, w, len) THEN {} ELSE {k \in 1..Len(lines) : Lights(lines[k], p, w, len)}

Blank(lines, p, w, len) == Seen(lines, p, w, len) = {}
\* One line only, its centre well in the window and its shape resolved
Inside(ln, p, w, len) == NLe(Lo(p, w), ln.c) /\ NLe(ln.c, NSub(Hi(p, w, len), 1)) /\ NLe(NMul(3, NAbs(NSub(ln.c, p))), w)
Clear(lines, p, w, len) == \E k \in 1..Len(lines) : Seen(lines, p, w, len) = {k} /\ Inside(lines[k], p, w, len)
Centre(lines, p, w, len) == lines[CHOOSE k \in 1..Len(lines) : Seen(lines, p, w, len) = {k}].c

\* Found: what the peaks from the k-th on add to the positions found so far
RECURSIVE Refined(_, _, _, _, _)
Refined(lines, peaks, w, len, got) ==
  IF peaks = << >> THEN got
  ELSE LET p == Head(peaks) IN
       IF ~Clear(lines, p, w, len) THEN Refined(lines, Tail(peaks), w, len, got)
       ELSE LET c == Centre(lines, p, w, len) IN
            IF (\E k \in 1..Len(got) : NEq(got[k], c)) THEN Refined(lines, Tail(peaks), w, len, got)
            ELSE Refined(lines, Tail(peaks), w, len, Append(got, c))

\* every peak is either clear or blank: the result is determined
Determined(lines, peaks, w, len) == \A k \in 1..Len(peaks) : Clear(lines, peaks[k], w, len) \/ Blank(lines, peaks[k], w, len)
=============================================================================
