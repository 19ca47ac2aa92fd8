------------------------------- MODULE Atlas -------------------------------
(***************************************************************************)
(* Atlases of arc lines (src/rascal/atlas.py): ordered collections of      *)
(* lines [w: wavelength, e: element, i: intensity].                        *)
(*                                                                         *)
(* The first part are the pure operators that the exhaustive model below   *)
(* and the trace specifications (AtlasTrace, CalibTrace) share.            *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

Line(w, e, i) == [w |-> w, e |-> e, i |-> i]

\* Lines of a user supplied list; without intensities they are 0
UserLines(ws, es, is, hasInt) ==
  [k \in 1..Len(ws) |-> Line(ws[k], es[k], IF hasInt THEN is[k] ELSE 0)]

UserArgsOK(ws, es, is, hasInt) ==
  Len(ws) = Len(es) /\ (hasInt => Len(is) = Len(es))

AddLines(atlas, new) == atlas \o new

Within(ln, w, tol) == NLt(NAbs(NSub(ln.w, w)), tol)

RemoveRange(atlas, w, tol) ==
  SelectSeq(atlas, LAMBDA ln : ~Within(ln, w, tol))

\* The three listings and the length
Wavelengths(atlas) == [k \in 1..Len(atlas) |-> atlas[k].w]
Elements(atlas)    == [k \in 1..Len(atlas) |-> atlas[k].e]
Intensities(atlas) == [k \in 1..Len(atlas) |-> atlas[k].i]
=============================================================================
