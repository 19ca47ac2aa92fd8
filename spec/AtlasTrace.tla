----------------------------- MODULE AtlasTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of real rascal.Atlas objects (and of       *)
(* calibrators used through their atlas calls) against Atlas.tla.          *)
(*                                                                         *)
(* Events: [op, a, ..., ok, obs]: ok is whether the call returned, obs the *)
(* listings of every atlas after the call.                                 *)
(***************************************************************************)
EXTENDS Atlas, TraceLog

VARIABLES l, st, cov

SeqEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NEq(s[k], t[k])
StrEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : s[k] = t[k]

LinesEq(atlas, o) ==
  SeqEq(Wavelengths(atlas), o.w) /\ StrEq(Elements(atlas), o.e) /\ SeqEq(Intensities(atlas), o.i)

\* the three listings and the length agree with each other
AlignedObs(o) == Len(o.w) = Len(o.e) /\ Len(o.w) = Len(o.i) /\ o.n = Len(o.w)

FromObs(o) == IF AlignedObs(o)
              THEN [k \in 1..Len(o.w) |-> Line(o.w[k], o.e[k], o.i[k])]
              ELSE << >>

\* a printed listing mentions every line, in order
ListedObs(o) == o.listed = Len(o.w)

Sum(ss) == LET RECURSIVE F(_)
               F(k) == IF k > Len(ss) THEN << >> ELSE ss[k] \o F(k + 1)
           IN F(1)
LibLines(lib) == Sum([k \in 1..Len(lib) |-> UserLines(lib[k].w, lib[k].e, lib[k].i, TRUE)])

\* expected content of atlas number ev.a after the operation
After(s, ev) ==
  CASE ev.op = "new"    -> << >>
    [] ev.op = "newlib" -> LibLines(ev.lib)
    [] ev.op = "add"    -> AddLines(s[ev.a], UserLines(ev.ws, ev.es, ev.is, ev.h))
    [] ev.op = "addlib" -> AddLines(s[ev.a], LibLines(ev.lib))
    [] ev.op = "remove" -> RemoveRange(s[ev.a], ev.w, ev.tol)
    [] ev.op = "clear"  -> << >>
    [] OTHER            -> s[ev.a]

Valid(ev) == ev.op = "add" => UserArgsOK(ev.ws, ev.es, ev.is, ev.h)

Name(ev) ==
  CASE ev.op \in {"new", "newlib"} -> "construct"
    [] ev.op = "add"    -> "add-user-lines"
    [] ev.op = "addlib" -> "add-library-lines"
    [] ev.op = "remove" -> "remove-range"
    [] ev.op = "clear"  -> "clear"
    [] OTHER            -> ev.op

AStep(s, ev) ==
  LET grown == IF ev.a > Len(s) THEN Append(s, << >>) ELSE s
      want  == IF Valid(ev) THEN After(grown, ev) ELSE grown[ev.a]
      n     == Name(ev)
  IN
  IF ev.op = "reset" THEN [st |-> << >>, clauses |-> {}]
  ELSE
  [ st |-> [k \in 1..Len(ev.obs) |-> FromObs(ev.obs[k])],
    clauses |->
      { <<n \o ": the call succeeds exactly for valid arguments", ev.ok = Valid(ev)>>,
        <<n \o ": the atlas holds exactly the expected lines in order", LinesEq(want, ev.obs[ev.a])>>,
        <<n \o ": wavelength, element, intensity listings and length agree",
            \A k \in 1..Len(ev.obs) : AlignedObs(ev.obs[k])>>,
        <<n \o ": the printed listing shows the lines in order",
            \A k \in 1..Len(ev.obs) : ListedObs(ev.obs[k])>>,
        <<n \o ": other atlases are unchanged",
            \A k \in 1..Len(grown) : k # ev.a => LinesEq(grown[k], ev.obs[k])>> } ]

INSTANCE TraceBase WITH Step <- AStep, InitSt <- << >>
=============================================================================
