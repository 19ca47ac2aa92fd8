----------------------------- MODULE PlotTrace ------------------------------
(* Validates plots made by the real package against Plot.tla.  The state   *)
(* is what the calibrator showed after the last change: digests of its     *)
(* parts, the data the plots are made of, and whether they are there.      *)
EXTENDS Plot, TraceLog

VARIABLES l, st, cov

EPS == "1/1000000"
SetOf(s) == {s[k] : k \in 1..Len(s)}
Num2(x) == NIsNum(x)
AllNums(s) == \A k \in 1..Len(s) : NIsNum(s[k])

\* same points, in any order
Same(s, xs, ys) ==
  /\ Len(s.x) = Len(xs) /\ Len(s.y) = Len(xs) /\ Len(ys) = Len(xs)
  /\ \/ \A k \in 1..Len(xs) : NNear(s.x[k], xs[k], EPS) /\ NNear(s.y[k], ys[k], EPS)
     \/ /\ \A k \in 1..Len(xs) : \E j \in 1..Len(xs) : NNear(s.x[j], xs[k], EPS) /\ NNear(s.y[j], ys[k], EPS)
        /\ \A j \in 1..Len(xs) : \E k \in 1..Len(xs) : NNear(s.x[j], xs[k], EPS) /\ NNear(s.y[j], ys[k], EPS)
Shown(ev, xs, ys) == \E k \in 1..Len(ev.series) : Same(ev.series[k], xs, ys)
Marked(vs, xs) == \A k \in 1..Len(xs) : \E j \in 1..Len(vs) : NNear(vs[j], xs[k], EPS)

\* the logarithm of nothing is left open
Positive(sp) == \A k \in 1..Len(sp) : NLt(0, sp[k])

ArcShows(s, ev) ==
  LET pix == IF ev.pixels = << >> THEN [k \in 1..Len(s.spectrum) |-> k - 1] ELSE ev.pixels IN
  (IF ev.log /\ ~Positive(s.spectrum) THEN {} ELSE
   {<<"arc: shows the spectrum relative to its maximum at its pixels", Shown(ev, pix, Relative(s.spectrum, ev.log))>>})
  \cup
  {<<"arc: marks every detected peak", Marked(ev.vx, s.peaks)>>}

Given(s, ev) == IF ev.coef = << >> THEN s.coef ELSE ev.coef

FitShows(s, ev) ==
  LET c    == Given(s, ev)
      w    == Wave(c, s.pixels)
      L10(v) == Log10(v)
      raw  == IF ev.spectrum = << >> THEN s.spectrum ELSE ev.spectrum
      ok   == ~ev.log \/ Positive(raw)
      spec == IF ev.log /\ ok THEN Map(L10, raw) ELSE raw
      pk   == Wave(c, s.peaks)
      near == [k \in 1..Len(pk) |-> s.lines[Closest(s.lines, pk[k])]]
      in   == {k \in 1..Len(pk) : NLt(NAbs(NSub(near[k], pk[k])), ev.tol)}
      sel  == SelectSeq([k \in 1..Len(pk) |-> k], LAMBDA k : k \in in)
      mp   == IF ev.lib = "matplotlib" THEN s.mp ELSE [k \in 1..Len(sel) |-> s.peaks[sel[k]]]
      ml   == IF ev.lib = "matplotlib" THEN s.mw ELSE [k \in 1..Len(sel) |-> near[sel[k]]]
      mw   == Wave(c, mp) IN
  (IF raw = << >> \/ ~ok THEN {} ELSE {<<"fit: shows the spectrum at the fitted wavelengths", Shown(ev, w, spec)>>})
  \cup
  {<<"fit: shows the solution", Shown(ev, w, s.pixels)>>,
   <<"fit: shows the fitted peaks on the solution", Shown(ev, mw, mp)>>,
   <<"fit: shows the residual of every fitted peak", Shown(ev, mw, [k \in 1..Len(mp) |-> NSub(ml[k], mw[k])])>>}
  \cup (IF (raw # << >> /\ ok) \/ ev.lib = "plotly" THEN {<<"fit: marks every detected peak", Marked(ev.vx, pk)>>} ELSE {})
  \cup (IF ev.lib = "matplotlib" /\ ev.atlas THEN {<<"fit: marks every line of the atlas", Marked(ev.vx, s.lines)>>} ELSE {})

SearchShows(s, ev) ==
  {<<"search: shows the pairs", Shown(ev, s.pairs.x, s.pairs.y)>>,
   <<"search: shows the candidates", AllNums(ev.cand.x) => Shown(ev, ev.cand.x, ev.cand.y)>>,
   <<"search: shows the best candidates", AllNums(ev.best.x) => Shown(ev, ev.best.x, ev.best.y)>>,
   <<"search: shows the limits and their tolerance",
     Marked(ev.hy, Levels(s.lo, s.hi, s.tol))>>,
   <<"search: shows the boundaries of the search space",
     LET ts == <<0, s.tol, NNeg(s.tol)>> IN
     \A k \in 1..3 : Shown(ev, s.pixels, Boundary(s.pixels, s.lo, s.hi, ts[k]))>>,
   <<"search: pixels and wavelengths are labelled as such", ev.xlabel = "pixel" /\ ev.ylabel = "wavelength">>}
  \cup (IF ev.coef = << >> THEN {} ELSE {<<"search: shows the solution given", Shown(ev, s.peaks, Wave(ev.coef, s.peaks))>>})

LinesShow(s, ev) ==
  {<<"lines: shows every selected line of each element with its intensity",
     \A k \in 1..Len(ev.sel) : Shown(ev, ev.sel[k].x, ev.sel[k].y)>>}

PlotClauses(s, ev) ==
  LET lib == IF ev.kind = "lines" THEN "matplotlib" ELSE s.lib
      can == Possible(ev.kind, s.data) IN
  (IF can THEN {<<"plot: can be made from the data there", ev.ok>>} ELSE {})
  \cup
  {<<"read-only: the calibrator is as before", ev.after = s.dig>>,
   <<"read-only: the arguments are as before", ev.arg0 = ev.arg1>>,
   <<"files: exactly those asked for are written",
      IF ev.ok THEN SetOf(ev.files) = Files(ev.kind, lib, ev.save, SetOf(ev.types), ev.name)
      ELSE SetOf(ev.files) \subseteq Files(ev.kind, lib, ev.save, SetOf(ev.types), ev.name)>>}
  \cup IF ~ev.ok THEN {} ELSE
  {<<"files: each is of the type asked for", ev.wrong = << >>>>,
   <<"returns: is displayed exactly if asked for", Displayed(ev.display, ev.json, ev.shown)>>,
   <<"returns: the json string exactly if asked for with plotly, the figure with matplotlib", ev.ret = Returns(lib, ev.json)>>}
  \cup CASE ~ev.seen -> {}
         [] ev.kind = "arc" -> ArcShows(s, ev)
         [] ev.kind = "fit" -> FitShows(s, ev)
         [] ev.kind = "search" -> SearchShows(s, ev)
         [] OTHER -> LinesShow(s, ev)

S0 == [lib |-> "", dig |-> ""]
PStep(s, ev) ==
  CASE ev.op = "reset" -> [st |-> S0, clauses |-> {}]
    [] ev.op = "state" -> [st |-> ev.s, clauses |-> {}]
    [] ev.op = "library" -> [st |-> ev.s, clauses |-> {<<"library: the one chosen is used", ev.which = ev.lib>>}]
    [] ev.op = "plot" -> [st |-> [s EXCEPT !.dig = ev.after], clauses |-> PlotClauses(s, ev)]
    [] ev.op = "twin" -> [st |-> s, clauses |-> {<<"read-only: every later result is the same as without the plots", ev.a = ev.b>>}]

INSTANCE TraceBase WITH Step <- PStep, InitSt <- S0
=============================================================================
