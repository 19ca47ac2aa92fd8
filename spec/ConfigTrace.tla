---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Validates histories of configuration calls on real calibrators against  *)
(* Config.tla.  Each event has the settings given by the call (given), and *)
(* the settings, limits and plotting backend observed afterwards (obs).    *)
(***************************************************************************)
EXTENDS Config, TraceLog

VARIABLES l, st, cov

(* What a calibrator uses until told otherwise *)
Defaults ==
  [ num_slopes |-> 2000, xbins |-> 100, ybins |-> 100,
    min_wavelength |-> 3000, max_wavelength |-> 9000,
    range_tolerance |-> 500, linearity_tolerance |-> 100,
    sample_size |-> 5, top_n_candidate |-> 5, linear |-> 1, filter_close |-> 0,
    ransac_tolerance |-> 5, candidate_weighted |-> 1, hough_weight |-> 1,
    minimum_matches |-> 0, minimum_peak_utilisation |-> 0,
    minimum_fit_error |-> "7378697629483821/73786976294838206464" ]  \* the float 1e-4

\* st: sequence of calibrators [s: settings, axis: length of the pixel axis, pix: number of
\* pixels, lib: backend, lim: limits as of the last range configuration]
Same(a, b) == DOMAIN a \subseteq DOMAIN b /\ \A n \in DOMAIN a : NEq(a[n], b[n])

NearRel(a, b) == NLe(NAbs(NSub(a, b)), NMul(NAdd(1, NAbs(b)), "1/1000000000"))

LimitsOK(s, axis, lim) ==
  /\ NearRel(lim.min_intercept, MinIntercept(s))
  /\ NearRel(lim.max_intercept, MaxIntercept(s))
  /\ NearRel(lim.min_slope, NDiv(MinRise(s), axis))
  /\ NearRel(lim.max_slope, NDiv(MaxRise(s), axis))
SameLimits(a, b) ==
  /\ NEq(a.min_intercept, b.min_intercept) /\ NEq(a.max_intercept, b.max_intercept)
  /\ NEq(a.min_slope, b.min_slope) /\ NEq(a.max_slope, b.max_slope)

Invalid(ev) == ev.op = "ransac" /\ InvalidRansac(ev.given)

\* After a rejected call each setting has its old value or a valid new one
PartlyApplied(s, given, o) ==
  \A n \in DOMAIN s :
    \/ NEq(o[n], s[n])
    \/ n \in DOMAIN given /\ NEq(o[n], given[n]) /\ ~(n \in Rejectable /\ InvalidOne(n, given[n]))

InvalidNames(given) == {n \in DOMAIN given \cap Rejectable : InvalidOne(n, given[n])}

Kept(s, n, o) == NEq(o[n], s[n])

NewClauses(ev) ==
  { <<"new calibrator: every setting has its default", Same(Defaults, ev.obs.s)>>,
    <<"new calibrator: matplotlib is in use", ev.obs.lib = DefaultLibrary>>,
    <<"new calibrator: limits follow from the defaults", LimitsOK(Defaults, ev.axis, ev.obs.lim)>> }

Want(c, ev) ==
  IF ev.op \in {"hough", "ransac"} THEN Updated(c.s, ev.given) ELSE c.s

SetClauses(c, ev) ==
  LET n == ev.op
      o == ev.obs
      w == Want(c, ev)
  IN
  IF Invalid(ev)
  THEN { <<n \o ": a call with an invalid setting is rejected", ~ev.ok>>,
         <<n \o ": an invalid setting never takes effect",
            \A x \in InvalidNames(ev.given) : Kept(c.s, x, o.s)>>,
         <<n \o ": settings that were not given are kept after a rejected call",
            PartlyApplied(c.s, ev.given, o.s)>> }
  ELSE { <<n \o ": a valid configuration is accepted", ev.ok>>,
         <<n \o ": the settings given take effect",
            \A x \in DOMAIN ev.given \cap DOMAIN w : Kept(w, x, o.s)>>,
         <<n \o ": the settings not given are kept",
            \A x \in DOMAIN w \ DOMAIN ev.given : Kept(w, x, o.s)>> }

LimitClauses(c, ev) ==
  IF ev.op = "hough" /\ ev.ok
  THEN { <<"hough: the search limits follow from the wavelength limits and tolerances",
            LimitsOK(Want(c, ev), c.axis, ev.obs.lim)>> }
  ELSE IF ev.op = "transform" /\ ev.ok
  THEN { <<"transform: computed with the current search limits", SameLimits(ev.ht, c.lim)>>,
         <<"transform: leaves the limits alone", SameLimits(ev.obs.lim, c.lim)>> }
  ELSE { <<ev.op \o ": leaves the search limits alone", SameLimits(ev.obs.lim, c.lim)>> }

AxisClauses(c, ev) ==
  IF ev.op = "calib"
  THEN { <<"calib: the pixel axis is the last one given",
            NEq(ev.obs.axis, IF "axis" \in DOMAIN ev.given THEN ev.given.axis ELSE c.axis)>>,
         <<"calib: the number of pixels is the last one given",
            NEq(ev.obs.num_pix, IF "num_pix" \in DOMAIN ev.given THEN ev.given.num_pix ELSE c.pix)>> }
  ELSE { <<ev.op \o ": leaves the pixel axis alone",
            NEq(ev.obs.axis, c.axis) /\ NEq(ev.obs.num_pix, c.pix)>> }

LibWant(c, ev) ==
  IF ev.op \in {"calib", "use"} THEN Chosen(c.lib, ev.lib) ELSE c.lib
LibClauses(c, ev) ==
  { <<ev.op \o ": the backend in use is the last valid one chosen", ev.obs.lib = LibWant(c, ev)>>,
    <<ev.op \o ": exactly one backend is in use", ev.obs.nlib = 1>>,
    <<ev.op \o ": figures are made with the backend in use", ev.obs.probe \in {"none", LibWant(c, ev)}>> }

Obs(ev, c) == [s |-> [n \in DOMAIN Defaults |-> IF n \in DOMAIN ev.obs.s THEN ev.obs.s[n] ELSE "nan"],
               axis |-> ev.obs.axis, pix |-> ev.obs.num_pix, lib |-> ev.obs.lib, lim |-> ev.obs.lim]

Clauses(cs, ev) ==
  IF ev.op = "new" THEN NewClauses(ev)
  ELSE LET c == cs[ev.c]
       IN SetClauses(c, ev) \cup LimitClauses(c, ev) \cup AxisClauses(c, ev) \cup LibClauses(c, ev)

CStep(cs, ev) ==
  IF ev.op = "reset" THEN [st |-> << >>, clauses |-> {}]
  ELSE [ st |-> IF ev.op = "new" THEN Append(cs, Obs(ev, 0))
                ELSE [cs EXCEPT ![ev.c] = Obs(ev, cs[ev.c])],
         clauses |-> Clauses(cs, ev) ]

INSTANCE TraceBase WITH Step <- CStep, InitSt <- << >>
=============================================================================
