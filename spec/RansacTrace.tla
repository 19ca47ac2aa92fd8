----------------------------- MODULE RansacTrace -----------------------------
(***************************************************************************)
(* Validates sessions (settings of known pairs, changes of the atlas and   *)
(* fits) of real calibrators against Ransac.tla.                           *)
(*                                                                         *)
(* A fit is logged with the candidates it worked on, all its different     *)
(* trials (sample and trial polynomial; weight: Hough weight of the score) *)
(* and its outcome.  What is judged on rounding-sensitive comparisons is   *)
(* three-valued: a trial is surely, possibly or not admissible.            *)
(***************************************************************************)
EXTENDS Ransac, TraceLog

VARIABLES l, st, cov

SeqEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NEq(s[k], t[k])
EPS  == "1/1000000"
TINY == "1/1000000000"

G(s, ev) == [mini |-> NSub(ev.minw, ev.rt), maxi |-> NAdd(ev.minw, ev.rt), deg |-> ev.deg, tol |-> ev.tol,
             mf |-> ev.mf, mm |-> ev.mm, mpu |-> ev.mpu, np |-> Len(s.peaks), nl |-> Len(s.lines)]
Zip(ps, ws) == [k \in 1..Len(ps) |-> [p |-> ps[k], w |-> ws[k]]]
Distinct2(v) == Cardinality({k \in 1..Len(v) : \A j \in 1..(k-1) : ~NEq(v[j], v[k])})

-----------------------------------------------------------------------------
(* exact least-squares line and its residuals *)
LineRes(q) ==
  LET n  == Len(q)
      mx == NDiv(NSum([k \in 1..n |-> q[k].p]), n)
      my == NDiv(NSum([k \in 1..n |-> q[k].w]), n)
      dx == TLCEval([k \in 1..n |-> NSub(q[k].p, mx)])
      dy == TLCEval([k \in 1..n |-> NSub(q[k].w, my)])
      b  == NDiv(NSum([k \in 1..n |-> NMul(dx[k], dy[k])]), SumSq(dx))
  IN TLCEval([k \in 1..n |-> NSub(NMul(b, dx[k]), dy[k])])

\* is the error of the refit at least mf: "yes", "no", "?"
ErrorOK(g, q) ==
  IF NEq(g.mf, 0) THEN "yes"
  ELSE IF g.deg # 1 THEN "?"
  ELSE LET ms == MeanSq(ClipAll(LineRes(q), g.tol))
           lo == NSub(g.mf, EPS)   hi == NAdd(g.mf, EPS)
       IN IF NLt(NMul(hi, hi), ms) THEN "yes"
          ELSE IF NLt(0, lo) /\ NLt(ms, NMul(lo, lo)) THEN "no" ELSE "?"

Borderline(m, tol) == \E k \in 1..Len(m) : NNear(m[k].e, tol, TINY)

\* everything that matters about a polynomial
Eval(g, rows, coef, weight) ==
  LET m == TLCEval(MatchOf(rows, coef))
      q == TLCEval(Inliers(m, g.tol))
      b == Borderline(m, g.tol)
      e == IF Len(q) > g.deg THEN ErrorOK(g, q) ELSE "no"
  IN [q |-> q, b |-> b, s |-> Score(m, g, weight),
      maybe |-> PlausibleMaybe(g, rows, coef, TINY) /\ (b \/ (EnoughOf(g, Len(q), TINY) /\ e # "no")),
      plaus |-> PlausibleMaybe(g, rows, coef, TINY),
      sure  |-> Len(m) > g.deg /\ ~b /\ Enough(g, Len(q)) /\ e = "yes" /\ PlausibleSurely(g, rows, coef, TINY)]

SamePairs(q, r) ==
  /\ Len(q) = Len(r)
  /\ \A a \in 1..Len(q) : \E b \in 1..Len(r) : NEq(q[a].p, r[b].p) /\ NEq(q[a].w, r[b].w)

-----------------------------------------------------------------------------
(* known pairs in a sample *)
PairIn(p, w, xs, ys) == \E k \in 1..Len(xs) : NEq(xs[k], p) /\ NEq(ys[k], w)
HasKnown(kn, t) == \A k \in 1..Len(kn) : PairIn(kn[k].p, kn[k].w, t.xs, t.ys)
\* the sample without the known pairs, wherever these are
RECURSIVE Without(_, _, _)
DropOne(sq, x) ==
  LET ks == {k \in 1..Len(sq) : NEq(sq[k].p, x.p) /\ NEq(sq[k].w, x.w)}
  IN IF ks = {} THEN sq ELSE LET k == CHOOSE k \in ks : \A j \in ks : j <= k
                             IN SubSeq(sq, 1, k - 1) \o SubSeq(sq, k + 1, Len(sq))
Without(sq, kn, k) == IF k > Len(kn) THEN sq ELSE Without(DropOne(sq, kn[k]), kn, k + 1)
Drawn(t, kn) == Without(Zip(t.xs, t.ys), kn, 1)

SampleOK(rows, t, kn, size, brute) ==
  LET d == Drawn(t, kn) IN
  /\ Len(d) = size
  /\ FromCandidates(rows, [k \in 1..Len(d) |-> d[k].p], [k \in 1..Len(d) |-> d[k].w])
  /\ ~brute => /\ DistinctSeq([k \in 1..Len(d) |-> d[k].p]) /\ DistinctSeq([k \in 1..Len(d) |-> d[k].w])

\* number of samples of distinct peaks and distinct lines
RECURSIVE Combos(_, _, _, _)
Combos(cs, k, size, chosen) ==
  IF size = 0 THEN 1
  ELSE IF Len(cs) - k + 1 < size THEN 0
  ELSE Combos(cs, k + 1, size, chosen)
       + IF \E j \in 1..Len(chosen) : NEq(chosen[j].p, cs[k].p) \/ NEq(chosen[j].w, cs[k].w) THEN 0
         ELSE Combos(cs, k + 1, size - 1, Append(chosen, cs[k]))

-----------------------------------------------------------------------------
(* candidates (F08) *)
CandsOf(cand, p) == SelectSeq(cand, LAMBDA x : NEq(x.p, p))
CandClauses(s, ev, cand) ==
  LET near(p, w, tol) == IF ev.linear
                         THEN \E k \in 1..Len(ev.hough) : NearLine(p, w, ev.hough[k], tol)
                         ELSE NLe(Err(NPoly(ev.base, p), w), NAdd(ev.rt, tol))
      sure == NSub(ev.ct, EPS)
      lim  == NAdd(ev.ct, EPS)
  IN
  {<<"candidates: pairs of the search space",
      \A k \in 1..Len(cand) : Among(cand[k].p, s.peaks) /\ Among(cand[k].w, s.lines)>>,
   <<"candidates: within the tolerance of a Hough line or of the shifted baseline",
      \A k \in 1..Len(cand) : near(cand[k].p, cand[k].w, lim)>>,
   <<"candidates: no more than configured per peak, each once",
      \A k \in 1..Len(s.peaks) : LET c == CandsOf(cand, s.peaks[k]) IN
         Len(c) <= ev.topn /\ DistinctSeq([j \in 1..Len(c) |-> c[j].w])>>}
  \cup (IF ~ev.linear THEN {} ELSE
  LET supp(p, w, tol) == IF ev.weighted
                         THEN LET ks == {k \in 1..Len(ev.sup) : NEq(ev.sup[k][1], p) /\ NEq(ev.sup[k][2], w)}
                              IN IF ks = {} THEN 0 ELSE ev.sup[CHOOSE k \in ks : TRUE][3]
                         ELSE Support(p, w, ev.hough, tol)
  IN
  {<<"candidates: every peak near a Hough line has one",
      \A k \in 1..Len(s.peaks) :
        (\E j \in 1..Len(s.lines) : near(s.peaks[k], s.lines[j], sure)) => CandsOf(cand, s.peaks[k]) # << >>>>,
   <<"candidates: the most supported lines of the peak",
      \A k \in 1..Len(s.peaks) :
        LET p == s.peaks[k]
            c == CandsOf(cand, p)
            out == SelectSeq(s.lines, LAMBDA w : near(p, w, sure) /\ ~\E j \in 1..Len(c) : NEq(c[j].w, w))
        IN out # << >> =>
             /\ Len(c) = ev.topn
             /\ \A j \in 1..Len(c), m \in 1..Len(out) :
                  NLe(supp(p, out[m], sure), NAdd(supp(p, c[j].w, lim), EPS))>>})

-----------------------------------------------------------------------------
ReportClauses(s, ev, g, q, isBase) ==
  LET lg == Len(ev.res) = Len(q)
      raw(k) == NSub(NPoly(ev.coef, q[k].p), q[k].w)
  IN
  {<<"report: residuals are the prediction of the returned coefficients minus the lines, limited by the tolerance",
      lg /\ \A k \in 1..Len(q) :
        \/ NNear(ev.res[k], Clip(raw(k), g.tol), EPS)
        \/ NNear(NAbs(raw(k)), g.tol, EPS) /\ (NNear(ev.res[k], raw(k), EPS) \/ NNear(ev.res[k], g.tol, EPS))>>,
   <<"report: the error is the root mean square of the residuals", lg /\ Len(q) > 0 /\ IsRms(ev.rms, ev.res, "1/100000000")>>,
   <<"report: utilisations are matches over peaks and over lines",
      /\ NNear(NMul(ev.pu, Len(s.peaks)), Len(q), TINY) /\ NNear(NMul(ev.au, Len(s.lines)), Len(q), TINY)>>,
   <<"report: the calibrator holds what it returned",
      /\ SeqEq(ev.held.coef, ev.coef) /\ SeqEq(ev.held.p, ev.p) /\ SeqEq(ev.held.w, ev.w)
      /\ NEq(ev.held.rms, ev.rms) /\ SeqEq(ev.held.res, ev.res)
      /\ NEq(ev.held.pu, ev.pu) /\ NEq(ev.held.au, ev.au)>>,
   <<"report: the coefficients have the requested degree", Len(ev.coef) = g.deg + 1>>}
  \cup (IF isBase \/ Len(q) <= g.deg \/ ~IsStd(ev.std, [k \in 1..Len(q) |-> q[k].w]) \/ ev.ref = << >> THEN {} ELSE
   {<<"report: the coefficients are the least-squares polynomial of the matched pairs",
      NoWorse(ev.coef, ev.ref, [k \in 1..Len(q) |-> q[k].p], [k \in 1..Len(q) |-> q[k].w], ev.std,
              EPS, NMul(TINY, Len(q)))>>})

MatchedClauses(s, ev, q) ==
  {<<"match: peaks and lines are paired by position", Len(ev.p) = Len(ev.w)>>,
   <<"match: every matched peak is a detected peak", \A k \in 1..Len(ev.p) : Among(ev.p[k], s.peaks)>>,
   <<"match: every matched line is a line of the atlas", \A k \in 1..Len(ev.w) : Among(ev.w[k], s.lines)>>,
   <<"match: no peak and no line is used twice", IsOneToOne(q)>>}

ThresholdClauses(g, ev, q) ==
  {<<"thresholds: minimum matches", Len(q) >= EffectiveMatches(g)>>,
   <<"thresholds: minimum peak utilisation", NGe(NAdd(Len(q), TINY), NMul(g.mpu, g.np))>>,
   <<"thresholds: more matches than the degree", Len(q) > g.deg>>,
   <<"thresholds: minimum error", NGe(ev.rms, NSub(g.mf, TINY))>>}

\* sample size: the one requested, as far as there are lines and peaks, but enough for the degree
EffSize(ev, rows) ==
  LET n == MinI(ev.ss, ev.nl) IN MinI(IF n > ev.deg THEN n ELSE ev.deg + 1, Len(rows))

\* with the complete list of trials
TrialClauses(s, ev, g, rows, q) ==
  LET size == EffSize(ev, rows)
      es   == TLCEval([k \in 1..Len(ev.trials) |-> Eval(g, rows, ev.trials[k].coef, ev.trials[k].weight)])
      hasB == ev.base # << >>
      eb   == IF hasB THEN Eval(g, rows, ev.base, ev.bweight) ELSE [q |-> << >>]
      bIn  == hasB /\ Len(eb.q) > 0 /\ ~eb.b /\ Len(rows) > g.deg
      bScored == bIn /\ NLt(0, eb.s.d)
      Le(a, b) == ScoreLe(a, b, IF NEq(ev.hw, 0) THEN TINY ELSE "1/1000000")
  IN
  IF ~ev.ok
  THEN {<<"search: it fails only if there is no admissible trial and no baseline",
          /\ \A k \in 1..Len(es) : ~es[k].sure
          /\ ~bIn>>}
  ELSE
  LET T == {k \in 1..Len(es) : SamePairs(es[k].q, q) \/ (es[k].b /\ es[k].maybe)}
      isB == hasB /\ SeqEq(ev.coef, ev.base) /\ (eb.b \/ SamePairs(eb.q, q))
      good == {k \in T : es[k].plaus /\ SampleOK(rows, ev.trials[k], s.known, size, ev.brute)
                         /\ IsLeastSquares(ev.trials[k].coef, ev.trials[k].xs, ev.trials[k].ys, TINY)}
  IN
  {<<"search: the match is within the tolerance of a trial", isB \/ T # {}>>,
   <<"search: the match is that of a plausible trial of a proper sample", isB \/ good # {}>>,
   <<"search: no admissible trial has a lower score",
      \/ isB /\ (bScored => \A j \in 1..Len(es) : es[j].sure => Le(eb.s, es[j].s))
      \/ \E k \in T : /\ es[k].maybe
                      /\ \A j \in 1..Len(es) : es[j].sure => Le(es[k].s, es[j].s)
                      /\ bScored => Le(es[k].s, eb.s)>>}

\* a line on which every peak has a candidate exactly: trials of its pairs are perfect, whatever
\* the degree and the basis the samples are fitted in
ExactlyOn(rows, a, b) == \A k \in 1..Len(rows) : \E j \in 1..Len(rows[k].c) :
                           NEq(rows[k].c[j], NAdd(a, NMul(b, rows[k].p)))
ExactLine(g, rows) ==
  LET n == Len(rows) IN
  \E i \in 1..Len(rows[1].c), j \in 1..Len(rows[n].c) :
    LET b == NDiv(NSub(rows[n].c[j], rows[1].c[i]), NSub(rows[n].p, rows[1].p))
        a == NSub(rows[1].c[i], NMul(b, rows[1].p))
    IN NLt(0, b) /\ ExactlyOn(rows, a, b) /\ PlausibleSurely(g, rows, <<a, b>>, TINY)
ExactClauses(s, ev, g, rows) ==
  IF /\ Len(rows) > g.deg /\ Len(rows) > 1 /\ s.known = << >> /\ NEq(g.mf, 0) /\ Enough(g, Len(rows))
     /\ ev.brute \/ \A k \in 1..Len(rows) : Len(rows[k].c) = 1
     /\ ExactLine(g, rows)
  THEN {<<"search: it fails not if a perfect solution is among the trials", ev.ok>>} ELSE {}

\* every peak has one line that is possible at all, and these lie on the middle of the limits
Easy(s, ev, g) ==
  LET mid(p) == NAdd(ev.minw, NMul(NDiv(NSub(ev.maxw, ev.minw), ev.npix), p))
      d == NAdd(NMul(4, NAdd(ev.rt, ev.lt)), ev.ct)
      poss(p) == {j \in 1..Len(s.lines) : NLe(NAbs(NSub(s.lines[j], mid(p))), d)}
      n == Len(s.peaks)
  IN /\ ev.linear /\ ev.base = << >> /\ s.known = << >> /\ NEq(g.mf, 0) /\ ~ev.filter /\ n > g.deg /\ Enough(g, n)
     /\ NGe(ev.ct, NAdd(ev.rt, ev.lt)) /\ DistinctSeq(s.peaks) /\ DistinctSeq(s.lines) /\ ev.tries >= 1
     /\ \A k \in 1..n : /\ Cardinality(poss(s.peaks[k])) = 1
                        /\ \A j \in poss(s.peaks[k]) : NEq(s.lines[j], mid(s.peaks[k]))

CountClauses(s, ev, g, cand, rows) ==
  LET size == EffSize(ev, rows) IN
  IF ev.brute
  THEN {<<"trials: brute force makes at most one trial per combination", ev.n <= Choose(Len(cand), size)>>}
       \cup IF Len(rows) <= g.deg THEN {} ELSE
       IF ~ev.full
       THEN {<<"trials: brute force makes a trial per combination of distinct peaks and lines",
               ev.n >= Combos(cand, 1, size, << >>)>>} ELSE
       {<<"trials: brute force tries every combination of distinct peaks and lines",
          Combos(cand, 1, size, << >>)
            = Cardinality({k \in 1..Len(ev.trials) : SampleOK(rows, ev.trials[k], s.known, size, FALSE)})>>}
  ELSE {<<"trials: at most a fixed multiple of the requested tries", ev.n <= 1000 * ev.tries>>}
       \cup IF Len(rows) <= g.deg \/ ~AlwaysDrawable(rows, size) THEN {} ELSE
       {<<"trials: at least as many as requested if samples can be drawn", ev.n >= ev.tries>>}

FitClauses(s, ev) ==
  LET g == G(s, ev)
      q == IF Len(ev.p) = Len(ev.w) THEN TLCEval(Zip(ev.p, ev.w)) ELSE << >>
      isBase == ev.base # << >> /\ SeqEq(ev.coef, ev.base)
      cand == TLCEval(Zip(ev.cp, ev.cw))
      used == TLCEval(IF ev.filter THEN FilterClose(cand, g.tol) ELSE cand)
      rows == TLCEval(Group(used))
  IN
  {<<"fit: ends", ~ev.hung>>}
  \cup (IF ~ev.ok THEN {} ELSE
        MatchedClauses(s, ev, q) \cup ReportClauses(s, ev, g, q, isBase)
        \cup (IF isBase THEN {} ELSE ThresholdClauses(g, ev, q)))
  \cup (IF ev.hung \/ ~ev.hascand THEN {} ELSE CandClauses(s, ev, cand))
  \cup (IF ~ev.rec THEN {} ELSE
        {<<"known pairs: every trial uses all of them", \A k \in 1..Len(ev.trials) : HasKnown(s.known, ev.trials[k])>>})
  \cup (IF ev.hung \/ ~ev.hascand THEN {} ELSE ExactClauses(s, ev, g, rows))
  \cup (IF ev.hung \/ ~Easy(s, ev, g) THEN {} ELSE
        {<<"search: it fails not if every peak has its line only", ev.ok>>})
  \cup (IF ev.hung \/ ev.ok \/ ~ev.cando THEN {} ELSE
        {<<"search: it fails not before there are candidates", ev.hascand>>})
  \cup (IF ~ev.rec \/ ev.hung \/ ~ev.hascand THEN {} ELSE
        CountClauses(s, ev, g, used, rows)
        \cup (IF ev.full /\ Len(rows) > 0 THEN TrialClauses(s, ev, g, rows, q) ELSE {}))

-----------------------------------------------------------------------------
S0 == [peaks |-> << >>, lines |-> << >>, known |-> << >>]

KnownValid(ev) == ev.numeric /\ Len(ev.p) = Len(ev.w)
KnownClauses(s, ev) ==
  {<<"known pairs: accepted exactly if numeric and of equal length", ev.ok = KnownValid(ev)>>}

RStep(s, ev) ==
  CASE ev.op = "reset" -> [st |-> S0, clauses |-> {}]
    [] ev.op = "world" -> [st |-> [s EXCEPT !.peaks = ev.peaks, !.lines = ev.lines], clauses |-> {}]
    [] ev.op = "known" -> [st |-> [s EXCEPT !.known = IF KnownValid(ev) THEN Zip(ev.p, ev.w) ELSE @],
                           clauses |-> KnownClauses(s, ev)]
    [] ev.op = "fit"   -> [st |-> s, clauses |-> FitClauses(s, ev)]

INSTANCE TraceBase WITH Step <- RStep, InitSt <- S0
=============================================================================
