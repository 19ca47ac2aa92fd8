----------------------------- MODULE MatchTrace -----------------------------
(***************************************************************************)
(* Validates histories of matching, editing and refitting on real          *)
(* calibrators against Match.tla and PairTable.tla.                        *)
(*                                                                         *)
(* st: the solution held by the calibrator, its coefficients, its table of *)
(* pairs and its atlas and peaks.                                          *)
(***************************************************************************)
EXTENDS Match, PairTable, TraceLog

VARIABLES l, st, cov

SeqEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NEq(s[k], t[k])
Tbl(ps, ws) == IF Len(ps) = Len(ws) THEN [k \in 1..Len(ps) |-> Pair(ps[k], ws[k])] ELSE << >>
Ps(t) == [k \in 1..Len(t) |-> t[k].p]
Ws(t) == [k \in 1..Len(t) |-> t[k].w]

-----------------------------------------------------------------------------
(* candidate lines of a peak under a solution: those closer than tol *)
InTol(f, w, tol) == NLt(Err(f, w), tol)
Cands(f, lines, tol) == SelectSeq(lines, LAMBDA w : InTol(f, w, tol))
Rows(peaks, lines, coef, tol) ==
  SelectSeq([k \in 1..Len(peaks) |-> LET f == NPoly(coef, peaks[k])
                                     IN [p |-> peaks[k], f |-> f, c |-> Cands(f, lines, tol)]],
            LAMBDA r : r.c # << >>)
\* whether some line is so close to the tolerance that rounding decides
Borderline(peaks, lines, coef, tol, eps) ==
  /\ ~NEq(eps, 0)
  /\ \E k \in 1..Len(peaks), j \in 1..Len(lines) :
        NNear(Err(NPoly(coef, peaks[k]), lines[j]), tol, eps)

REL  == "1/1000000"
ABS2 == "1/1000000000"

ReportClauses(n, ev, q) ==
  LET lg == Len(ev.res) = Len(q) IN
  {<<n \o ": residuals are the lines minus the prediction of the returned coefficients",
      lg /\ \A k \in 1..Len(q) : NNear(ev.res[k], NSub(q[k].w, NPoly(ev.coef, q[k].p)), "1/1000000")>>,
   <<n \o ": the error is the root mean square of the residuals", lg /\ Len(q) > 0 /\ IsRms(ev.rms, ev.res, "1/100000000")>>,
   <<n \o ": the calibrator holds the returned solution",
      /\ SeqEq(ev.held.coef, ev.coef) /\ SeqEq(ev.held.p, ev.p) /\ SeqEq(ev.held.w, ev.w)
      /\ NEq(ev.held.rms, ev.rms) /\ SeqEq(ev.held.res, ev.res)>>}

FitClauses(n, ev, q, deg) ==
  {<<n \o ": the refit has the requested degree", Len(ev.coef) = deg + 1>>}
  \cup (IF ~IsStd(ev.std, Ws(q)) \/ Len(q) <= deg \/ ev.ref = << >> THEN {} ELSE
        {<<n \o ": the refit is the least-squares polynomial of the returned pairs",
            NoWorse(ev.coef, ev.ref, Ps(q), Ws(q), ev.std, REL, NMul(ABS2, Len(q)))>>})

\* the coefficients a match works with, and the degree of its refit
CoefIn(s, ev) == IF ev.given THEN ev.c0 ELSE s.coef
DegIn(s, ev)  == IF ev.deg >= 0 THEN ev.deg ELSE Len(CoefIn(s, ev)) - 1

UnchangedClause(n, s, ev) ==
  <<n \o ": changes nothing when rejected",
     SeqEq(ev.held.coef, s.coef) /\ TblEq(Tbl(ev.held.p, ev.held.w), s.tbl)>>

MatchClauses(s, ev) ==
  LET coef == CoefIn(s, ev)
      deg  == DegIn(s, ev)
      m    == Rows(s.peaks, s.lines, coef, ev.tol)
      q    == Tbl(ev.p, ev.w)
      bord == Borderline(s.peaks, s.lines, coef, ev.tol, ev.eps)
      enough == ~ev.refit \/ Len(Matching(m)) > deg
  IN
  (IF bord THEN {} ELSE
   {<<"match: succeeds exactly if some line is within the tolerance", m = << >> \/ enough => ev.ok = (m # << >>)>>})
  \cup (IF ~ev.ok THEN (IF m = << >> /\ ~bord THEN {UnchangedClause("match", s, ev)} ELSE {}) ELSE
  {<<"match: peaks and lines are paired by position", Len(ev.p) = Len(ev.w)>>,
   <<"match: no peak and no line is used twice", IsOneToOne(q)>>}
  \cup (IF bord THEN {} ELSE
  {<<"match: every peak gets its closest line within the tolerance", ClosestFirst(m, q, ev.eps)>>,
   <<"match: no closest line is left out", NothingLost(m, q, ev.eps)>>})
  \cup ReportClauses("match", ev, q)
  \cup {<<"match: utilisations are matches over peaks and over lines",
      /\ NNear(NMul(ev.pu, Len(s.peaks)), Len(q), "1/1000000000")
      /\ NNear(NMul(ev.au, Len(s.lines)), Len(q), "1/1000000000")
      /\ NEq(ev.held.pu, ev.pu) /\ NEq(ev.held.au, ev.au)>>}
  \cup (IF ~ev.refit /\ ~ev.refine THEN {<<"match: the solution comes back unchanged", SeqEq(ev.coef, coef)>>} ELSE {})
  \cup (IF ev.refine /\ ~ev.refit
        THEN {<<"match: refinement keeps the higher orders",
                 /\ Len(ev.coef) = Len(coef)
                 /\ \A k \in (ev.nd + 1)..Len(coef) : NEq(ev.coef[k], coef[k])>>} ELSE {})
  \cup (IF ev.refit /\ Len(q) > deg THEN FitClauses("match", ev, q, deg) ELSE {}))

DistinctOf(v) == Cardinality({k \in 1..Len(v) : \A j \in 1..(k-1) : ~NEq(v[j], v[k])})
RefitClauses(s, ev) ==
  LET q   == IF ev.own THEN s.tbl ELSE Tbl(ev.p0, ev.w0)
      deg == IF ev.deg >= 0 THEN ev.deg ELSE Len(s.coef) - 1
      valid == ~ev.bad /\ CanRefit(q, deg)
      \* the same pixel or line over and over: nothing to fit
      degenerate == valid /\ (DistinctOf(Ps(q)) <= deg \/ DistinctOf(Ws(q)) <= 1)
  IN
  {<<"refit: accepted exactly for enough pairs and a positive degree", degenerate \/ ev.ok = valid>>}
  \cup (IF ~ev.ok THEN {UnchangedClause("refit", s, ev)} ELSE
        {<<"refit: uses and returns exactly the current or given pairs", TblEq(Tbl(ev.p, ev.w), q)>>}
        \cup ReportClauses("refit", ev, q)
        \cup IF degenerate THEN {} ELSE FitClauses("refit", ev, q, deg))

Indexed(t) == LET g == Listing(t) IN [k \in 1..Len(g) |-> <<g[k].i, g[k].p, g[k].w>>]
ListClauses(t, ev) ==
  {<<"edit: the listing shows the current pairs with consecutive positions",
     /\ Len(ev.list) = Len(t)
     /\ \A k \in 1..Len(t) : LET g == Indexed(t)[k] IN
          ev.list[k].i = g[1] /\ NEq(ev.list[k].p, g[2]) /\ NEq(ev.list[k].w, g[3])>>}

\* with an invalid pair or position (ev.bad) all that counts is that a rejection changes nothing
EditClauses(s, ev) ==
  LET t == Tbl(ev.held.p, ev.held.w)
      same == Len(ev.held.p) = Len(ev.held.w)
  IN
  {<<"edit: leaves the coefficients alone", SeqEq(ev.held.coef, s.coef)>>,
   <<"edit: pixels and wavelengths stay paired", same>>}
  \cup ListClauses(t, ev)
  \cup (CASE ev.op = "add" ->
          IF ev.bad THEN {<<"edit: a rejected pair changes nothing", ev.ok \/ TblEq(t, s.tbl)>>}
          ELSE {<<"edit: adding puts the pair in pixel order and keeps the others",
                   ev.ok /\ same /\ IsInsert(s.tbl, ev.pix, ev.wave, t)>>}
         [] ev.op = "remove" ->
          IF ev.bad THEN {<<"edit: a rejected removal changes nothing", ev.ok \/ TblEq(t, s.tbl)>>}
          ELSE IF ~CanRemove(s.tbl, ev.arg)
          THEN {<<"edit: removing a position not listed is rejected and changes nothing", ~ev.ok /\ TblEq(t, s.tbl)>>}
          ELSE {<<"edit: removing removes exactly the pair at that position",
                   ev.ok /\ same /\ TblEq(t, Remove(s.tbl, ev.arg))>>})

-----------------------------------------------------------------------------
Held(ev) == [coef |-> ev.held.coef, tbl |-> Tbl(ev.held.p, ev.held.w), peaks |-> ev.peaks, lines |-> ev.lines]
S0 == [coef |-> << >>, tbl |-> << >>, peaks |-> << >>, lines |-> << >>]

MStep(s, ev) ==
  CASE ev.op = "reset" -> [st |-> S0, clauses |-> {}]
    \* a solution from elsewhere (fit), or a change of the atlas
    [] ev.op = "start" -> [st |-> Held(ev), clauses |-> {}]
    [] OTHER ->
       [st |-> [s EXCEPT !.coef = ev.held.coef, !.tbl = Tbl(ev.held.p, ev.held.w)],
        clauses |-> CASE ev.op = "match" -> MatchClauses(s, ev)
                      [] ev.op = "refit" -> RefitClauses(s, ev)
                      [] OTHER           -> EditClauses(s, ev)]

INSTANCE TraceBase WITH Step <- MStep, InitSt <- S0
=============================================================================
