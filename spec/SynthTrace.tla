----------------------------- MODULE SynthTrace -----------------------------
(* Validates histories of real SyntheticSpectrum objects against Synth.tla *)
EXTENDS Synth, TraceLog

VARIABLES l, st, cov

SeqEq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NEq(a[k], b[k])
EPS == "1/10000"

\* what the object shows: limits and, if it has a model, its degree
Shows(s, o) ==
  /\ NEq(o.lo, s.lo) /\ NEq(o.hi, s.hi)
  /\ o.degree = (IF s.coef = << >> THEN -1 ELSE Degree(s.coef))

NewClauses(s, ev) ==
  LET good == LimitOK(s, ev.lo, ev.hi) /\ ~ev.bad IN
  {<<"new: accepted exactly if the limits are in order and the model is a list", ev.ok = good>>}
  \cup IF ~ev.ok \/ ~good THEN {} ELSE {<<"new: holds the limits and the model given", Shows(SetModel(SetLimit(s, ev.lo, ev.hi), ev.c), ev.obs)>>}

ModelClauses(s, ev) ==
  {<<"model: accepted exactly if a list or array", ev.ok = ~ev.bad>>,
   <<"model: a rejected model changes nothing, and none changes the limits", Shows(SetModel(s, ev.c), ev.obs)>>}

LimitClauses(s, ev) ==
  {<<"limit: accepted exactly if in order", ev.ok = LimitOK(s, ev.lo, ev.hi)>>,
   <<"limit: those given are set, those not given are kept, rejected ones change nothing",
      Shows(SetLimit(s, ev.lo, ev.hi), ev.obs)>>}

GetClauses(s, ev) ==
  LET r == Within(s, ev.w) IN
  {<<"query: succeeds", ev.ok>>,
   <<"query: changes nothing", Shows(s, ev.obs)>>}
  \cup IF ~ev.ok THEN {} ELSE
  {<<"query: answers exactly the wavelengths strictly between the limits, in order", SeqEq(ev.waves, r)>>,
   <<"query: one pixel for each of them", Len(ev.pix) = Len(ev.waves)>>,
   <<"query: the current model predicts the wavelength at the pixel",
      Len(ev.pix) = Len(ev.waves) =>
      \A k \in 1..Len(ev.pix) : Answers(s, ev.pix[k], ev.waves[k], EPS)>>}

\* the polynomial of models.py: highest order first
PolyClauses(ev) ==
  {<<"polynomial: evaluates its coefficients, highest order first",
     ev.ok /\ Len(ev.y) = Len(ev.x) /\ \A k \in 1..Len(ev.x) : NNear(ev.y[k], NPoly(Rev(ev.c), ev.x[k]), EPS)>>}

S0 == [coef |-> << >>, lo |-> 200, hi |-> 1200]
After(s, ev) ==
  CASE ev.op = "new"   -> IF ev.ok THEN SetModel(SetLimit(S0, ev.lo, ev.hi), ev.c) ELSE S0
    [] ev.op = "model" -> SetModel(s, ev.c)
    [] ev.op = "limit" -> SetLimit(s, ev.lo, ev.hi)
    [] OTHER -> s
Clauses(s, ev) ==
  CASE ev.op = "new"   -> NewClauses(S0, ev)
    [] ev.op = "model" -> ModelClauses(s, ev)
    [] ev.op = "limit" -> LimitClauses(s, ev)
    [] ev.op = "get"   -> GetClauses(s, ev)
    [] ev.op = "poly"  -> PolyClauses(ev)
    [] OTHER -> {}

SStep(s, ev) == [st |-> IF ev.op = "reset" THEN S0 ELSE After(s, ev), clauses |-> Clauses(s, ev)]

INSTANCE TraceBase WITH Step <- SStep, InitSt <- S0
=============================================================================
