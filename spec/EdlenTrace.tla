----------------------------- MODULE EdlenTrace -----------------------------
(***************************************************************************)
(* Conversions made by the implementation against the published equations. *)
(* An event has the conditions (T, p, h), the wavelengths w, and the       *)
(* results of converting them to air (a), to vacuum (v), the air ones back *)
(* to vacuum (b), and the first one alone (one).                           *)
(***************************************************************************)
EXTENDS Edlen, TraceLog

VARIABLES l, st, cov

ROUND == "1/1000000000000"     \* rounding of the implementation's floats
EQN   == "5/100000000"         \* accuracy of the equations

Clauses(ev) ==
  {<<"conversion succeeds for every admissible condition", ev.ok>>}
  \cup IF ~ev.ok THEN {} ELSE
  LET K  == 1..Len(ev.w)
      pv == IF NEq(ev.h, 0) THEN 0 ELSE Pv(ev.h, Psv(ev.T))
      n  == [k \in K |-> Index(ev.w[k], ev.T, ev.p, pv)]
  IN
  {<<"one result for each wavelength", Len(ev.a) = Len(ev.w) /\ Len(ev.v) = Len(ev.w) /\ Len(ev.b) = Len(ev.w)>>,
   <<"vacuum to air divides by the published index of air",
      \A k \in K : RelNear(ev.a[k], NDiv(ev.w[k], n[k]), ROUND)>>,
   <<"air to vacuum multiplies by the published index of air",
      \A k \in K : RelNear(ev.v[k], NMul(ev.w[k], n[k]), EQN)>>,
   <<"vacuum to air and back returns the wavelength",
      \A k \in K : RelNear(ev.b[k], ev.w[k], EQN)>>,
   <<"order of the wavelengths is kept",
      \A k \in 1..(Len(ev.w) - 1) :
         /\ NLt(ev.w[k], ev.w[k+1]) => NLt(ev.a[k], ev.a[k+1]) /\ NLt(ev.v[k], ev.v[k+1])
         /\ NLt(ev.w[k+1], ev.w[k]) => NLt(ev.a[k+1], ev.a[k]) /\ NLt(ev.v[k+1], ev.v[k])>>,
   <<"a single wavelength is converted like several",
      RelNear(ev.one, ev.a[1], ROUND)>>}

EStep(s, ev) == [st |-> s, clauses |-> IF ev.op = "convert" THEN Clauses(ev) ELSE {}]

INSTANCE TraceBase WITH Step <- EStep, InitSt <- 0
=============================================================================
