----------------------------- MODULE ReproTrace -----------------------------
(* Validates recorded calls against Repro.tla.  rng0 and rng1 are digests  *)
(* of the generator before and after the call, sig of the calibrator and   *)
(* the arguments, out of everything the call left and returned.  The state *)
(* collects what was seen, so that equal calls can be compared wherever    *)
(* they were made.                                                         *)
EXTENDS Repro, TraceLog

VARIABLES l, st, cov

Key(ev) == ev.kind \o " " \o ev.sig \o (IF Draws(ev.kind) THEN " " \o ev.rng0 ELSE "")
Val(ev) == ev.out \o (IF Draws(ev.kind) \/ ev.kind = "seed" THEN " " \o ev.rng1 ELSE "")
Known(seen, k) == {j \in 1..Len(seen) : seen[j][1] = k}

CallClauses(seen, ev) ==
  LET same == Known(seen, Key(ev)) IN
  (IF ev.kind = "seed"
   THEN {<<"seed: the generator depends on nothing but the seed", \A j \in same : seen[j][2] = Val(ev)>>}
   ELSE IF ~Draws(ev.kind)
   THEN {<<"generator: calls other than fits leave the generator alone", ev.rng0 = ev.rng1>>} ELSE {})
  \cup (IF same # {} /\ ev.kind # "seed"
        THEN {<<ev.kind \o ": equal inputs give identical results", \A j \in same : seen[j][2] = Val(ev)>>} ELSE {})

TwinClauses(ev) ==
  {<<ev.what \o ": the same calls give identical results", ev.a = ev.b>>}

RStep(seen, ev) ==
  CASE ev.op = "reset" -> [st |-> << >>, clauses |-> {}]
    [] ev.op = "call"  -> [st |-> Append(seen, <<Key(ev), Val(ev)>>), clauses |-> CallClauses(seen, ev)]
    [] ev.op = "twin"  -> [st |-> seen, clauses |-> TwinClauses(ev)]

INSTANCE TraceBase WITH Step <- RStep, InitSt <- << >>
=============================================================================
