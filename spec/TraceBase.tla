----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Skeleton of every trace specification.  The trace (one JSON object per  *)
(* line) was recorded from the real code.  TLC walks through it with one   *)
(* state per event; Step(st, ev) of the instantiating module applies the   *)
(* operators of the system specification to the abstract state st and the  *)
(* logged event and returns                                                *)
(*    st      the abstract state after the event (resynchronised with the  *)
(*            observation when a clause failed, so that the remaining      *)
(*            events are still judged),                                    *)
(*    clauses a set of <<name, holds>>: the conjuncts of the action that   *)
(*            the event has to satisfy.                                    *)
(* The verdict is total: a clause that does not hold is printed, with the  *)
(* event, and never stops the validation.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Trace,        \* see TraceLog.tla
          Step(_, _), InitSt

VARIABLES l, st, cov

N == Len(Trace)

Init == l = 1 /\ st = InitSt /\ cov = {}

Next ==
  /\ l <= N
  /\ LET ev == Trace[l]
         r  == Step(st, ev)
     IN  /\ st' = r.st
         /\ cov' = cov \cup {c[1] : c \in r.clauses}
         /\ \A c \in r.clauses :
               IF c[2] THEN TRUE
               ELSE PrintT("@BAD " \o ToJson([l |-> l, clause |-> c[1]]))
  /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, st, cov>>

\* Evaluated in the last state: how much was validated
Done == l = N + 1 => PrintT("@END " \o ToJson([n |-> N, cov |-> cov]))
=============================================================================
