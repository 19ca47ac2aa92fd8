--------------------------- MODULE IsolationTrace ---------------------------
(* Validates recorded calls against Isolation.tla.  The state is the view  *)
(* (a digest) of every calibrator and atlas after the last event, and the  *)
(* atlas of each calibrator.                                               *)
EXTENDS Isolation, TraceLog

VARIABLES l, st, cov

CallClauses(s, ev) ==
  LET reach == Reach(ev.t, ev.edits, ev.isatlas, s.link)
      old == DOMAIN s.cal
      oat == DOMAIN s.atl IN
  {<<"call: the arguments are as before", ev.arg0 = ev.arg1>>,
   <<"call: nothing else changes",
     /\ \A c \in old : s.cal[c] # ev.cal[c] => <<"cal", c>> \in reach
     /\ \A a \in oat : s.atl[a] # ev.atl[a] => <<"atlas", a>> \in reach>>}

MutateClauses(s, ev) ==
  {<<"mutate: changing an argument after the call is not seen by any calibrator", s.cal = ev.cal>>,
   <<"mutate: changing an argument after the call is not seen by any atlas", s.atl = ev.atl>>,
   <<"mutate: changing an argument after the call is not seen by any transform or spectrum", s.other = ev.other>>}

Clauses(s, ev) ==
  CASE ev.op = "call"   -> CallClauses(s, ev)
    [] ev.op = "mutate" -> MutateClauses(s, ev)
    [] ev.op = "func"   -> {<<"function: the arguments are as before", ev.arg0 = ev.arg1>>}
    [] OTHER -> {}

S0 == [cal |-> << >>, atl |-> << >>, link |-> << >>, other |-> << >>]
IStep(s, ev) == [st |-> IF ev.op \in {"call", "mutate"} THEN [cal |-> ev.cal, atl |-> ev.atl, link |-> ev.link, other |-> ev.other]
                        ELSE IF ev.op = "reset" THEN S0 ELSE s,
                 clauses |-> Clauses(s, ev)]

INSTANCE TraceBase WITH Step <- IStep, InitSt <- S0
=============================================================================
