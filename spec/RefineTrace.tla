---------------------------- MODULE RefineTrace -----------------------------
(* Validates results of the real refine_peaks against Refine.tla.          *)
EXTENDS Refine, TraceLog

VARIABLES l, st, cov

CLOSE == "1/1000000"
SeqNear(a, b, eps) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NNear(a[k], b[k], eps)

RECURSIVE SubSeqNear(_, _)
SubSeqNear(a, b) ==          \* a is b with some elements left out
  IF a = << >> THEN TRUE ELSE IF b = << >> THEN FALSE
  ELSE IF NNear(Head(a), Head(b), CLOSE) THEN SubSeqNear(Tail(a), Tail(b)) ELSE SubSeqNear(a, Tail(b))

RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))

ListClauses(ev) ==
  LET all == Concat(ev.singles) IN
  {<<"list: succeeds", ev.ok>>} \cup IF ~ev.ok THEN {} ELSE
  {<<"list: every peak is refined as if it were alone, in order", SubSeqNear(ev.res, all)>>,
   <<"list: no position is left out",
     \A k \in 1..Len(all) : \E j \in 1..Len(ev.res) : NNear(all[k], ev.res[j], NAdd(CLOSE, NDiv(NAbs(all[k]), 50000)))>>,
   <<"list: no position comes twice",
     \A j, k \in 1..Len(ev.res) : j < k => ~NNear(ev.res[j], ev.res[k], NAdd("1/10000000", NDiv(NAbs(ev.res[j]), 200000)))>>,
   <<"list: positions are on the detector", \A k \in 1..Len(ev.res) : NLt(0, ev.res[k]) /\ NLt(ev.res[k], ev.len)>>}

LinesClauses(ev) ==
  LET clear == SelectSeq([k \in 1..Len(ev.peaks) |-> k], LAMBDA k : Clear(ev.lines, ev.peaks[k], ev.w, ev.len))
      F(k) == ev.peaks[clear[k]] IN
  ListClauses(ev) \cup IF ~ev.ok THEN {} ELSE
  {<<"lines: a clear line is located at its centre",
     \A k \in 1..Len(clear) : LET c == Centre(ev.lines, F(k), ev.w, ev.len) IN
        \E j \in 1..Len(ev.res) : NNear(ev.res[j], c, ev.acc)>>,
   <<"lines: a clear line is located from a single peak",
     \A k \in 1..Len(clear) : LET c == Centre(ev.lines, F(k), ev.w, ev.len) IN SeqNear(ev.singles[clear[k]], <<c>>, ev.acc)>>}
  \cup (IF Determined(ev.lines, ev.peaks, ev.w, ev.len)
        THEN {<<"lines: the result is exactly the centres of the lines, once each, in order of the peaks",
                SeqNear(ev.res, Refined(ev.lines, ev.peaks, ev.w, ev.len, << >>), ev.acc)>>} ELSE {})

Clauses(ev) ==
  CASE ev.op = "lines" -> LinesClauses(ev)
    [] ev.op = "noise" -> ListClauses(ev)
    [] ev.op = "same"  -> {<<ev.what \o ": does not matter", ev.ok /\ SeqNear(ev.a, ev.b, ev.acc)>>}
    [] OTHER -> {}

RStep(s, ev) == [st |-> s, clauses |-> Clauses(ev)]

INSTANCE TraceBase WITH Step <- RStep, InitSt <- 0
=============================================================================
