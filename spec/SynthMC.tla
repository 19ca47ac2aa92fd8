------------------------------ MODULE SynthMC ------------------------------
(* All histories of model and limit changes and queries, on small models   *)
(* whose inverse is found by search over a pixel axis.                     *)
EXTENDS Synth, TLC, Json

CONSTANTS Limits, Models, Waves, MaxHist

VARIABLES s, last, hist
vars == <<s, last, hist>>

\* small models: constant, linear up and down, and monotone higher orders
M1 == {<<3>>, <<1, 2>>, <<9, -1>>, <<1, 0, 1>>, <<1, 0, 0, 0>>}
Pix == 0..9

Init == s = [coef |-> << >>, lo |-> 2, hi |-> 7] /\ last = [op |-> "none"] /\ hist = << >>
Do(op, t) == s' = t /\ last' = op /\ hist' = Append(hist, op)

Model == \E c \in Models \cup {NOMODEL} : Do([op |-> "model", c |-> c], SetModel(s, c))
Limit == \E lo, hi \in Limits \cup {NONE, BAD} : Do([op |-> "limit", lo |-> lo, hi |-> hi], SetLimit(s, lo, hi))
Query == s.coef # << >> /\ \E a, b \in Waves : Do([op |-> "get", w |-> <<a, b>>], s)
Next == Len(hist) < MaxHist /\ (Model \/ Limit \/ Query)
Spec == Init /\ [][Next]_vars
View == <<s, last, Len(hist)>>

-----------------------------------------------------------------------------
LimitsOrdered == NLt(s.lo, s.hi)
\* the answer of a query: those strictly within the limits, each once, in order
Answered == last.op = "get" =>
  LET r == Within(s, last.w) IN
  /\ \A k \in 1..Len(r) : s.lo < r[k] /\ r[k] < s.hi
  /\ \A k \in 1..2 : (s.lo < last.w[k] /\ last.w[k] < s.hi) => \E j \in 1..Len(r) : r[j] = last.w[k]
  /\ Len(r) <= 2 /\ (Len(r) = 2 => r = last.w)
\* inverting a prediction gives the pixel back, for models that increase or decrease
Inverts == s.coef # << >> /\ Degree(s.coef) > 0 =>
  \A x, y \in Pix : Answers(s, y, Predict(s.coef, x), 0) => x = y
RejectedKeeps == [][(last'.op = "limit" /\ ~LimitOK(s, last'.lo, last'.hi)) => s' = s]_vars
NotGivenKept == [][last'.op = "limit" => (last'.lo = NONE => s'.lo = s.lo) /\ (last'.hi = NONE => s'.hi = s.hi)]_vars
OnlyOne == [][(s'.coef # s.coef => s'.lo = s.lo /\ s'.hi = s.hi)]_vars

Emit == Len(hist) < MaxHist \/ PrintT("@GEN " \o ToJson(hist))
=============================================================================
