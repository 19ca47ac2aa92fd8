------------------------------ MODULE RansacMC ------------------------------
(***************************************************************************)
(* The sampling loop, one trial per step, for every candidate table of a   *)
(* few peaks and every sequence of trial lines (any line may come out of a *)
(* sample; degree 1).  A sample whose trial is rejected is redrawn while   *)
(* the budget lasts; a sample that cannot be drawn is skipped.  Brute      *)
(* force is the same without redraws (budget 0).                           *)
(***************************************************************************)
EXTENDS Ransac

CONSTANTS NPeaks, MaxW, Tries, Budget, Lines, Mms, WithBase

\* lines too low, implausible, good and bad ones
L1 == {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, -1>>}
L2 == {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, -1>>, <<0, 2>>, <<1, -1>>}

VARIABLES rows, g, base, i, b0, budget, best, trials, made, skipped, pc
vars == <<rows, g, base, i, b0, budget, best, trials, made, skipped, pc>>

CandSeqs == {<<a>> : a \in 1..MaxW} \cup {<<x[1], x[2]>> : x \in {y \in (1..MaxW) \X (1..MaxW) : y[1] < y[2]}}
None == [k |-> "none"]

\* a trial with everything that matters about it
Eval(coef) ==
  LET m == MatchOf(rows, coef)
      q == Inliers(m, g.tol)
  IN [coef |-> coef, q |-> q, s |-> Score(m, g, 1), n |-> Len(q),
      pl |-> /\ g.mini <= coef[1] /\ coef[1] <= g.maxi /\ coef[2] > 0]
Admissible(t) == t.pl /\ Enough(g, t.n)

Init ==
  /\ \E f \in [1..NPeaks -> CandSeqs] : rows = [k \in 1..NPeaks |-> [p |-> k, c |-> f[k]]]
  /\ \E mm \in Mms : g = [mini |-> 0, maxi |-> 1, deg |-> 1, tol |-> 1, mf |-> 0, mm |-> mm, mpu |-> 0,
                          np |-> NPeaks, nl |-> NPeaks]
  /\ base \in (IF WithBase THEN {[k |-> "none"], [k |-> "base", coef |-> <<0, 1>>]} ELSE {[k |-> "none"]})
  /\ i = 1 /\ b0 \in {0, Budget} /\ budget = b0 /\ best = None /\ trials = {} /\ made = 0 /\ skipped = 0
  /\ pc = "start"

Start ==
  /\ pc = "start"
  /\ IF base.k = "base" /\ Eval(base.coef).n > 0 /\ Eval(base.coef).s.d > 0
     THEN best' = [k |-> "base", t |-> Eval(base.coef)] ELSE UNCHANGED best
  /\ pc' = "draw" /\ UNCHANGED <<rows, g, base, i, b0, budget, trials, made, skipped>>

\* after a rejected trial: redraw, or go on to the next sample once the budget is spent
Again == IF budget > 0 THEN i' = i ELSE i' = i + 1
NextSample == i' = i + 1

Draw ==
  /\ pc = "draw" /\ i <= Tries
  /\ \/ \* no distinct lines for the sample
        /\ budget' = budget - 1 /\ NextSample /\ skipped' = skipped + 1
        /\ UNCHANGED <<best, trials, made>>
     \/ \E c \in Lines :
        LET t == Eval(c) IN
        /\ budget' = budget - 1 /\ made' = made + 1 /\ trials' = trials \cup {t}
        /\ UNCHANGED skipped
        /\ IF ~t.pl THEN Again /\ UNCHANGED best
           ELSE IF best # None /\ t.s.d > 0 /\ ~ScoreLeInt(t.s, best.t.s) THEN NextSample /\ UNCHANGED best
           ELSE IF ~Admissible(t) THEN Again /\ UNCHANGED best
           ELSE NextSample /\ best' = [k |-> "trial", t |-> t]
  /\ pc' = IF i' > Tries THEN "done" ELSE "draw"
  /\ UNCHANGED <<rows, g, base, b0>>

Next == Start \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Done == pc = "done"
\* F01
OneToOne == best # None => IsOneToOne(best.t.q)
WithinTolerance == best # None => \A k \in 1..Len(best.t.q) : NLt(best.t.q[k].e, g.tol)
\* F03
Thresholds == best.k = "trial" => Enough(g, best.t.n)
NothingFound == (Done /\ best = None) => \A t \in trials : ~Admissible(t)
\* F04
OnlyPlausible == best.k = "trial" => best.t.pl /\ best.t \in trials
\* F05
\* without a budget (brute force) there is one trial per sample
Bounded == made + skipped <= b0 + Tries /\ (Done /\ b0 = 0 => made + skipped = Tries)
EnoughTrials == (Done /\ skipped = 0) => made >= Tries
Ends == <>Done
\* F07
LowestScore == best # None => \A t \in trials : Admissible(t) => ScoreLeInt(best.t.s, t.s)
BaseIsBeaten == (Done /\ best.k = "trial" /\ base.k = "base" /\ Eval(base.coef).n > 0 /\ Eval(base.coef).s.d > 0)
                  => ScoreLeInt(best.t.s, Eval(base.coef).s)
BaseKept == (Done /\ base.k = "base" /\ Eval(base.coef).n > 0 /\ Eval(base.coef).s.d > 0) => best # None
=============================================================================
