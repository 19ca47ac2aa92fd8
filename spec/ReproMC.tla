------------------------------- MODULE ReproMC -------------------------------
(* Two runs: anything at all happens first in each (in this or in other    *)
(* calibrators), then both configure the same seed and make the same calls *)
(* with, in between, anything that does not draw.                          *)
EXTENDS Repro, TLC, Json

CONSTANTS Sigs, MaxPre, MaxRun

VARIABLES phase, rngA, rngB, pre, outA, outB, calls
vars == <<phase, rngA, rngB, pre, outA, outB, calls>>
Calls == [kind : {"fit", "brute", "poly", "match", "refit", "hough", "edit"}, sig : Sigs]
Quiet == {c \in Calls : ~Draws(c.kind)}

Init == phase = "pre" /\ rngA = <<0>> /\ rngB = <<99>> /\ pre = 0 /\ outA = << >> /\ outB = << >> /\ calls = << >>
PreA == phase = "pre" /\ pre < MaxPre /\ \E c \in Calls : rngA' = NextRng(rngA, c) /\ pre' = pre + 1
        /\ UNCHANGED <<phase, rngB, outA, outB, calls>>
PreB == phase = "pre" /\ pre < MaxPre /\ \E c \in Calls : rngB' = NextRng(rngB, c) /\ pre' = pre + 1
        /\ UNCHANGED <<phase, rngA, outA, outB, calls>>
Seed == phase = "pre" /\ \E s \in Sigs : LET c == [kind |-> "seed", sig |-> s] IN
          /\ rngA' = NextRng(rngA, c) /\ rngB' = NextRng(rngB, c) /\ phase' = "run"
          /\ calls' = <<c>> /\ UNCHANGED <<pre, outA, outB>>
Both == phase = "run" /\ Len(outA) < MaxRun /\ \E c \in Calls :
          /\ outA' = Append(outA, Outcome(rngA, c)) /\ outB' = Append(outB, Outcome(rngB, c))
          /\ rngA' = NextRng(rngA, c) /\ rngB' = NextRng(rngB, c) /\ calls' = Append(calls, c) /\ UNCHANGED <<phase, pre>>
\* something else, in one run only
Other == phase = "run" /\ pre < MaxPre /\ \E c \in Quiet : rngA' = NextRng(rngA, c) /\ pre' = pre + 1
          /\ UNCHANGED <<phase, rngB, outA, outB, calls>>
Next == PreA \/ PreB \/ Seed \/ Both \/ Other
Spec == Init /\ [][Next]_vars

Reproducible == outA = outB
SameState == phase = "run" => rngA = rngB
Emit == (phase = "run" /\ Len(outA) = MaxRun) => PrintT("@GEN " \o ToJson(calls))
=============================================================================
