-------------------------------- MODULE Repro --------------------------------
(***************************************************************************)
(* Random numbers.  There is one generator; its state is described by      *)
(* what determines it: the seed, and what has been drawn since.  Only fits *)
(* may draw.  What a call returns is determined by its inputs and, for a   *)
(* fit (random, brute force or around a baseline), by the state of the     *)
(* generator.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* A call: [kind, sig] where sig stands for the calibrator and arguments it is made with
Draws(kind) == kind \in {"fit", "brute", "poly"}

\* State of the generator after a call, and what determines the outcome of the call
NextRng(rng, call) == IF call.kind = "seed" THEN <<call.sig>>
                      ELSE IF Draws(call.kind) THEN Append(rng, call.sig) ELSE rng
Outcome(rng, call) == IF Draws(call.kind) THEN <<call.kind, call.sig, rng>> ELSE <<call.kind, call.sig>>
=============================================================================
