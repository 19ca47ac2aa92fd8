------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Who owns what.  Callers hold objects (lists and arrays), calibrators    *)
(* and atlases hold the values they were given, and each calibrator refers *)
(* to one atlas at most.  A call copies the values of its arguments;       *)
(* afterwards neither side sees what the other does.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Which views may change in a call on thing t: itself and, if the call edits the atlas, everything
\* that refers to the same atlas.  link[c] is the atlas of calibrator c (0 for none).
Reach(t, editsAtlas, isAtlas, link) ==
  IF isAtlas THEN {<<"atlas", t>>} \cup {<<"cal", c>> : c \in {d \in DOMAIN link : link[d] = t}}
  ELSE {<<"cal", t>>} \cup
       IF editsAtlas /\ link[t] # 0
       THEN {<<"atlas", link[t]>>} \cup {<<"cal", c>> : c \in {d \in DOMAIN link : link[d] = link[t]}}
       ELSE {}

\* Things whose view differs between two moments
Changed(kind, before, after) == {<<kind, k>> : k \in {j \in DOMAIN before : before[j] # after[j]}}
=============================================================================
