------------------------------ MODULE MatchMC ------------------------------
(***************************************************************************)
(* The two-phase loop of _match_bijective, one peak and one line per step, *)
(* for every prediction of a few peaks and every candidate list.           *)
(***************************************************************************)
EXTENDS Match

CONSTANTS NPeaks, MaxW

VARIABLES m, i, claims, lines, q
vars == <<m, i, claims, lines, q>>

CandSeqs == {<<a>> : a \in 1..MaxW} \cup {<<a, b>> : a \in 1..MaxW, b \in 1..MaxW}

Init ==
  /\ \E f \in [1..NPeaks -> 0..(MaxW + 1)], c \in [1..NPeaks -> CandSeqs] :
       m = [k \in 1..NPeaks |-> [p |-> k, f |-> f[k], c |-> c[k]]]
  /\ i = 1 /\ claims = << >> /\ lines = {} /\ q = << >>

Claim ==
  /\ i <= Len(m)
  /\ LET w == Closest(m[i].f, m[i].c) IN
     /\ claims' = Append(claims, [p |-> m[i].p, w |-> w, e |-> Err(m[i].f, w)])
     /\ lines' = lines \cup {w}
  /\ i' = i + 1 /\ UNCHANGED <<m, q>>

\* resolve the lines in increasing order
Resolve ==
  /\ i > Len(m) /\ lines # {}
  /\ LET w == CHOOSE x \in lines : \A y \in lines : x <= y
         ks == {k \in 1..Len(claims) : claims[k].w = w}
         b  == CHOOSE k \in ks : \A j \in ks : claims[k].e < claims[j].e \/ (claims[k].e = claims[j].e /\ k <= j)
     IN /\ q' = Append(q, [p |-> claims[b].p, w |-> w]) /\ lines' = lines \ {w}
  /\ UNCHANGED <<m, i, claims>>

Next == Claim \/ Resolve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == i > Len(m) /\ lines = {}

-----------------------------------------------------------------------------
Result == Done => IsMatching(m, q, 0)
\* the functional definition gives the same pairs
SameAsFunction ==
  Done => LET r == Matching(m) IN
    {<<q[k].p, q[k].w>> : k \in 1..Len(q)} = {<<r[k].p, r[k].w>> : k \in 1..Len(r)}
\* every peak whose closest line nobody else claims is matched to it
UncontestedMatched ==
  Done => \A k \in 1..Len(m) :
    LET w == Closest(m[k].f, m[k].c) IN
    (\A j \in 1..Len(m) : j # k => Closest(m[j].f, m[j].c) # w)
       => \E a \in 1..Len(q) : q[a].p = m[k].p /\ q[a].w = w
Ends == <>Done
=============================================================================
