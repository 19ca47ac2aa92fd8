---------------------------- MODULE PairTableMC ----------------------------
(***************************************************************************)
(* All histories of edits and refits up to a length, starting from a       *)
(* fitted table, against an independent account of what should be there:   *)
(* the bag of the pairs added and not removed.                             *)
(***************************************************************************)
EXTENDS PairTable, FiniteSets, TLC, Json

CONSTANTS Pixels, Waves, MaxHist, Start

VARIABLES tbl, bag, used, degree, hist
vars == <<tbl, bag, used, degree, hist>>

AllPairs == [p: Pixels, w: Waves]

Init ==
  /\ tbl = [k \in 1..Start |-> Pair(2 * k, k)]
  /\ bag = [x \in AllPairs |-> IF \E k \in 1..Start : tbl[k] = x THEN 1 ELSE 0]
  /\ used = tbl /\ degree = 1 /\ hist = << >>

Log(r) == hist' = Append(hist, r)

Add == \E p \in Pixels, w \in Waves :
  /\ tbl' = Insert(tbl, p, w)
  /\ bag' = [bag EXCEPT ![Pair(p, w)] = @ + 1]
  /\ UNCHANGED <<used, degree>> /\ Log([op |-> "add", p |-> p, w |-> w])
Del == \E k \in 0..Len(tbl) :
  /\ IF CanRemove(tbl, k)
     THEN tbl' = Remove(tbl, k) /\ bag' = [bag EXCEPT ![tbl[k+1]] = @ - 1]
     ELSE UNCHANGED <<tbl, bag>>
  /\ UNCHANGED <<used, degree>> /\ Log([op |-> "remove", k |-> k])
Refit == \E d \in 0..3 :
  /\ IF CanRefit(tbl, d) THEN used' = tbl /\ degree' = d ELSE UNCHANGED <<used, degree>>
  /\ UNCHANGED <<tbl, bag>> /\ Log([op |-> "refit", d |-> d])

Next == Len(hist) < MaxHist /\ (Add \/ Del \/ Refit)
Spec == Init /\ [][Next]_vars
View == <<tbl, bag, used, degree, Len(hist)>>

-----------------------------------------------------------------------------
InOrder == Sorted(tbl)
NothingElse == \A x \in AllPairs : bag[x] = Cardinality({k \in 1..Len(tbl) : tbl[k] = x})
Positions == \A k \in 1..Len(tbl) : Listing(tbl)[k].i = k - 1
RemoveUndoesAdd ==
  \A p \in Pixels, w \in Waves :
    Remove(Insert(tbl, p, w), MaxOf(Before(tbl, p))) = tbl
InsertIsInsert == \A p \in Pixels, w \in Waves : IsInsert(tbl, p, w, Insert(tbl, p, w))
RefitPossible == degree > 0 /\ degree < Len(used)
\* a refit uses the current table, an edit leaves the solution alone
RefitIsCurrent == [][(used' # used) => (used' = tbl' /\ tbl' = tbl)]_vars

Emit == Len(hist) < MaxHist \/ PrintT("@GEN " \o ToJson(hist))
=============================================================================
