----------------------------- MODULE PairTable -----------------------------
(***************************************************************************)
(* The editable table of matched pairs (get_pix_wave_pairs,                *)
(* add_pix_wave_pair, remove_pix_wave_pair, manual_refit): a sequence of   *)
(* [p: pixel, w: wavelength].                                              *)
(***************************************************************************)
EXTENDS Num

Pair(p, w) == [p |-> p, w |-> w]
PairEq(a, b) == NEq(a.p, b.p) /\ NEq(a.w, b.w)
TblEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : PairEq(s[k], t[k])

Sorted(t) == \A k \in 1..(Len(t) - 1) : NLe(t[k].p, t[k+1].p)

\* position at which a pixel is inserted
Before(t, p) == {k \in 1..Len(t) : NLt(t[k].p, p)}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
InsertAt(t, k, x) == SubSeq(t, 1, k - 1) \o <<x>> \o SubSeq(t, k, Len(t))
Insert(t, p, w) == InsertAt(t, MaxOf(Before(t, p)) + 1, Pair(p, w))

\* as a relation: the position among equal pixels (and in an unsorted table) is free
IsInsert(t, p, w, u) ==
  /\ \E k \in 1..(Len(t) + 1) : TblEq(u, InsertAt(t, k, Pair(p, w)))
  /\ Sorted(t) => Sorted(u)

\* arg counts from 0
CanRemove(t, arg) == arg >= 0 /\ arg < Len(t)
Remove(t, arg) == SubSeq(t, 1, arg) \o SubSeq(t, arg + 2, Len(t))

\* positions in the listing
Listing(t) == [k \in 1..Len(t) |-> [i |-> k - 1, p |-> t[k].p, w |-> t[k].w]]

CanRefit(t, degree) == degree > 0 /\ degree <= Len(t) - 1
=============================================================================
