----------------------------- MODULE LineListMC -----------------------------
(***************************************************************************)
(* The selection as the implementation computes it - a sequence of mask    *)
(* stages over parallel arrays - checked against the declarative           *)
(* LineList.tla for every small line list and request.                     *)
(***************************************************************************)
EXTENDS LineList, TLC

CONSTANTS Waves, Ints, Elems, Len1, Ranges, Ns, Ds

MCNs == {-1, 2}
MCRanges == {<<2, 4>>}
MCNsT == {-1, 0, 1, 2, 3}
MCRangesT == {<<1, 5>>, <<2, 4>>}

VARIABLES list, req, pc, cur

vars == <<list, req, pc, cur>>

Entry == [lc : Elems, w : Waves, i : Ints]
Full(x) == [e |-> x.lc, lc |-> x.lc, w |-> x.w, a |-> x.w, i |-> x.i]

Init ==
  /\ \E n \in 0..Len1 : \E s \in [1..n -> Entry] : list = [k \in 1..n |-> Full(s[k])]
  /\ \E es \in {<<"he">>, <<"ne", "he">>}, rg \in Ranges, m \in 0..2, n \in Ns, d \in Ds :
       \E th \in {<<t, u>> : t \in Ints, u \in Ints} :
         /\ m = 0 => th = <<CHOOSE t \in Ints : TRUE, CHOOSE t \in Ints : TRUE>>
         /\ m = 1 => th[2] = CHOOSE t \in Ints : TRUE
         /\ req = [els |-> es, lo |-> rg[1], hi |-> rg[2], int |-> m, ints |-> th,
                   n |-> n, d |-> d, vac |-> TRUE]
  /\ pc = "elements" /\ cur = << >>

Elements ==
  /\ pc = "elements"
  /\ cur' = ByWavelength(Distinct(OfElements(list, req.els)))
  /\ pc' = "range" /\ UNCHANGED <<list, req>>
InRangeStage ==
  /\ pc = "range"
  /\ cur' = SelectSeq(cur, LAMBDA x : InRange(x, req))
  /\ pc' = "intensity" /\ UNCHANGED <<list, req>>
Intensity ==
  /\ pc = "intensity"
  /\ cur' = SelectSeq(cur, LAMBDA x : Bright(x, req))
  /\ pc' = "brightest" /\ UNCHANGED <<list, req>>

\* argsort of the intensities, reversed, first n, positions sorted again: any
\* order of equally bright lines is possible
BrightestN ==
  /\ pc = "brightest"
  /\ \E keep \in SUBSET (1..Len(cur)) :
       /\ Cardinality(keep) = Card(cur, req.n)
       /\ \A k \in keep, m \in (1..Len(cur)) \ keep : NLe(cur[m].i, cur[k].i)
       /\ LET pos == SetToSortSeq(keep, <) IN cur' = [k \in 1..Len(pos) |-> cur[pos[k]]]
  /\ pc' = "separation" /\ UNCHANGED <<list, req>>

\* left and right distances, the ends overwritten (filter_separation)
Separation ==
  /\ pc = "separation"
  /\ LET n == Len(cur)
         left(k)  == IF k = 1 THEN 0 ELSE cur[k].w - cur[k-1].w
         right(k) == IF k = n THEN 0 ELSE cur[k+1].w - cur[k].w
         dist(k)  == IF k = n THEN left(k) ELSE IF k = 1 THEN right(k)
                     ELSE NMin(left(k), right(k))
         mask(k)  == req.d = 0 \/ n < 2 \/ dist(k) >= req.d
         pos      == SetToSortSeq({k \in 1..n : mask(k)}, <)
     IN cur' = [k \in 1..Len(pos) |-> cur[pos[k]]]
  /\ pc' = "done" /\ UNCHANGED <<list, req>>

Next == Elements \/ InRangeStage \/ Intensity \/ BrightestN \/ Separation
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
q == Qualifying(list, req)
IntensityStage == pc = "brightest" => cur = q
(* A03 *)
BrightestStage ==
  pc = "separation" =>
    /\ Len(cur) = Card(q, req.n)
    /\ \A k \in 1..Len(q) : MustKeep(q, req.n, q[k]) => \E m \in 1..Len(cur) : cur[m] = q[k]
    /\ \A m \in 1..Len(cur) : MayKeep(q, req.n, cur[m])
    /\ ~Tied(q, req.n) => cur = Brightest(q, req.n)
Sorted == pc = "done" => \A k \in 1..(Len(cur)-1) : cur[k].w < cur[k+1].w
(* A03 and A04 together *)
Result == (pc = "done" /\ ~Tied(q, req.n)) => cur = Selected(list, req)
(* A04: the lines kept really are d apart from each other *)
Apart == pc = "done" => \A j, k \in 1..Len(cur) : j < k => cur[k].w - cur[j].w >= req.d
Ends == <>(pc = "done")
=============================================================================
