------------------------------ MODULE HoughMC ------------------------------
(***************************************************************************)
(* Life of two Hough transforms and the files they are saved to: compute,  *)
(* extend, bin, save and load in every order.                              *)
(***************************************************************************)
EXTENDS Hough, SequencesExt, Json

CONSTANTS MaxHist, Generating, NData

Ts == {1, 2}
Formats == {"npy", "json"}

\* pixel and wavelength data; wavelengths are multiples of 12 so that slopes are integers
Data == <<
  [xs |-> <<0, 1, 2>>,  ys |-> <<12, 24, 36>>],
  [xs |-> <<2, 0, 2>>,  ys |-> <<36, 12, 12>>],
  [xs |-> <<3, 1>>,     ys |-> <<48, 0>>] >>
Lims == { [smin |-> 0, smax |-> 24, imin |-> 0, imax |-> 12],
          [smin |-> 12, smax |-> 36, imin |-> -24, imax |-> 12] }

VARIABLES t, file, ghost, hist
vars == <<t, file, ghost, hist>>

Empty == [pts |-> << >>, lim |-> << >>, hist |-> << >>, xe |-> << >>, ye |-> << >>, has |-> FALSE, binned |-> FALSE]
Init == t = [k \in Ts |-> Empty] /\ file = [f \in Formats |-> << >>] /\ ghost = << >> /\ hist = << >>

Rec(o) == Len(hist) < MaxHist /\ hist' = Append(hist, o)

Generate(k) ==
  \E d \in 1..NData, lim \in Lims, n \in {1, 3}, brute \in BOOLEAN :
    /\ t' = [t EXCEPT ![k].pts = IF brute THEN PairLines(Data[d].xs, Data[d].ys, lim, 0)
                                          ELSE GridLines(Data[d].xs, Data[d].ys, lim, n, 0),
                      ![k].lim = <<lim>>, ![k].has = TRUE]
    /\ Rec([op |-> "generate", t |-> k, d |-> d, lim |-> lim, n |-> n, brute |-> brute])
    /\ ghost' = << >> /\ UNCHANGED file

Extend(k) ==
  \E j \in Ts :
    /\ t[k].has /\ t[j].has
    /\ Len(t[k].pts) + Len(t[j].pts) <= 12
    /\ t' = [t EXCEPT ![k].pts = @ \o t[j].pts]
    /\ Rec([op |-> "extend", t |-> k, from |-> j])
    /\ ghost' = << >> /\ UNCHANGED file

Xs(p) == [k \in 1..Len(p) |-> p[k][1]]
Ys(p) == [k \in 1..Len(p) |-> p[k][2]]
Widen(lo, hi) == IF lo = hi THEN <<lo - 12, hi + 12>> ELSE <<lo, hi>>
Edges(v, n) == LET w == Widen(SeqMin(v), SeqMax(v)) IN [k \in 1..(n+1) |-> Edge(w[1], w[2], n, k)]

Bin(k) ==
  \E bx \in {1, 2}, by \in {1, 3} :
    /\ t[k].has /\ t[k].pts # << >>
    /\ LET xe == Edges(Xs(t[k].pts), bx)
           ye == Edges(Ys(t[k].pts), by)
       IN t' = [t EXCEPT ![k].xe = xe, ![k].ye = ye, ![k].binned = TRUE,
                         ![k].hist = Histogram(t[k].pts, xe, ye)]
    /\ Rec([op |-> "bin", t |-> k, bx |-> bx, by |-> by])
    /\ ghost' = <<"bin", k>> /\ UNCHANGED file

Save(k) ==
  \E fs \in {{"npy"}, {"json"}, Formats} :
    /\ t[k].binned
    /\ file' = [f \in Formats |-> IF f \in fs THEN <<t[k]>> ELSE file[f]]
    /\ Rec([op |-> "save", t |-> k, fs |-> fs])
    /\ ghost' = << >> /\ UNCHANGED t

Load(k) ==
  \E f \in Formats :
    /\ file[f] # << >>
    /\ t' = [t EXCEPT ![k] = file[f][1]]
    /\ Rec([op |-> "load", t |-> k, f |-> f])
    /\ ghost' = <<"load", k, f>> /\ UNCHANGED file

Next == \E k \in Ts : Generate(k) \/ Extend(k) \/ Bin(k) \/ Save(k) \/ Load(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
PermsOf(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
CountOf(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
BagEqual(s, u) == Len(s) = Len(u) /\ \A k \in 1..Len(s) : CountOf(s, s[k]) = CountOf(u, s[k])

(* H01: the grid transform is sound and complete *)
GridExact ==
  \A d \in 1..Len(Data), lim \in Lims, n \in {1, 3} :
    LET g == GridLines(Data[d].xs, Data[d].ys, lim, n, 0)
        S == {Slope(lim, n, k) : k \in 1..n}
    IN /\ lim.smin \in S /\ (n > 1 => lim.smax \in S)
       /\ \A k \in 1..Len(g) : g[k][1] \in S /\ g[k][2] >= lim.imin /\ g[k][2] <= lim.imax
            /\ \E j \in 1..Len(Data[d].xs) : Data[d].ys[j] = g[k][1] * Data[d].xs[j] + g[k][2]
       /\ \A s \in S, j \in 1..Len(Data[d].xs) :
            LET b == Data[d].ys[j] - s * Data[d].xs[j] IN
            (b >= lim.imin /\ b <= lim.imax) <=> CountOf(g, <<s, b>>) > 0
(* H02: independent of the order of the points, one line per pair *)
BruteExact ==
  \A d \in 1..Len(Data), lim \in Lims :
    LET xs == Data[d].xs  ys == Data[d].ys
        g == PairLines(xs, ys, lim, 0)
    IN /\ \A p \in PermsOf(Len(xs)) :
            BagEqual(g, PairLines([k \in 1..Len(xs) |-> xs[p[k]]], [k \in 1..Len(xs) |-> ys[p[k]]], lim, 0))
       /\ \A k \in 1..Len(g) : Cardinality({j \in 1..Len(xs) : ys[j] = g[k][1] * xs[j] + g[k][2]}) >= 2
(* H03: counted once each, however often extended *)
RECURSIVE SumRow(_), SumAll(_)
SumRow(r) == IF r = << >> THEN 0 ELSE Head(r) + SumRow(Tail(r))
SumAll(h) == IF h = << >> THEN 0 ELSE SumRow(Head(h)) + SumAll(Tail(h))
CountedOnce ==
  (ghost # << >> /\ ghost[1] = "bin") => SumAll(t[ghost[2]].hist) = Len(t[ghost[2]].pts)
Rankable ==
  (ghost # << >> /\ ghost[1] = "bin") =>
     LET h == t[ghost[2]].hist IN
     \E r \in {SetToSortSeq(Bins(h), LAMBDA a, b :
                  h[a[1]][a[2]] > h[b[1]][b[2]] \/ (h[a[1]][a[2]] = h[b[1]][b[2]] /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))))} :
        IsRanking(h, r)
(* H04 *)
Restored == (ghost # << >> /\ ghost[1] = "load") => t[ghost[2]] = file[ghost[3]][1]
(* H05: only the receiver changes, and its old points stay a prefix *)
ExtendAppends ==
  [][\A k \in Ts : (hist' # hist /\ hist'[Len(hist')].op = "extend" /\ hist'[Len(hist')].t = k) =>
       /\ SubSeq(t'[k].pts, 1, Len(t[k].pts)) = t[k].pts
       /\ t'[k].lim = t[k].lim
       /\ \A j \in Ts \ {k} : t'[j] = t[j]]_vars

ASSUME GridExact
ASSUME BruteExact

Emit == (Generating /\ Len(hist) = MaxHist) => PrintT("@GEN " \o ToJson(hist))
View == <<t, file, ghost, Len(hist)>>
=============================================================================
