----------------------------- MODULE HoughTrace -----------------------------
(***************************************************************************)
(* Validates histories of real HoughTransform objects, bare or inside a    *)
(* calibrator, and of the files they are saved to, against Hough.tla.      *)
(*                                                                         *)
(* The content of a transform is logged in full where it is computed; that *)
(* it is kept, saved and restored is judged on digests of its components   *)
(* (pts, hist, xe, ye, lim, lines), one record per transform.              *)
(***************************************************************************)
EXTENDS Hough, TraceLog

VARIABLES l, st, cov

NearPt(a, b, ev) == NNear(a[1], b[1], ev.es) /\ NNear(a[2], b[2], ev.ei)
CountNear(s, x, ev) == Cardinality({k \in 1..Len(s) : NearPt(s[k], x, ev)})
PtsEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NEq(s[k][1], t[k][1]) /\ NEq(s[k][2], t[k][2])

\* obs holds the lines of must, each as often as there, and none that is not in may
Holds(must, may, obs, ev, n) ==
  {<<n \o ": complete", \A k \in 1..Len(must) : CountNear(obs, must[k], ev) >= CountNear(must, must[k], ev)>>,
   <<n \o ": sound", \A k \in 1..Len(obs) : CountNear(may, obs[k], ev) >= 1>>,
   <<n \o ": nothing twice", \A k \in 1..Len(may) : CountNear(obs, may[k], ev) <= CountNear(may, may[k], ev)>>}

GridClauses(ev) ==
  Holds(GridLines(ev.xs, ev.ys, ev.lim, ev.n, NNeg(ev.ei)), GridLines(ev.xs, ev.ys, ev.lim, ev.n, ev.ei),
        ev.pts, ev, "slope grid")
EpsMax(ev) == NMax(ev.es, ev.ei)
BruteClauses(ev) ==
  Holds(PairLines(ev.xs, ev.ys, ev.lim, NNeg(EpsMax(ev))), PairLines(ev.xs, ev.ys, ev.lim, EpsMax(ev)),
        ev.pts, ev, "brute force")

-----------------------------------------------------------------------------
First(pts)  == [k \in 1..Len(pts) |-> pts[k][1]]
Second(pts) == [k \in 1..Len(pts) |-> pts[k][2]]

EdgesOK(e, v, n, eps) ==
  /\ Len(e) = n + 1
  /\ \A k \in 1..n : NLt(e[k], e[k+1])
  /\ \A k \in 1..(n+1) : NNear(e[k], Edge(e[1], e[n+1], n, k), eps)
  /\ v # << >> => LET lo == SeqMin(v) hi == SeqMax(v) IN
       IF NEq(lo, hi) THEN NLe(e[1], lo) /\ NLe(hi, e[n+1])
       ELSE NNear(e[1], lo, eps) /\ NNear(e[n+1], hi, eps)

\* bins whose centre is near the line
BinsAt(ev, ln) ==
  {i \in 1..ev.xb : NNear(Centre(ev.xe, i), ln[1], ev.xeps)}
    \X {j \in 1..ev.yb : NNear(Centre(ev.ye, j), ln[2], ev.yeps)}

RECURSIVE SumRow(_), SumAll(_)
SumRow(r) == IF r = << >> THEN 0 ELSE NAdd(Head(r), SumRow(Tail(r)))
SumAll(h) == IF h = << >> THEN 0 ELSE NAdd(SumRow(Head(h)), SumAll(Tail(h)))

BinClauses(ev) ==
  LET shape == /\ Len(ev.hist) = ev.xb /\ \A i \in 1..Len(ev.hist) : Len(ev.hist[i]) = ev.yb
               /\ Len(ev.xe) = ev.xb + 1 /\ Len(ev.ye) = ev.yb + 1
  IN
  {<<"binning: the configured numbers of bins in slope and intercept", shape>>}
  \cup IF ~shape THEN {} ELSE
  LET at == [k \in 1..Len(ev.lines) |-> BinsAt(ev, ev.lines[k])]
      oneEach == \A k \in 1..Len(ev.lines) : Cardinality(at[k]) = 1
      ranked  == [k \in 1..Len(ev.lines) |-> CHOOSE b \in at[k] : TRUE]
  IN
  {<<"binning: equal-width slope bins spanning the data", EdgesOK(ev.xe, First(ev.pts), ev.xb, ev.xeps)>>,
   <<"binning: equal-width intercept bins spanning the data", EdgesOK(ev.ye, Second(ev.pts), ev.yb, ev.yeps)>>,
   <<"binning: every point is counted once", NEq(SumAll(ev.hist), Len(ev.pts))>>,
   <<"binning: every point is counted in the bin that contains it",
      \A i \in 1..ev.xb, j \in 1..ev.yb :
        /\ NLe(CountIn(ev.pts, ev.xe, ev.ye, i, j, LAMBDA e, k, v : SurelyInBin(e, k, v, ev.eps)), ev.hist[i][j])
        /\ NLe(ev.hist[i][j], CountIn(ev.pts, ev.xe, ev.ye, i, j, LAMBDA e, k, v : InBin(e, k, v, ev.eps)))>>,
   <<"binning: the Hough lines are bin centres", oneEach>>,
   <<"binning: every bin is ranked once, by non-increasing count",
      oneEach => /\ {ranked[k] : k \in 1..Len(ranked)} = Bins(ev.hist)
                 /\ Len(ranked) = Cardinality(Bins(ev.hist))
                 /\ \A k \in 1..(Len(ranked)-1) :
                      NLe(ev.hist[ranked[k+1][1]][ranked[k+1][2]], ev.hist[ranked[k][1]][ranked[k][2]])>>}

-----------------------------------------------------------------------------
Comps == {"pts", "hist", "xe", "ye", "lim", "lines"}
\* which components of the transform an operation may change
Changes(ev) ==
  IF ~ev.ok THEN {} ELSE
  CASE ev.op = "new"       -> Comps
    [] ev.op = "limits"    -> {"lim"}
    [] ev.op \in {"grid", "brute"} -> {"pts"}
    [] ev.op = "extend"    -> {"pts"}
    [] ev.op = "bin"       -> {"hist", "xe", "ye", "lines"}
    [] ev.op = "transform" -> Comps
    [] ev.op = "load"      -> Comps
    [] ev.op = "fit"       -> IF ev.first THEN Comps ELSE {}
    [] OTHER               -> {}

Valid(ev) ==
  CASE ev.op = "limits" -> \A k \in 1..4 : ev.new[k] # "nan"
    [] ev.op = "extend" -> ev.kind # "other"
    [] ev.op = "load"   -> ev.kind \in {"npy", "json"}
    [] OTHER            -> TRUE

KeepClauses(s, ev) ==
  {<<ev.op \o ": keeps the other contents of the transform",
      ev.t <= Len(s.t) => \A x \in Comps \ Changes(ev) : ev.dig[ev.t][x] = s.t[ev.t][x]>>,
   <<ev.op \o ": leaves other transforms alone",
      \A k \in 1..Len(s.t) : k # ev.t => ev.dig[k] = s.t[k]>>,
   <<ev.op \o ": the calibrator and its transform agree",
      \A k \in 1..Len(ev.views) : ev.views[k] \in {"none", "same"}>>}

FileOf(s, name) == s.f[CHOOSE k \in 1..Len(s.f) : s.f[k].name = name]
Known(s, name) == \E k \in 1..Len(s.f) : s.f[k].name = name
Put(fs, name, d) == SelectSeq(fs, LAMBDA x : x.name # name) \o <<[name |-> name, d |-> d]>>
RECURSIVE PutAll(_, _, _)
PutAll(fs, names, d) == IF names = << >> THEN fs ELSE PutAll(Put(fs, Head(names), d), Tail(names), d)

SetOf(q) == {q[k] : k \in 1..Len(q)}

SaveClauses(s, ev) ==
  {<<"save: succeeds", ev.ok>>,
   <<"save: exactly the requested files are written", SetOf(ev.written) = SetOf(ev.names)>>}
  \cup (IF ev.tomem
        THEN {<<"save: the content returned is that of the transform",
                Len(ev.mem) > 0 /\ \A k \in 1..Len(ev.mem) :
                  \A x \in Comps \ {"lines"} : ev.mem[k][x] = s.t[ev.t][x]>>} ELSE {})

Restores(s, ev, x) == ev.dig[ev.t][x] = FileOf(s, ev.name).d[x]
LoadClauses(s, ev) ==
  IF Valid(ev) /\ Known(s, ev.name)
  THEN {<<"load: succeeds", ev.ok>>,
        <<"load: restores the points", Restores(s, ev, "pts")>>,
        <<"load: restores the histogram and its edges",
            Restores(s, ev, "hist") /\ Restores(s, ev, "xe") /\ Restores(s, ev, "ye")>>,
        <<"load: restores the limits", Restores(s, ev, "lim")>>,
        <<"load: restores the ranked lines", Restores(s, ev, "lines")>>}
  ELSE {<<"load: an unknown file type is rejected", ~ev.ok>>}

\* candidates offered to the fit come from the lines of the (possibly loaded) transform
NearLine(p, w, ln, tol) == NLe(NAbs(NSub(NAdd(NMul(ln[1], p), ln[2]), w)), NAdd(tol, "1/1000000"))
FitClauses(s, ev) ==
  (IF ev.first THEN {} ELSE
   {<<"fit: uses the transform it was given", \A x \in Comps : ev.dig[ev.t][x] = s.t[ev.t][x]>>})
  \cup {<<"fit: every candidate is near a line of the transform",
     \A k \in 1..Len(ev.cand) : \E m \in 1..Len(ev.lines) : NearLine(ev.cand[k][1], ev.cand[k][2], ev.lines[m], ev.tol)>>}

Clauses(s, ev) ==
  KeepClauses(s, ev)
  \cup CASE ev.op = "limits" -> {<<"limits: only finite limits are accepted", ev.ok = Valid(ev)>>}
         [] ev.op = "grid" -> {<<"slope grid: succeeds", ev.ok>>} \cup (IF ev.ok THEN GridClauses(ev) ELSE {})
         [] ev.op = "brute" -> {<<"brute force: succeeds", ev.ok>>} \cup (IF ev.ok THEN BruteClauses(ev) ELSE {})
         [] ev.op = "extend" ->
              {<<"extend: a transform or an array is accepted, anything else rejected", ev.ok = Valid(ev)>>,
               <<"extend: appends exactly the given points", ev.ok => PtsEq(ev.after, ev.before \o ev.added)>>,
               <<"extend: leaves the given points alone", ev.source = "same">>}
         [] ev.op = "bin" -> {<<"binning: succeeds", ev.ok>>} \cup (IF ev.ok THEN BinClauses(ev) ELSE {})
         [] ev.op = "transform" ->
              {<<(IF ev.brute THEN "brute force" ELSE "slope grid") \o ": the calibrator transform succeeds", ev.ok>>}
              \cup (IF ~ev.ok THEN {} ELSE BinClauses(ev) \cup IF ev.brute THEN BruteClauses(ev) ELSE GridClauses(ev))
         [] ev.op = "save" -> SaveClauses(s, ev)
         [] ev.op = "load" -> LoadClauses(s, ev)
         [] ev.op = "fit"  -> IF ev.ok THEN FitClauses(s, ev) ELSE {}
         [] OTHER -> {}

HStep(s, ev) ==
  IF ev.op = "reset" THEN [st |-> [t |-> << >>, f |-> << >>], clauses |-> {}]
  ELSE [ st |-> [t |-> ev.dig,
                 f |-> IF ev.op = "save" THEN PutAll(s.f, ev.written, s.t[ev.t]) ELSE s.f],
         clauses |-> Clauses(s, ev) ]

INSTANCE TraceBase WITH Step <- HStep, InitSt <- [t |-> << >>, f |-> << >>]
=============================================================================
