--------------------------- MODULE LineListTrace ---------------------------
(***************************************************************************)
(* Validates line requests made to the real code - through the loader, the *)
(* atlas constructor, additions to an atlas and the calibrator - against   *)
(* LineList.tla.  An event carries the line list file as data, so that the *)
(* expected answer is computed here from the list and the request.         *)
(***************************************************************************)
EXTENDS LineList, TraceLog, TLC

VARIABLES l, st, cov

EPS == "1/1000000"      \* wavelengths in air are inexact
SLACK == "1/1000"       \* the limits of the range in air are inexact

AllLines(gs) == UNION {{gs[k].list[m] : m \in 1..Len(gs[k].list)} : k \in 1..Len(gs)}

Fuzzy(g) == \E k \in 1..Len(g.list) : RangeBorderline(g.list[k], g.r, SLACK)
GTied(g) == Tied(Qualifying(g.list, g.r), g.r.n)

Cat(ss) == LET RECURSIVE F(_)
               F(k) == IF k > Len(ss) THEN << >> ELSE ss[k] \o F(k + 1)
           IN F(1)
Want(gs) == Cat([k \in 1..Len(gs) |-> Selected(gs[k].list, gs[k].r)])

SameWave(x, vac, w) == IF vac THEN NEq(x.w, w) ELSE NNear(x.a, w, EPS)

Shape(o) == Len(o.w) = Len(o.e) /\ Len(o.w) = Len(o.i)
SameLine(x, vac, o, k) ==
  SameWave(x, vac, o.w[k]) /\ x.e = o.e[k] /\ NEq(x.i, o.i[k])

LoadClauses(ev) ==
  LET gs  == ev.groups
      vac == gs[1].r.vac
      o   == ev.res
      n   == ev.entry
      exact == ~\E k \in 1..Len(gs) : Fuzzy(gs[k]) \/ GTied(gs[k])
      want  == Want(gs)
      q     == Qualifying(gs[1].list, gs[1].r)
  IN
  {<<n \o ": a valid request succeeds", ev.ok>>}
  \cup IF ~ev.ok THEN {} ELSE
  {<<n \o ": the three lists have the same length", Shape(o)>>}
  \cup IF ~Shape(o) THEN {} ELSE
  {<<n \o ": every line is a line of the list with its own element and intensity",
      \A k \in 1..Len(o.w) : \E x \in AllLines(gs) : SameLine(x, vac, o, k)>>}
  \cup (IF Len(gs) = 1
        THEN {<<n \o ": wavelengths strictly increase",
                \A k \in 1..(Len(o.w)-1) : NLt(o.w[k], o.w[k+1])>>} ELSE {})
  \cup (IF exact
        THEN {<<n \o (IF vac THEN ": exactly the selected lines, in vacuum" ELSE ": exactly the selected lines, in air"),
                Len(want) = Len(o.w) /\ \A k \in 1..Len(want) : SameLine(want[k], vac, o, k)>>}
        ELSE {})
  \cup (IF Len(gs) = 1 /\ GTied(gs[1]) /\ ~Fuzzy(gs[1]) /\ NLe(gs[1].r.d, 0)
        THEN {<<n \o ": the brightest lines among equally bright ones",
                /\ Len(o.w) = Card(q, gs[1].r.n)
                /\ \A m \in 1..Len(q) : MustKeep(q, gs[1].r.n, q[m]) =>
                     \E k \in 1..Len(o.w) : SameLine(q[m], vac, o, k)
                /\ \A k \in 1..Len(o.w) : \E m \in 1..Len(q) :
                     MayKeep(q, gs[1].r.n, q[m]) /\ SameLine(q[m], vac, o, k)>>}
        ELSE {})

Rows(w) == [k \in 1..Len(w) |-> [w |-> w[k]]]

SepClauses(ev) ==
  {<<"separation filter: returns a mask for the lines", ev.ok /\ Len(ev.mask) = Len(ev.w)>>}
  \cup IF ~ev.ok \/ Len(ev.mask) # Len(ev.w) THEN {} ELSE
  {<<"separation filter: keeps exactly the isolated lines",
      \A k \in 1..Len(ev.w) :
         \/ (ev.mask[k] = Isolated(Rows(ev.w), k, ev.d))
         \/ IsolationBorderline(Rows(ev.w), k, ev.d, "1/1000000000")
              /\ ~ev.dyadic>>}

\* user lines: flagged lists are converted with their own conditions
UserClauses(ev) ==
  {<<ev.entry \o ": user lines are accepted", ev.ok>>}
  \cup IF ~ev.ok THEN {} ELSE
  {<<ev.entry \o (IF ev.vac THEN ": user lines are converted with the given conditions"
                            ELSE ": user lines are kept unchanged"),
     /\ Len(ev.got) = Len(ev.w)
     /\ \A k \in 1..Len(ev.w) :
          IF ev.vac THEN NNear(ev.got[k], ev.conv[k], EPS) ELSE NEq(ev.got[k], ev.w[k])>>}

ConvClauses(ev) ==
  {<<"conversion succeeds", ev.ok>>}
  \cup IF ~ev.ok THEN {} ELSE
  {<<"conversion keeps the number and order of the lines",
      Len(ev.a) = Len(ev.v) /\ \A k \in 1..(Len(ev.v)-1) :
        NLt(ev.v[k], ev.v[k+1]) => NLt(ev.a[k], ev.a[k+1])>>,
   <<"air wavelengths are shorter than vacuum wavelengths",
      \A k \in 1..Len(ev.v) : NLt(ev.a[k], ev.v[k])>>,
   <<"vacuum to air and back returns the wavelength",
      \A k \in 1..Len(ev.v) :
        NLe(NAbs(NSub(ev.back[k], ev.v[k])), NMul(ev.v[k], "1/10000000"))>>,
   <<"single and several wavelengths are converted alike",
      \A k \in 1..Len(ev.v) : NNear(ev.single[k], ev.a[k], EPS)>>}

LStep(s, ev) ==
  [ st |-> s,
    clauses |->
      CASE ev.op = "load"       -> LoadClauses(ev)
        [] ev.op = "separation" -> SepClauses(ev)
        [] ev.op = "user"       -> UserClauses(ev)
        [] ev.op = "convert"    -> ConvClauses(ev)
        [] OTHER                -> {} ]

INSTANCE TraceBase WITH Step <- LStep, InitSt <- 0
=============================================================================
