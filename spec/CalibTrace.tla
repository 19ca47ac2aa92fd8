----------------------------- MODULE CalibTrace -----------------------------
(***************************************************************************)
(* Validates histories of real atlases and calibrators, changed through    *)
(* either object, against Calib.tla and Atlas.tla.                         *)
(*                                                                         *)
(* st.at: content of every atlas; st.c: every calibrator with the atlas it *)
(* refers to (0: none), its configuration and whether its search space is  *)
(* up to date (fresh).                                                     *)
(***************************************************************************)
EXTENDS Calib, TraceLog

VARIABLES l, st, cov

SeqEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NEq(s[k], t[k])
StrEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : s[k] = t[k]
LinesEq(atlas, o) ==
  SeqEq(Wavelengths(atlas), o.w) /\ StrEq(Elements(atlas), o.e) /\ SeqEq(Intensities(atlas), o.i)
FromObs(o) == IF Len(o.w) = Len(o.e) /\ Len(o.w) = Len(o.i)
              THEN [k \in 1..Len(o.w) |-> Line(o.w[k], o.e[k], o.i[k])]
              ELSE << >>
Cat(ss) == LET RECURSIVE F(_)
               F(k) == IF k > Len(ss) THEN << >> ELSE ss[k] \o F(k + 1)
           IN F(1)
LibLines(lib) == Cat([k \in 1..Len(lib) |-> UserLines(lib[k].w, lib[k].e, lib[k].i, TRUE)])

-----------------------------------------------------------------------------
(* the same multiset of pairs *)
PEq(x, y) == NEq(x[1], y[1]) /\ NEq(x[2], y[2])
Count(s, x) == Cardinality({k \in 1..Len(s) : PEq(s[k], x)})
BagEq(s, t) ==
  /\ Len(s) = Len(t)
  /\ \/ \A k \in 1..Len(s) : PEq(s[k], t[k])
     \/ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])
BagIn(s, t) ==
  \/ Len(s) = 0
  \/ \A k \in 1..Len(s) : Count(s, s[k]) <= Count(t, s[k])

EPS == "1/10000000"

PairsClauses(n, cal, lines, obs) ==
  LET all  == Product(cal.peaks, Wavelengths(lines))
      must == SelectSeq(all, LAMBDA x : InPolygon(cal.g, cal.P, x) /\ ~OnEdge(cal.g, cal.P, x, EPS))
      may  == SelectSeq(all, LAMBDA x : InPolygon(cal.g, cal.P, x) \/ OnEdge(cal.g, cal.P, x, EPS))
  IN IF cal.g.cp
     THEN {<<n \o ": search space, restricted: every pair inside the polygon", BagIn(must, obs)>>,
           <<n \o ": search space, restricted: only pairs inside the polygon", BagIn(obs, may)>>}
     ELSE {<<n \o ": search space: every peak with every line once", BagEq(all, obs)>>}

-----------------------------------------------------------------------------
Valid(ev) == ev.op = "add" => UserArgsOK(ev.ws, ev.es, ev.is, ev.h)

\* content of the atlas the event changes
After(lines, ev) ==
  CASE ~Valid(ev)         -> lines
    [] ev.op = "add"      -> AddLines(lines, UserLines(ev.ws, ev.es, ev.is, ev.h))
    [] ev.op = "addlib"   -> AddLines(lines, LibLines(ev.lib))
    [] ev.op = "remove"   -> RemoveRange(lines, ev.w, ev.tol)
    [] ev.op = "clear"    -> << >>
    [] OTHER              -> lines

AtlasOps == {"add", "addlib", "remove", "clear"}

\* c.a after the event; a calibrator without atlas gets a new one when lines are added
AtlasOf(s, ev) == IF ev.c = 0 THEN ev.a
                  ELSE IF s.c[ev.c].a = 0 THEN Len(s.at) + 1 ELSE s.c[ev.c].a

ConfigAfter(g, ev) ==
  CASE ev.op = "range" -> [g EXCEPT !.minw = ev.minw, !.maxw = ev.maxw, !.rt = ev.rt]
    [] ev.op \in {"set", "add", "addlib"} /\ ev.ok /\ ev.c > 0 -> [g EXCEPT !.ct = ev.ct, !.cp = ev.cp]
    [] OTHER -> g

Rebuilds(s, ev) ==
  \/ ev.op \in {"set", "fit"} \/ (ev.op \in AtlasOps /\ ev.ok)
  \/ (ev.op = "range" /\ s.c[ev.c].a > 0)

Expect(s, ev) ==
  LET at1 == IF ev.op \in AtlasOps
             THEN LET a == AtlasOf(s, ev)
                      grown == IF a > Len(s.at) THEN Append(s.at, << >>) ELSE s.at
                  IN [grown EXCEPT ![a] = After(@, ev)]
             ELSE s.at
      a1  == IF ev.op \in AtlasOps THEN AtlasOf(s, ev) ELSE 0
      c1  == [k \in 1..Len(s.c) |->
               LET cal == s.c[k] IN
               IF k = ev.c
               THEN [cal EXCEPT
                      !.a = IF ev.op = "set" THEN ev.a ELSE IF ev.op \in {"add", "addlib"} THEN a1 ELSE @,
                      !.g = ConfigAfter(@, ev),
                      !.P = IF ev.op = "pix" THEN ev.P ELSE @,
                      !.fresh = IF Rebuilds(s, ev) THEN TRUE ELSE IF ev.op = "pix" THEN FALSE ELSE @]
               ELSE IF ev.op \in AtlasOps /\ cal.a = a1 THEN [cal EXCEPT !.fresh = FALSE] ELSE cal]
  IN [at |-> at1, c |-> c1]

Subset(x, lines) == \A k \in 1..Len(x) : \E m \in 1..Len(lines) : NEq(x[k], lines[m].w)

Who(ev) == IF ev.c > 0 THEN "calibrator " \o ev.op ELSE "atlas " \o ev.op

Clauses(s, ev) ==
  LET e == Expect(s, ev)
      n == Who(ev)
  IN
  (IF ev.op \in AtlasOps
   THEN {<<n \o ": succeeds exactly for valid arguments", ev.ok = Valid(ev)>>} ELSE {})
  \cup {<<n \o ": every atlas holds exactly the expected lines",
          Len(ev.obs.at) = Len(e.at) /\ \A a \in 1..Len(e.at) : LinesEq(e.at[a], ev.obs.at[a])>>,
        <<n \o ": every calibrator refers to the expected atlas",
          \A k \in 1..Len(e.c) : ev.obs.c[k].a = e.c[k].a>>}
  \cup (IF ev.op = "addlib" /\ ev.c > 0 /\ ev.default
        THEN {<<n \o ": default library range", /\ NEq(ev.lo, DefaultLo(s.c[ev.c].g))
                                               /\ NEq(ev.hi, DefaultHi(s.c[ev.c].g))>>} ELSE {})
  \cup UNION {IF e.c[k].a > 0 /\ e.c[k].fresh
              THEN PairsClauses(IF k = ev.c THEN n ELSE "others", e.c[k], e.at[e.c[k].a], ev.obs.c[k].pairs)
              ELSE {} : k \in 1..Len(e.c)}
  \cup (IF ev.op = "fit" /\ ev.ok
        THEN {<<"fit: every matched line is in the current atlas", Subset(ev.lines, e.at[e.c[ev.c].a])>>,
              <<"fit: every candidate line is in the current atlas", Subset(ev.cand, e.at[e.c[ev.c].a])>>} ELSE {})
  \cup (IF ev.op = "fit"
        THEN {<<"fit: leaves every atlas alone", \A a \in 1..Len(s.at) : LinesEq(s.at[a], ev.obs.at[a])>>} ELSE {})

Resync(e, ev) == [e EXCEPT !.at = [a \in 1..Len(ev.obs.at) |-> FromObs(ev.obs.at[a])],
                           !.c = [k \in 1..Len(e.c) |-> [e.c[k] EXCEPT !.a = ev.obs.c[k].a]]]

CStep(s, ev) ==
  IF ev.op = "reset" THEN [st |-> [at |-> << >>, c |-> << >>], clauses |-> {}]
  ELSE IF ev.op = "atlas" THEN [st |-> [s EXCEPT !.at = Append(@, << >>)], clauses |-> {}]
  ELSE IF ev.op = "calibrator"
  THEN [st |-> [s EXCEPT !.c = Append(@, [a |-> 0, peaks |-> ev.peaks, P |-> ev.P, fresh |-> FALSE,
                  g |-> [minw |-> 3000, maxw |-> 9000, rt |-> 500, ct |-> 0, cp |-> FALSE]])],
        clauses |-> {}]
  ELSE [st |-> Resync(Expect(s, ev), ev), clauses |-> Clauses(s, ev)]

INSTANCE TraceBase WITH Step <- CStep, InitSt <- [at |-> << >>, c |-> << >>]
=============================================================================
