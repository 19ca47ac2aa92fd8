------------------------------ MODULE CalibMC ------------------------------
(***************************************************************************)
(* Two calibrators and two atlases, changed through either object, in      *)
(* every order.  The search space is a snapshot: fresh says whether the    *)
(* calibrator has rebuilt it since its atlas last changed behind its back. *)
(***************************************************************************)
EXTENDS Calib, Json

CONSTANTS Waves, MaxLines, MaxHist, Generating

Cs == {1, 2}
As == {1, 2}
Peaks == <<1, 2>>
PMax == 3
Cfgs == { [minw |-> 1, maxw |-> m, rt |-> 0, ct |-> t, cp |-> b] : m \in {2, 4}, t \in {1}, b \in BOOLEAN }
NoAtlas == 0

VARIABLES at,     \* at[a]: lines
          c,      \* c[k]: [a, g, pairs]
          fitted, \* ghost: search space used by the last fit, and the atlas at that time
          touched,\* ghost: calibrators whose atlas changed behind their back
          hist
vars == <<at, c, fitted, touched, hist>>

G0 == [minw |-> 1, maxw |-> 2, rt |-> 0, ct |-> 1, cp |-> FALSE]
Init ==
  /\ at = [a \in As |-> << >>]
  /\ c = [k \in Cs |-> [a |-> NoAtlas, g |-> G0, pairs |-> << >>]]
  /\ fitted = << >> /\ touched = {} /\ hist = << >>

Lines(a) == Wavelengths(at[a])
Rebuild(cal, lines) == [cal EXCEPT !.pairs = SearchSpace(Peaks, lines, cal.g, PMax)]
Rec(o) == Len(hist) < MaxHist /\ hist' = Append(hist, o)

\* operations on an atlas object; every calibrator using it becomes stale
ChangeAtlas(a, new, by) ==
  /\ at' = [at EXCEPT ![a] = new]
  /\ touched' = (touched \ {by}) \cup {k \in Cs \ {by} : c[k].a = a}
  /\ c' = IF by \in Cs THEN [c EXCEPT ![by] = Rebuild(@, Wavelengths(new))] ELSE c

AtlasAdd(a, by) ==
  \E w \in Waves :
    /\ Len(at[a]) < MaxLines
    /\ ChangeAtlas(a, Append(at[a], Line(w, "He", 0)), by)
    /\ Rec([op |-> "add", a |-> a, c |-> by, w |-> w])
AtlasRemove(a, by) ==
  \E w \in Waves :
    /\ ChangeAtlas(a, RemoveRange(at[a], w, 1), by)
    /\ Rec([op |-> "remove", a |-> a, c |-> by, w |-> w])
AtlasClear(a, by) ==
  /\ ChangeAtlas(a, << >>, by)
  /\ Rec([op |-> "clear", a |-> a, c |-> by])

ViaAtlas == \E a \in As : AtlasAdd(a, 0) \/ AtlasRemove(a, 0) \/ AtlasClear(a, 0)
ViaCalibrator ==
  \E k \in Cs : c[k].a # NoAtlas /\
    (AtlasAdd(c[k].a, k) \/ AtlasRemove(c[k].a, k) \/ AtlasClear(c[k].a, k))

SetAtlas ==
  \E k \in Cs, a \in As, t \in {1}, b \in BOOLEAN :
    LET g == [c[k].g EXCEPT !.ct = t, !.cp = b] IN
    /\ c' = [c EXCEPT ![k] = Rebuild([@ EXCEPT !.a = a, !.g = g], Lines(a))]
    /\ touched' = touched \ {k}
    /\ Rec([op |-> "set", c |-> k, a |-> a, cp |-> b])
    /\ UNCHANGED at

Range ==
  \E k \in Cs, m \in {2, 4} :
    LET new == [c[k] EXCEPT !.g.maxw = m] IN
    /\ c' = [c EXCEPT ![k] = IF new.a = NoAtlas THEN new ELSE Rebuild(new, Lines(new.a))]
    /\ touched' = IF new.a = NoAtlas THEN touched ELSE touched \ {k}
    /\ Rec([op |-> "range", c |-> k, maxw |-> m])
    /\ UNCHANGED at

Fit ==
  \E k \in Cs :
    /\ c[k].a # NoAtlas
    /\ c' = [c EXCEPT ![k] = Rebuild(@, Lines(c[k].a))]
    /\ fitted' = <<[pairs |-> c'[k].pairs, lines |-> Lines(c[k].a), g |-> c[k].g]>>
    /\ touched' = touched \ {k}
    /\ Rec([op |-> "fit", c |-> k])
    /\ UNCHANGED at

Next == Fit \/ ((ViaAtlas \/ ViaCalibrator \/ SetAtlas \/ Range) /\ UNCHANGED fitted)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* D01 *)
FitUsesCurrentLines ==
  fitted # << >> =>
    LET f == fitted[1] IN
    /\ \A j \in 1..Len(f.pairs) : \E m \in 1..Len(f.lines) : f.pairs[j][2] = f.lines[m]
    /\ ~f.g.cp => \A m \in 1..Len(f.lines), p \in 1..Len(Peaks) :
                    \E j \in 1..Len(f.pairs) : f.pairs[j] = <<Peaks[p], f.lines[m]>>
    /\ ~f.g.cp => Len(f.pairs) = Len(Peaks) * Len(f.lines)
FreshUnlessBehindItsBack ==
  \A k \in Cs : c[k].a # NoAtlas /\ k \notin touched
                  => c[k].pairs = SearchSpace(Peaks, Lines(c[k].a), c[k].g, PMax)
\* a wider range never loses a pair of the polygon
PolygonMonotone ==
  \A g \in Cfgs : g.cp /\ g.maxw = 2 =>
    \A p \in 0..PMax, w \in 0..6 :
      (InPolygon(g, PMax, <<p, w>>) /\ ~OnEdge(g, PMax, <<p, w>>, 0))
        => InPolygon([g EXCEPT !.ct = g.ct + 1], PMax, <<p, w>>)
(* A06: a calibrator-level call changes one atlas only *)
OneAtlasAtATime == [][\A a \in As : at'[a] # at[a] => at'[3 - a] = at[3 - a]]_vars

Emit == (Generating /\ Len(hist) = MaxHist) => PrintT("@GEN " \o ToJson(hist))
View == <<at, c, fitted, touched, Len(hist)>>
=============================================================================
