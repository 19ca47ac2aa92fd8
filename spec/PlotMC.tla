------------------------------- MODULE PlotMC -------------------------------
(* All interleavings of plots with what changes a calibrator.  version     *)
(* counts the changes of the calibrator; dir maps each file to the version *)
(* it shows.                                                               *)
EXTENDS Plot, FiniteSets, TLC, Json

CONSTANTS Names, TypeSets, MaxHist

VARIABLES lib, data, version, dir, last, hist
vars == <<lib, data, version, dir, last, hist>>

Kinds == {"arc", "fit", "search", "lines"}
LibOf(k) == IF k = "lines" THEN "matplotlib" ELSE lib

Init == /\ lib \in {"matplotlib", "plotly"}
        /\ \E s \in BOOLEAN : data = [spectrum |-> s, candidates |-> FALSE, solution |-> FALSE]
        /\ version = 0 /\ dir = << >> /\ last = [op |-> "none"]
        /\ hist = <<[op |-> "begin", lib |-> lib, spectrum |-> data.spectrum]>>
Log(op) == last' = op /\ hist' = Append(hist, op)

Library == \E l \in {"matplotlib", "plotly"} : /\ lib' = l /\ Log([op |-> "library", lib |-> l])
             /\ version' = version + 1 /\ UNCHANGED <<data, dir>>
Change == \E w \in {"fit", "match", "edit", "refit", "properties", "known", "hough"} :
            /\ (w \in {"match", "edit", "refit"} => data.solution)
            /\ data' = IF w = "fit" THEN [data EXCEPT !.candidates = TRUE, !.solution = TRUE] ELSE data
            /\ version' = version + 1 /\ Log([op |-> w]) /\ UNCHANGED <<lib, dir>>
Draw == \E k \in Kinds, save \in BOOLEAN, types \in TypeSets, name \in Names, json \in BOOLEAN :
          LET fs == Files(k, LibOf(k), save, types, name) IN
          /\ Possible(k, data)
          /\ dir' = [f \in DOMAIN dir \cup fs |-> IF f \in fs THEN <<k, version>> ELSE dir[f]]
          /\ Log([op |-> "plot", kind |-> k, save |-> save, types |-> types, name |-> name, json |-> json,
                  ret |-> Returns(LibOf(k), json)])
          /\ UNCHANGED <<lib, data, version>>
Next == Len(hist) < MaxHist /\ (Library \/ Change \/ Draw)
Spec == Init /\ [][Next]_vars
View == <<lib, data, version, dir, last, Len(hist)>>

-----------------------------------------------------------------------------
\* plots change neither the calibrator nor what can be plotted
ReadOnly == [][last'.op = "plot" => UNCHANGED <<lib, data, version>>]_vars
\* only plots that save write, at most one file per type, each once
Writes == [][dir' # dir => last'.op = "plot" /\ last'.save]_vars
PerType == [][last'.op = "plot" => Cardinality({f \in DOMAIN dir' : f \notin DOMAIN dir \/ dir'[f] # dir[f]}) <= Cardinality(last'.types)]_vars
\* without a save everything on disk stays
Kept == [][\A f \in DOMAIN dir : f \in DOMAIN dir']_vars
JsonOnly == last.op = "plot" => (last.ret = "json" => last.json /\ lib = "plotly" /\ last.kind # "lines")
\* nothing on disk shows a later state than the current one
NotFuture == \A f \in DOMAIN dir : dir[f][2] <= version
\* a fit plot needs a fit
NeedsFit == last.op = "plot" /\ last.kind \in {"fit", "search"} => \E k \in 1..Len(hist) : hist[k].op = "fit"

Emit == Len(hist) < MaxHist \/ PrintT("@GEN " \o ToJson(hist))
=============================================================================
