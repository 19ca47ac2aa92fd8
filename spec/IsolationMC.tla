----------------------------- MODULE IsolationMC -----------------------------
(* Two calibrators, two atlases and two caller objects, all interleavings  *)
(* of calls with objects as arguments and of changes of the objects.       *)
EXTENDS Isolation, TLC, Json

CONSTANTS MaxVal, MaxHist

VARIABLES objs, own, lines, link, last, hist
vars == <<objs, own, lines, link, last, hist>>
C == 1..2

Init == objs = <<0, 0>> /\ own = <<0, 0>> /\ lines = <<0, 0>> /\ link = <<0, 0>> /\ last = [op |-> "none"] /\ hist = << >>
Log(o) == last' = o /\ hist' = Append(hist, o)

\* the caller changes an object
Mutate == \E k \in C : objs[k] < MaxVal /\ objs' = [objs EXCEPT ![k] = @ + 1] /\ Log([op |-> "mutate", k |-> k])
                       /\ UNCHANGED <<own, lines, link>>
\* a call on a calibrator with an object
Call == \E c, k \in C : own' = [own EXCEPT ![c] = objs[k]] /\ Log([op |-> "call", c |-> c, k |-> k]) /\ UNCHANGED <<objs, lines, link>>
\* atlas edits, directly or through a calibrator
Edit == \E a, k \in C : lines' = [lines EXCEPT ![a] = objs[k]] /\ Log([op |-> "edit", a |-> a, k |-> k]) /\ UNCHANGED <<objs, own, link>>
Through == \E c, k \in C : link[c] # 0 /\ lines' = [lines EXCEPT ![link[c]] = objs[k]]
              /\ Log([op |-> "through", c |-> c, k |-> k]) /\ UNCHANGED <<objs, own, link>>
Link == \E c, a \in C : link' = [link EXCEPT ![c] = a] /\ Log([op |-> "link", c |-> c, a |-> a]) /\ UNCHANGED <<objs, own, lines>>
Next == Len(hist) < MaxHist /\ (Mutate \/ Call \/ Edit \/ Through \/ Link)
Spec == Init /\ [][Next]_vars
View == <<objs, own, lines, link, last, Len(hist)>>

Cal(c) == <<own[c], link[c], IF link[c] = 0 THEN 0 ELSE lines[link[c]]>>
Cals == [c \in C |-> Cal(c)]
-----------------------------------------------------------------------------
ArgsKept == [][last'.op # "mutate" => objs' = objs]_vars
MutateUnseen == [][last'.op = "mutate" => Cals' = Cals /\ lines' = lines]_vars
OnlyReached == [][
  LET r == CASE last'.op = "call"    -> Reach(last'.c, FALSE, FALSE, link)
             [] last'.op = "edit"    -> Reach(last'.a, TRUE, TRUE, link)
             [] last'.op = "through" -> Reach(last'.c, TRUE, FALSE, link)
             [] last'.op = "link"    -> {<<"cal", last'.c>>}
             [] OTHER -> {}
  IN Changed("cal", Cals, Cals') \cup Changed("atlas", lines, lines') \subseteq r]_vars
Separate == [][\A c \in C : (last'.op \in {"edit", "through"} /\ Cal(c)' # Cal(c)) => link[c] # 0]_vars

Emit == Len(hist) < MaxHist \/ PrintT("@GEN " \o ToJson(hist))
=============================================================================
