------------------------------ MODULE AtlasMC ------------------------------
(***************************************************************************)
(* Histories of two atlases.  Removal is modelled as the implementation    *)
(* does it: a loop over a copy of the lines, one line per step.  Each line *)
(* carries a ghost identity (its position in the history of additions) so  *)
(* that "exactly the lines added and not removed, in order" is a state     *)
(* invariant.                                                              *)
(***************************************************************************)
EXTENDS Atlas, SequencesExt, Json

CONSTANTS Atlases, Waves, Elems, Tols, MaxLines, MaxHist, Generating

VARIABLES
  at,        \* at[a]: the lines, each with a ghost id
  added,     \* number of additions so far
  gone,      \* ghost: ids removed or cleared
  loop,      \* removal in progress: [a, w, tol, todo] or << >>
  before,    \* ghost: the atlas when the removal started
  hist       \* operations so far, replayed on the real code

vars == <<at, added, gone, loop, before, hist>>

WithId(ln, id) == [w |-> ln.w, e |-> ln.e, i |-> ln.i, id |-> id]
Ids(s) == {s[k].id : k \in 1..Len(s)}

Init ==
  /\ at = [a \in Atlases |-> << >>]
  /\ added = 0 /\ gone = {} /\ loop = << >> /\ before = << >> /\ hist = << >>

Record(op) == hist' = Append(hist, op)

\* One or two lines at once; the second may repeat the first
AddUser(a) ==
  /\ loop = << >> /\ Len(hist) < MaxHist
  /\ \E n \in 1..2 : \E ws \in [1..n -> Waves], es \in [1..n -> Elems], h \in BOOLEAN :
      LET is  == [k \in 1..n |-> 10 * k + added]
          new == UserLines(ws, es, is, h)
      IN  /\ Len(at[a]) + n <= MaxLines
          /\ at' = [at EXCEPT ![a] =
                      AddLines(@, [k \in 1..n |-> WithId(new[k], added + k)])]
          /\ added' = added + n
          /\ Record([op |-> "add", a |-> a, ws |-> ws, es |-> es, is |-> is, h |-> h])
  /\ UNCHANGED <<gone, loop, before>>

Clear(a) ==
  /\ loop = << >> /\ Len(hist) < MaxHist
  /\ gone' = gone \cup Ids(at[a])
  /\ at' = [at EXCEPT ![a] = << >>]
  /\ Record([op |-> "clear", a |-> a])
  /\ UNCHANGED <<added, loop, before>>

StartRemove(a) ==
  /\ loop = << >> /\ Len(hist) < MaxHist
  /\ \E w \in Waves, t \in Tols :
       /\ loop' = <<[a |-> a, w |-> w, tol |-> t, todo |-> at[a]]>>
       /\ Record([op |-> "remove", a |-> a, w |-> w, tol |-> t])
  /\ before' = at[a]
  /\ UNCHANGED <<at, added, gone>>

RemoveStep ==
  /\ loop # << >> /\ loop[1].todo # << >>
  /\ LET r == loop[1]
         ln == Head(r.todo)
     IN  /\ loop' = <<[r EXCEPT !.todo = Tail(@)]>>
         /\ IF Within(ln, r.w, r.tol)
            THEN /\ at' = [at EXCEPT ![r.a] =
                             SelectSeq(@, LAMBDA x : x.id # ln.id)]
                 /\ gone' = gone \cup {ln.id}
            ELSE UNCHANGED <<at, gone>>
  /\ UNCHANGED <<added, before, hist>>

EndRemove ==
  /\ loop # << >> /\ loop[1].todo = << >>
  /\ loop' = << >>
  /\ UNCHANGED <<at, added, gone, before, hist>>

Next ==
  \/ \E a \in Atlases : AddUser(a) \/ Clear(a) \/ StartRemove(a)
  \/ RemoveStep \/ EndRemove

Spec == Init /\ [][Next]_vars /\ WF_vars(RemoveStep \/ EndRemove)

-----------------------------------------------------------------------------
(* A01: exactly the lines added and not removed, in order of addition, and
   no line in two atlases *)
Exact ==
  /\ UNION {Ids(at[a]) : a \in Atlases} = (1..added) \ gone
  /\ \A a, b \in Atlases : a # b => Ids(at[a]) \cap Ids(at[b]) = {}
Ordered ==
  \A a \in Atlases : \A j, k \in 1..Len(at[a]) : j < k => at[a][j].id < at[a][k].id
\* the listings describe the same lines
Aligned ==
  \A a \in Atlases :
    /\ Len(Wavelengths(at[a])) = Len(at[a])
    /\ \A k \in 1..Len(at[a]) :
         <<Wavelengths(at[a])[k], Elements(at[a])[k], Intensities(at[a])[k]>>
           = <<at[a][k].w, at[a][k].e, at[a][k].i>>

(* A02: when the loop is over, the atlas is the declarative result *)
RemovalExact ==
  (loop # << >> /\ loop[1].todo = << >>)
    => at[loop[1].a] = RemoveRange(before, loop[1].w, loop[1].tol)

\* an operation on one atlas leaves the others alone
Isolation ==
  [][\A a \in Atlases : at'[a] # at[a] =>
       \A b \in Atlases \ {a} : at'[b] = at[b]]_vars

RemovalEnds == loop # << >> ~> loop = << >>

\* behaviours for the conformance replay
Emit == (Generating /\ Len(hist) = MaxHist /\ loop = << >>)
          => PrintT("@GEN " \o ToJson(hist))
View == <<at, added, gone, loop, before, Len(hist)>>
=============================================================================
