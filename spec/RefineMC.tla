------------------------------ MODULE RefineMC ------------------------------
(* The peaks are refined one after the other; all spectra of up to two     *)
(* lines and lists of up to three peaks on a small detector.               *)
EXTENDS Refine, FiniteSets, TLC

CONSTANTS N, W, MaxPeaks
R1 == 1

VARIABLES lines, todo, done, out
vars == <<lines, todo, done, out>>

Line == [c : 0..N - 1, s : {1}]
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Range(s) == {s[k] : k \in 1..Len(s)}

Init == /\ lines \in Lists(Line, 2)
        /\ (Len(lines) = 2 => lines[1].c < lines[2].c)
        /\ todo \in Lists((0 - W - 1)..(N + W + 1), MaxPeaks)
        /\ done = << >> /\ out = << >>
Step == /\ todo # << >>
        /\ LET p == Head(todo) IN
           out' = IF Clear(lines, p, W, N) /\ Centre(lines, p, W, N) \notin Range(out)
                  THEN Append(out, Centre(lines, p, W, N)) ELSE out
        /\ todo' = Tail(todo) /\ done' = Append(done, Head(todo)) /\ UNCHANGED lines
Spec == Init /\ [][Step]_vars

-----------------------------------------------------------------------------
Computed == out = Refined(lines, done, W, N, << >>)
Unique == Cardinality(Range(out)) = Len(out)
OnDetector == \A k \in 1..Len(out) : 0 <= out[k] /\ out[k] < N
FromItsWindow == \A k \in 1..Len(out) : \E j \in 1..Len(done) :
                    Lo(done[j], W) <= out[k] /\ out[k] < Hi(done[j], W, N) /\ Clear(lines, done[j], W, N)
\* independent per peak: as a set, the result is the union of the results for single peaks
Independent == Range(out) = UNION {Range(Refined(lines, <<done[k]>>, W, N, << >>)) : k \in 1..Len(done)}
\* order of the first peaks that find them
Ordered == \A a, b \in 1..Len(out) : a < b =>
   \E i \in 1..Len(done) : /\ Clear(lines, done[i], W, N) /\ Centre(lines, done[i], W, N) = out[a]
                           /\ \A j \in 1..i : ~(Clear(lines, done[j], W, N) /\ Centre(lines, done[j], W, N) = out[b])
\* lines whose light is outside the window do not matter
Local == \A k \in 1..Len(lines) : LET rest == SelectSeq(lines, LAMBDA l : l # lines[k]) IN
   \A j \in 1..Len(done) : ~(k \in Seen(lines, done[j], W, N)) =>
      Refined(rest, <<done[j]>>, W, N, << >>) = Refined(lines, <<done[j]>>, W, N, << >>)
OffDropped == \A j \in 1..Len(done) : Off(done[j], W, N) => Refined(lines, <<done[j]>>, W, N, << >>) = << >>
=============================================================================
