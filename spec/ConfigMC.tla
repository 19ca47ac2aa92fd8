------------------------------ MODULE ConfigMC ------------------------------
(***************************************************************************)
(* Histories of configuration calls.  The calls are modelled as the code   *)
(* does them - setting by setting, each one either given, or unset and     *)
(* defaulted, or kept - and may be rejected half way.  A ghost remembers    *)
(* the last value explicitly given.                                        *)
(***************************************************************************)
EXTENDS Config, Sequences, Json

CONSTANTS Vals, MaxHist, Generating

\* three representative settings: the wavelength limits and one that can be rejected
Names == <<"min_wavelength", "max_wavelength", "minimum_matches">>
Default == [n \in {Names[k] : k \in 1..Len(Names)} |->
              CASE n = "min_wavelength" -> 10 [] n = "max_wavelength" -> 20 [] OTHER -> 0]

MCVals == {-1, 5, 30}

VARIABLES cur, given, call, pos, used, want, hist
vars == <<cur, given, call, pos, used, want, hist>>

Unset == -99
Init ==
  /\ cur = [n \in DOMAIN Default |-> Default[n]]     \* the constructor configures with nothing given
  /\ given = [n \in DOMAIN Default |-> Unset]
  /\ call = << >> /\ pos = 0
  /\ used = DefaultLibrary /\ want = DefaultLibrary /\ hist = << >>

Idle == pos = 0 /\ Len(hist) < MaxHist

Call ==
  /\ Idle
  /\ \E ns \in SUBSET DOMAIN Default : \E v \in [ns -> Vals] :
       /\ call' = <<v>> /\ pos' = 1
       /\ hist' = Append(hist, [op |-> "set", v |-> [n \in DOMAIN Default |-> IF n \in ns THEN v[n] ELSE Unset]])
  /\ UNCHANGED <<cur, given, used, want>>

\* one setting of the call in progress; a rejected value ends the call
Setting ==
  /\ pos > 0 /\ pos <= Len(Names)
  /\ LET n == Names[pos] IN
     IF n \in DOMAIN call[1]
     THEN IF n \in Rejectable /\ InvalidOne(n, call[1][n])
          THEN pos' = 0 /\ call' = << >> /\ UNCHANGED <<cur, given>>
          ELSE /\ cur' = [cur EXCEPT ![n] = call[1][n]]
               /\ given' = [given EXCEPT ![n] = call[1][n]]
               /\ pos' = pos + 1 /\ UNCHANGED call
     ELSE pos' = pos + 1 /\ UNCHANGED <<cur, given, call>>
  /\ UNCHANGED <<used, want, hist>>
EndCall ==
  /\ pos = Len(Names) + 1
  /\ pos' = 0 /\ call' = << >> /\ UNCHANGED <<cur, given, used, want, hist>>

Library ==
  /\ Idle
  /\ \E x \in Libraries \cup {"none", "foo"}, direct \in BOOLEAN :
       /\ direct => x \in Libraries
       /\ used' = Chosen(used, x)
       /\ want' = IF x \in Libraries THEN x ELSE want
       /\ hist' = Append(hist, [op |-> "library", x |-> x, direct |-> direct])
  /\ UNCHANGED <<cur, given, call, pos>>

Next == Call \/ Setting \/ EndCall \/ Library
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C01 *)
Sticky ==
  \A n \in DOMAIN Default : cur[n] = IF given[n] = Unset THEN Default[n] ELSE given[n]
NeverInvalid == ~InvalidRansac("minimum_matches" :> cur["minimum_matches"]) \/ given["minimum_matches"] = Unset
\* the atomic view of the trace specification agrees with the stepwise one
Atomic ==
  [][pos = Len(Names) + 1 /\ pos' = 0 => cur = Updated(cur, call[1])]_vars
(* C03 *)
OneBackend == used \in Libraries /\ used = want
(* C02: limits are ordered whenever tolerances are not negative *)
LimitsOrdered ==
  \A rt \in 0..3, lt \in 0..3 :
    LET s == [min_wavelength |-> cur["min_wavelength"], max_wavelength |-> cur["max_wavelength"],
              range_tolerance |-> rt, linearity_tolerance |-> lt]
    IN /\ MinIntercept(s) <= MaxIntercept(s)
       /\ MinRise(s) <= MaxRise(s) + 0
       /\ MinRise(s) + MaxRise(s) = 2 * (s["max_wavelength"] - s["min_wavelength"]) + 2 * rt

Emit == (Generating /\ Len(hist) = MaxHist /\ pos = 0) => PrintT("@GEN " \o ToJson(hist))
View == <<cur, given, call, pos, used, want, Len(hist)>>
=============================================================================
