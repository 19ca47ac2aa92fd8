------------------------------ MODULE EdlenMC ------------------------------
(***************************************************************************)
(* Checks the transcription of the equations on a lattice of conditions:   *)
(* published values of the vapour pressure and of the index, the expected  *)
(* monotonicity in every variable, inversion and preservation of order.    *)
(* The state walks over the lattice one step in one variable at a time.    *)
(***************************************************************************)
EXTENDS Edlen, TLC

CONSTANTS MW, MT, MP, MH      \* last index of each axis

VARIABLES i

Wl == <<"3000", "3100", "3500", "4000", "5000", "6328", "8000", "10000", "15000", "25000">>
Tk == <<"27315/100", "27815/100", "28315/100", "28815/100", "29315/100", "30315/100", "31315/100", "37315/100">>
Pp == <<"50000", "60000", "70000", "80000", "95000", "101325", "110000">>
Hh == <<0, 10, 50, 90, 100>>

Init == i = [w |-> 1, t |-> 1, p |-> 1, h |-> 1]
Last == [w |-> MW, t |-> MT, p |-> MP, h |-> MH]
Next == \E a \in {"w", "t", "p", "h"} : i[a] < Last[a] /\ i' = [i EXCEPT ![a] = @ + 1]
Spec == Init /\ [][Next]_i

At(j) == NAir(Wl[j.w], Tk[j.t], Pp[j.p], Hh[j.h])

\* the index is above 1 and within the range seen in the atmosphere
Plausible == LET n == At(i) IN NLt("10001/10000", n) /\ NLt(n, "10004/10000")
\* falls with wavelength, temperature and humidity, rises with pressure
Monotone == [][LET a == At(i)  b == At(i')
               IN IF i'.p # i.p THEN NLt(a, b) ELSE NLt(b, a)]_i
\* conversion keeps the order of wavelengths
Ordered == [][i'.w # i.w => NLt(VacToAir(Wl[i.w], Tk[i.t], Pp[i.p], Hh[i.h]),
                                VacToAir(Wl[i'.w], Tk[i.t], Pp[i.p], Hh[i.h]))]_i
\* the two conversions invert each other to a few parts in a hundred million
Inverts == LET a == VacToAir(Wl[i.w], Tk[i.t], Pp[i.p], Hh[i.h])
           IN RelNear(AirToVac(a, Tk[i.t], Pp[i.p], Hh[i.h]), Wl[i.w], "5/100000000")
\* and exactly the same index seen from vacuum
Exact == LET a == VacToAir(Wl[i.w], Tk[i.t], Pp[i.p], Hh[i.h])
         IN NEq(NMul(a, At(i)), Wl[i.w])

(* Published values: IAPWS-IF97 saturation pressures (table 35: 300 K, and *)
(* the steam tables at 0.01, 20, 100 degrees), and the index of the NIST   *)
(* toolbox page for 633 nm, 20 degrees, 101325 Pa, 50 % humidity           *)
\* (1.000271374), and dry standard air.
ASSUME RelNear(Psv("300"), "3536589/1000", "1/1000000")
ASSUME RelNear(Psv("27316/100"), "611657/1000", "1/10000")
ASSUME RelNear(Psv("29315/100"), "23392/10", "1/2000")
ASSUME RelNear(Psv("37315/100"), "101418/1", "1/10000")
ASSUME NNear(NAir("6330", "29315/100", "101325", 50), "1000271375/1000000000", "1/50000000")
ASSUME NNear(NAir("6330", "28815/100", "101325", 0), Ns("6330"), "1/50000000")
=============================================================================
