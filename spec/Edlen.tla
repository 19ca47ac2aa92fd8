------------------------------- MODULE Edlen -------------------------------
(***************************************************************************)
(* The refractive index of moist air: the modified Edlen equation as       *)
(* published by NIST (Engineering Metrology Toolbox, Documentation,        *)
(* appendices A.I, A.II and A.IV), transcribed from the publication, and   *)
(* the conversion between vacuum and air wavelengths built on it.          *)
(*                                                                         *)
(* Only meaningful over the rationals (Num with its override).             *)
(* w: wavelength in Angstrom, T: temperature in Kelvin, p: pressure in     *)
(* Pascal, h: relative humidity in percent.                                *)
(***************************************************************************)
EXTENDS Num

\* decimal constants as rationals
K1  == "116705214528/100000000"
K2  == "-72421316703200/100000000"
K3 == "-170738469401/10000000000"
K4  == "1202082470240/100000000"
K5  == "-323255503223/100000"
K6  == "149151086135/10000000000"
K7  == "-482326573616/100000000"
K8  == "405113405421/1000000"
K9  == "-238555575678/1000000000000"
K10 == "650175348448/1000000000"

ZERO_C == "27315/100"

Sq(x)   == NMul(x, x)
Quad(a, b, c, x) == NAdd(NAdd(NMul(a, Sq(x)), NMul(b, x)), c)

(* A.I: saturation vapour pressure over water (0 to 100 degrees Celsius) *)
Omega(T) == NAdd(T, NDiv(K9, NSub(T, K10)))
Psv(T) ==
  LET o == Omega(T)
      A == Quad(1, K1, K2, o)
      B == Quad(K3, K4, K5, o)
      C == Quad(K6, K7, K8, o)
      X == NAdd(NNeg(B), NSqrt(NSub(Sq(B), NMul(4, NMul(A, C)))))
      r == NDiv(NMul(2, C), X)
  IN NMul(1000000, Sq(Sq(r)))

(* A.II: partial pressure of water vapour *)
Pv(h, psv) == NMul(NDiv(h, 100), psv)

(* A.IV: the modified Edlen equation *)
S(w)   == NDiv("100000000", Sq(w))           \* inverse square of the wavelength in micrometres
Ns(w)  == NAdd(1, NMul("1/100000000",
            NAdd("834254/100", NAdd(NDiv("2406147", NSub(130, S(w))),
                                    NDiv("15998", NSub("389/10", S(w)))))))
Xf(t, p) == NDiv(NAdd(1, NMul("1/100000000", NMul(NSub("601/1000", NMul("972/100000", t)), p))),
                 NAdd(1, NMul("3661/1000000", t)))
Ntp(w, t, p) == NAdd(1, NDiv(NMul(NMul(p, NSub(Ns(w), 1)), Xf(t, p)), "9609543/100"))
Moist(w, T, pv) == NMul("1/10000000000",
                     NMul(NMul(NDiv("29275/100", T), NSub("37345/10000", NMul("401/10000", S(w)))), pv))

\* index for a vacuum wavelength and vapour partial pressure
Index(w, T, p, pv) == NSub(Ntp(w, NSub(T, ZERO_C), p), Moist(w, T, pv))
\* the same with the humidity
NAir(w, T, p, h) == Index(w, T, p, IF NEq(h, 0) THEN 0 ELSE Pv(h, Psv(T)))

(* Conversion.  The equation gives the index for a vacuum wavelength; the  *)
(* air wavelength differs by less than 3 parts in ten thousand, over which *)
(* the index changes by less than the accuracy of the equation.            *)
VacToAir(w, T, p, h) == NDiv(w, NAir(w, T, p, h))
AirToVac(w, T, p, h) == NMul(w, NAir(w, T, p, h))

RelNear(a, b, e) == NLe(NAbs(NSub(a, b)), NMul(e, NAbs(b)))
=============================================================================
