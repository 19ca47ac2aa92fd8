------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration of a Calibrator (src/rascal/calibrator.py): settings  *)
(* in three groups, the search limits derived from them, and the plotting  *)
(* backend in use.                                                         *)
(*                                                                         *)
(* A configuration call gives some settings of one group: an update is a   *)
(* function from the names given to values.                                *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

HoughNames  == {"num_slopes", "xbins", "ybins", "min_wavelength", "max_wavelength",
                "range_tolerance", "linearity_tolerance"}
RansacNames == {"sample_size", "top_n_candidate", "linear", "filter_close",
                "ransac_tolerance", "candidate_weighted", "hough_weight",
                "minimum_matches", "minimum_peak_utilisation", "minimum_fit_error"}

\* A value given sticks; a setting not given keeps its value.
Updated(s, given) ==
  [n \in DOMAIN s |-> IF n \in DOMAIN given THEN given[n] ELSE s[n]]

\* Values that are rejected, whatever else the call gives
InvalidRansac(given) ==
  \/ "minimum_matches" \in DOMAIN given /\ NLe(given["minimum_matches"], 0)
  \/ "minimum_peak_utilisation" \in DOMAIN given
       /\ (NLt(given["minimum_peak_utilisation"], 0) \/ NLt(1, given["minimum_peak_utilisation"]))
  \/ "minimum_fit_error" \in DOMAIN given /\ NLt(given["minimum_fit_error"], 0)

Rejectable == {"minimum_matches", "minimum_peak_utilisation", "minimum_fit_error"}
InvalidOne(n, v) == InvalidRansac(n :> v)

(***************************************************************************)
(* Search limits.  len is the length of the pixel axis (last minus first   *)
(* pixel).  The wavelength at the first pixel is min_wavelength +/-        *)
(* range_tolerance.  The steepest line connects the lowest intercept with  *)
(* the maximum wavelength, both widened by the two tolerances; for the     *)
(* shallowest line both are narrowed by them.                              *)
(***************************************************************************)
MinIntercept(s) == NSub(s["min_wavelength"], s["range_tolerance"])
MaxIntercept(s) == NAdd(s["min_wavelength"], s["range_tolerance"])

Pad(s) == NAdd(s["range_tolerance"], s["linearity_tolerance"])

\* rise over the pixel axis; slope = rise / len
MinRise(s) == NSub(NSub(s["max_wavelength"], Pad(s)), NAdd(MinIntercept(s), Pad(s)))
MaxRise(s) == NSub(NAdd(s["max_wavelength"], Pad(s)), NSub(MinIntercept(s), Pad(s)))

(***************************************************************************)
(* Plotting backend in use: a valid library requested through either call  *)
(* replaces it; anything else ("none": not given) leaves it.               *)
(***************************************************************************)
Libraries == {"matplotlib", "plotly"}
DefaultLibrary == "matplotlib"

Chosen(used, given) == IF given \in Libraries THEN given ELSE used
=============================================================================
