#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the drivers and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from drivers import DRIVERS

MODULES = {
    "d_atlas": "Atlas", "d_lines": "LineList", "d_config": "Config", "d_calib": "Calib", "d_hough": "Hough",
    "d_ransac": "Ransac", "d_match": "Match", "d_repro": "Repro", "d_isolate": "Isolation",
    "d_plot": "Plot", "d_refine": "Refine", "d_synth": "Synth", "d_edlen": "Edlen",
}
NA = {
    "N02": "Recovering the true dispersion is a statement about the probability distribution of a random search over "
           "real-valued spectra; a TLA+ model has neither the probabilities nor the numerics, and a run that misses "
           "the solution is allowed by the statement.",
}
PENDING = "the check is not built yet"

props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DRIVERS:
        m = MODULES[DRIVERS[i]]
        checks.append(dict(
            property=i, quick_cmd="./bin/check %s quick" % i, thorough_cmd="./bin/check %s thorough" % i,
            technique="TLA+ specification %s.tla, exhaustive model checking with TLC, and conformance of the "
                      "implementation by trace validation (%sTrace.tla)" % (m, m),
            level="model_checking",
            level_note="The specification is model checked exhaustively within small bounds. The implementation is bound "
                       "to it by executing behaviours (generated by TLC from the specification where it has histories, and "
                       "seeded random ones) and validating each recorded event with TLC against the specification's "
                       "operators, with exact rational arithmetic; executions not sampled are not covered. Trusted: TLC, the "
                       "module override Num.java, the recording harness."))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(dict(version=1, setup_cmd="./bin/setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything is observed through the public interface, by subclassing and by "
                     "replacing numpy functions inside the checking process."),
          open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
