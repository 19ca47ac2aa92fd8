"""Which module decides which property."""
DRIVERS = {}
for m, ps in {
    "d_atlas": ["A01", "A02"],
    "d_config": ["C01", "C02", "C03"],
    "d_calib": ["D01", "A06"],
    "d_hough": ["H01", "H02", "H03", "H04", "H05"],
    "d_match": ["M01", "M02", "E01"],
    "d_ransac": ["F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08"],
    "d_edlen": ["N01"],
    "d_synth": ["S01"],
    "d_refine": ["U01"],
    "d_isolate": ["I01"],
    "d_repro": ["R01"],
    "d_plot": ["L01", "L02", "L03"],
    "d_lines": ["A03", "A04", "A05"],
}.items():
    for p in ps:
        DRIVERS[p] = m
