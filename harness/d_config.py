"""C01, C02, C03: histories of configuration calls against Config.tla."""
import json
import numpy as np
from lib import attempt, num, nums

HOUGH = dict(num_slopes=[200, 777, 1000, 2000], xbins=[20, 50, 100, 33], ybins=[20, 50, 100, 41],
             min_wavelength=[3000.0, 3500, 4000.0, 500.5], max_wavelength=[6000.0, 7000, 9000.0, 9500.5],
             range_tolerance=[0, 100, 250.0, 500, 62.5], linearity_tolerance=[0, 50, 100, 12.5])
RANSAC = dict(sample_size=[2, 5, 6, 10], top_n_candidate=[1, 3, 5, 8], linear=[True, False],
              filter_close=[True, False], ransac_tolerance=[1, 2.5, 5, 0.5, 0], candidate_weighted=[True, False],
              hough_weight=[0.0, 0.5, 1.0, 10.0], minimum_matches=[1, 3, 8, 0, -1, 0.5, -2.5],
              minimum_peak_utilisation=[0, 0.0, 0.5, 1.0, 1, -0.1, 1.01, 2], minimum_fit_error=[0, 0.0, 1e-4, 0.5, -1e-9, -1])


def pick(rng, table, sub=None):
    names = list(table)
    k = rng.choice([0, 1, 1, 2, 3, len(names)])
    return {n: rng.choice(table[n]) for n in (sub or rng.sample(names, k))}


class Runner:
    def __init__(self, rng, probe=0.0):
        self.rng, self.c, self.ev, self.prob = rng, [], [], probe

    def observe(self, c, probe=False):
        s = {n: num(getattr(c, n, None)) for n in list(HOUGH) + list(RANSAC)}
        s["linear"], s["filter_close"], s["candidate_weighted"] = (
            int(bool(getattr(c, n))) for n in ("linear", "filter_close", "candidate_weighted"))
        lim = {n: num(getattr(c, n, None)) for n in ("min_intercept", "max_intercept", "min_slope", "max_slope")}
        ok, lib = attempt(c.which_plotting_library)
        flags = [getattr(c, "plot_with_matplotlib", None), getattr(c, "plot_with_plotly", None)]
        nlib = sum(map(bool, flags)) if None not in flags else 1
        p = "none"
        if probe and c.spectrum is not None:
            ok2, r = attempt(c.plot_arc, return_jsonstring=True, display=False)
            import matplotlib.pyplot as plt
            p = ("plotly" if isinstance(r, str) else "matplotlib") if ok2 else "none"
            plt.close("all")
        return dict(s=s, lim=lim, axis=num(np.ptp(c.pixel_list)), num_pix=num(c.num_pix),
                    lib=str(lib), nlib=nlib, probe=p)

    def log(self, i, ok, **ev):
        ev.update(c=i + 1, ok=bool(ok), obs=self.observe(self.c[i], self.rng.random() < self.prob))
        ev.setdefault("given", {"_": 0})
        ev.setdefault("lib", "none")
        self.ev.append(ev)

    def new(self, spectrum=None):
        from rascal.calibrator import Calibrator
        rng = self.rng
        peaks = sorted(rng.sample(range(10, 900), rng.choice([5, 8, 12])))
        n = rng.choice([950, 1024, 2048]) if spectrum is None else spectrum
        if n:
            c = Calibrator([float(p) for p in peaks], np.ones(n))
            axis = n - 1
        else:
            c = Calibrator([float(p) for p in peaks])
            axis = len(np.arange(1.1 * max(peaks))) - 1
        self.c.append(c)
        self.log(len(self.c) - 1, True, op="new", axis=axis)

    def hough(self, i, given):
        ok, e = attempt(self.c[i].set_hough_properties, **given)
        self.log(i, ok, op="hough", given={k: num(v) for k, v in given.items()} or {"_": 0})

    def ransac(self, i, given):
        ok, e = attempt(self.c[i].set_ransac_properties, **given)
        self.log(i, ok, op="ransac", given={k: num(v) for k, v in given.items()} or {"_": 0})

    def calib(self, i, lib=None, num_pix=None, pixel_list=None):
        kw, given = {}, {"_": 0}
        if lib is not None:
            kw["plotting_library"] = lib
        if num_pix is not None:
            kw["num_pix"] = num_pix
            given["num_pix"] = num(num_pix)
        if pixel_list is not None:
            kw["pixel_list"] = pixel_list
            given["axis"] = num(max(pixel_list) - min(pixel_list))
        ok, e = attempt(self.c[i].set_calibrator_properties, **kw)
        self.log(i, ok, op="calib", given=given, lib=lib or "none")

    def use(self, i, lib):
        ok, e = attempt(getattr(self.c[i], "use_" + lib))
        self.log(i, ok, op="use", lib=lib)

    def transform(self, i):
        from rascal.atlas import Atlas
        c = self.c[i]
        if c.atlas is None:
            a = Atlas()
            n = 6
            a.add_user_atlas(["X"] * n, [float(w) for w in np.linspace(3200, 8800, n)])
            c.set_atlas(a)
        ok, e = attempt(c.do_hough_transform, brute_force=self.rng.random() < 0.4)
        if ok:
            ht = {n: num(getattr(c.ht, n, None)) for n in ("min_intercept", "max_intercept", "min_slope", "max_slope")}
            self.log(i, True, op="transform", ht=ht)

    def fit(self, i):
        """Fitting and matching configure nothing."""
        from rascal.atlas import Atlas
        c, rng = self.c[i], self.rng
        if c.atlas is None:
            a = Atlas()
            a.add_user_atlas(["X"] * 8, [float(w) for w in np.linspace(3400, 8600, 8)])
            c.set_atlas(a)
        attempt(c.fit, max_tries=rng.choice([1, 2]), fit_deg=rng.choice([1, 2]), progress=False,
                candidate_tolerance=rng.choice([10.0, 200.0]))
        if c.fit_coeff is not None and hasattr(c, "polyval"):
            attempt(c.match_peaks, refine=False, robust_refit=rng.random() < 0.5)
        self.log(i, True, op="fit")


def random_history(ck, n, groups, probe=0.0):
    rng = ck.rng
    r = Runner(rng, probe)
    r.new(rng.choice([None, 0, 600]))
    for _ in range(n):
        i = rng.randrange(len(r.c))
        g = rng.choice(groups)
        if g == "new" and len(r.c) < 3:
            r.new(rng.choice([None, 0, 600]))
        elif g == "hough":
            r.hough(i, pick(rng, HOUGH))
        elif g == "ransac":
            r.ransac(i, pick(rng, RANSAC))
        elif g == "lib":
            k = rng.random()
            if k < 0.5:
                r.calib(i, lib=rng.choice(["matplotlib", "plotly", "foo", None]))
            else:
                r.use(i, rng.choice(["matplotlib", "plotly"]))
        elif g == "pix":
            lst = None
            if rng.random() < 0.6:
                m = rng.choice([300, 900])
                lst = rng.choice([list(range(m)), np.arange(10.0, m), list(range(m // 2)) + list(range(m, 2 * m)),
                                  np.arange(m)[::-1]])
            r.calib(i, num_pix=rng.choice([None, 800, 1500]), pixel_list=lst,
                    lib=rng.choice([None, None, "plotly"]))
        elif g == "transform":
            r.transform(i)
        elif g == "fit":
            r.fit(i)
    return r.ev


def single_settings(ck):
    """Each setting on its own, then each other setting: it has to stick."""
    rng = ck.rng
    out = []
    for table, call in ((HOUGH, "hough"), (RANSAC, "ransac")):
        for n in table:
            for v in table[n]:
                r = Runner(rng)
                r.new(0)
                getattr(r, call)(0, {n: v})
                r.hough(0, {k: rng.choice(w) for k, w in HOUGH.items() if k != n})
                r.ransac(0, {k: w[0] if k.startswith("min") else rng.choice(w) for k, w in RANSAC.items() if k != n})
                r.calib(0)
                out.append(r.ev)
    return out


def replay(ck, hist):
    rng = ck.rng
    r = Runner(rng, 0.02)
    r.new(0)
    off, scale = rng.choice([(4000.0, 20.0), (3000, 100)])
    for o in hist:
        if o["op"] == "set":
            g = {n: (v if n == "minimum_matches" else off + scale * v) for n, v in o["v"].items() if v != -99}
            h = {k: v for k, v in g.items() if k in HOUGH}
            if "minimum_matches" in g:
                r.ransac(0, dict(minimum_matches=g["minimum_matches"]))
            if h or "minimum_matches" not in g:
                r.hough(0, h)
        elif o["direct"]:
            r.use(0, o["x"])
        else:
            r.calib(0, lib=None if o["x"] == "none" else o["x"])
    return r.ev


def run(ck, groups, probe=0.0, n=None, single=False):
    ck.model("ConfigMC")
    q = ck.quick
    gen = ck.generate("ConfigMC", "ConfigGen.cfg", 30 if q else 300)
    cases = [replay(ck, h) for h in gen]
    if single:
        cases += single_settings(ck)
    cases += [random_history(ck, 12, groups, probe) for _ in range(n or (80 if q else 1000))]
    ck.validate("ConfigTrace", cases)


def check_C01(ck):
    ck.scope = "setting|configuration is accepted|number of pixels|pixel axis"
    run(ck, ["new", "hough", "hough", "ransac", "ransac", "ransac", "lib", "pix", "fit"], single=True)


def check_C02(ck):
    ck.scope = "limits"
    run(ck, ["hough", "hough", "hough", "ransac", "pix", "transform", "fit"])


def check_C03(ck):
    ck.scope = "backend|matplotlib"
    run(ck, ["new", "lib", "lib", "lib", "pix", "hough"], probe=0.1)
