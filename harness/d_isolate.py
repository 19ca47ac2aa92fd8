"""I01: who owns what, against Isolation.tla."""
import numpy as np
from lib import Hang, alarm, attempt
from d_plot import Scratch, canon, digest


def public(o):
    return {k: v for k, v in vars(o).items() if k != "logger" and not k.startswith("_") and not hasattr(v, "handlers")}


def view(o):
    return digest(public(o))


class Runner:
    def __init__(self, rng):
        self.rng, self.ev = rng, []
        self.cals, self.atls, self.link, self.others = [], [], [], []
        self.args = []            # objects of the caller, all of which were arguments of a call
        self.n = 48
        self.peaks = sorted(rng.sample(range(1, 47), 7))
        self.lines = [4000.0 + 40.0 * p + rng.uniform(-2, 2) for p in self.peaks]
        for _ in range(2):
            self.call("new calibrator", True)
            self.call("new atlas", True)

    def obs(self):
        return dict(cal=[view(c) for c in self.cals], atl=[view(a) for a in self.atls], link=list(self.link),
                    other=[view(o) for o in self.others])

    # -- arguments ------------------------------------------------------------
    def own(self, x):
        self.args.append(x)
        return x

    def seq(self, xs, kinds=None):
        """A list or array of the caller: a new one, or one used before."""
        rng = self.rng
        k = kinds or ["list", "array", "array", "int"]
        k = rng.choice(k)
        if k == "list":
            return self.own([float(x) for x in xs])
        if k == "int":
            return self.own(np.array([int(x) for x in xs]))
        return self.own(np.array(xs, float))

    def mutate(self):
        rng = self.rng
        objs = [a for a in self.args if len(a)]
        if not objs:
            return
        for x in rng.sample(objs, min(len(objs), rng.choice([1, 1, 3, 8]))):
            if isinstance(x, np.ndarray):
                k = rng.randrange(3)
                if k == 0 or x.dtype.kind not in "fi":
                    x[...] = x[::-1].copy()
                elif k == 1:
                    x += 1
                else:
                    x[rng.randrange(len(x))] = 17
            else:
                k = rng.randrange(4)
                if k == 0:
                    x.append(x[0])
                elif k == 1:
                    x.reverse()
                elif k == 2:
                    x[0] = x[-1] if isinstance(x[0], str) else x[0] + 3
                else:
                    x.clear()
        self.ev.append(dict(op="mutate", **self.obs()))

    # -- calls ----------------------------------------------------------------
    def call(self, what, new=False, t=0):
        """what: one of the methods below; t: calibrator or atlas."""
        before = len(self.args)
        mark = {}
        orig_own = self.own

        def own(x):
            self.args.append(x)
            mark[id(x)] = canon(x)
            return x
        self.own = own
        keep = [(x, canon(x)) for x in self.args]
        edits = isat = False
        try:
            with alarm(60):
                r = getattr(self, "op_" + what.replace(" ", "_"))(t)
                edits, isat = r if r else (False, False)
        except Hang:
            pass
        finally:
            self.own = orig_own
        after = [(x, c) for x, c in keep] + [(x, mark[id(x)]) for x in self.args[before:]]
        a0 = digest([c for _, c in after])
        a1 = digest([canon(x) for x, _ in after])
        if new:
            t = (len(self.atls) if isat else len(self.cals)) - 1
        self.ev.append(dict(op="call", what=what, t=t + 1, edits=edits, isatlas=isat, arg0=a0, arg1=a1, **self.obs()))

    def op_new_calibrator(self, t):
        from rascal.calibrator import Calibrator
        rng = self.rng
        spec = rng.choice([None, self.seq([rng.uniform(1, 9) for _ in range(self.n)])])
        c = Calibrator(self.seq(self.peaks, ["list", "array", "int"]), spectrum=spec)
        self.cals.append(c)
        self.link.append(0)
        attempt(c.set_hough_properties, num_slopes=60, xbins=10, ybins=10, min_wavelength=4000.0, max_wavelength=5920.0, range_tolerance=200.0)
        attempt(c.set_ransac_properties, minimum_matches=3, minimum_fit_error=0.0, filter_close=False)

    def op_new_atlas(self, t):
        from rascal.atlas import Atlas
        a = Atlas()
        a.add_user_atlas(self.own(["X"] * len(self.lines)), self.seq(self.lines, ["list", "array"]),
                         self.seq([5.0 + k for k in range(len(self.lines))], ["list", "array"]))
        self.atls.append(a)
        return True, True

    def op_calib(self, t):
        k = self.rng.choice([0.0, 1.0])
        self.cals[t].set_calibrator_properties(pixel_list=self.seq(list(np.arange(self.n) + k), ["list", "array", "array"]))

    def op_hough(self, t):
        self.cals[t].set_hough_properties(num_slopes=self.rng.choice([40, 60, 80]))

    def op_ransac(self, t):
        self.cals[t].set_ransac_properties(sample_size=self.rng.choice([3, 4, 5]))

    def op_known(self, t):
        k = self.rng.randrange(len(self.peaks))
        attempt(self.cals[t].set_known_pairs, self.seq([self.peaks[k] + 0.5], ["list", "array"]), self.seq([self.lines[k] + 20.0], ["list", "array"]))

    def op_transform(self, t):
        attempt(self.cals[t].do_hough_transform)

    def coef(self):
        return self.seq([4000.0 + self.rng.uniform(-2, 2), 40.0], ["list", "array", "array"])

    def op_fit(self, t):
        kw = dict(max_tries=8, fit_deg=1, candidate_tolerance=40.0, progress=self.rng.random() < 0.3)
        if self.rng.random() < 0.4:
            kw["fit_coeff"] = self.coef()
        attempt(self.cals[t].fit, **kw)

    def op_match(self, t):
        kw = dict(tolerance=self.rng.choice([5.0, 20.0]), refine=False, robust_refit=self.rng.random() < 0.4)
        if self.rng.random() < 0.7:
            kw["fit_coeff"] = self.coef()
        elif self.cals[t].fit_coeff is None:
            return
        if "fit_coeff" in kw and isinstance(kw["fit_coeff"], np.ndarray) and self.rng.random() < 0.3:
            kw.update(refine=True, n_delta=1, min_frac=0.3, convergence=1e-3)
        attempt(self.cals[t].match_peaks, **kw)

    def op_refit(self, t):
        k = self.rng.sample(range(len(self.peaks)), 5)
        kw = dict(matched_peaks=self.seq([self.peaks[j] for j in k], ["list", "array", "int"]),
                  matched_atlas=self.seq([self.lines[j] for j in k], ["list", "array"]))
        if self.rng.random() < 0.5:
            kw["degree"] = 1
        else:
            kw["x0"] = self.own([4000.0, 39.0])
        attempt(self.cals[t].manual_refit, **kw)

    def op_edit_pairs(self, t):
        if self.rng.random() < 0.5:
            attempt(self.cals[t].add_pix_wave_pair, self.rng.uniform(0, 48), self.rng.uniform(4000, 5000))
        else:
            attempt(self.cals[t].remove_pix_wave_pair, 0)

    def op_plot(self, t):
        import matplotlib.pyplot as plt
        c = self.cals[t]
        with Scratch():
            if self.rng.random() < 0.5 and c.fit_coeff is not None and len(c.matched_peaks):
                attempt(c.plot_fit, fit_coeff=self.coef(), spectrum=self.seq([self.rng.uniform(-1, 9) for _ in range(self.n)], ["array"]),
                        log_spectrum=self.rng.random() < 0.6, display=False)
            elif c.spectrum is not None:
                attempt(c.plot_arc, pixel_list=self.seq(np.arange(self.n), ["list", "array"]), display=False)
        plt.close("all")

    # -- atlases, directly and through calibrators
    def op_user_lines(self, t):
        k = self.rng.randrange(1, 3)
        w = [4000.0 + self.rng.uniform(0, 1900) for _ in range(k)]
        self.atls[t].add_user_atlas(self.own(["U"] * k), self.seq(w, ["list", "array"]), *([self.seq([1.0] * k, ["list", "array"])] if self.rng.random() < 0.5 else []))
        return True, True

    def op_library_lines(self, t):
        els = self.own(self.rng.choice([["Xe"], ["Cu", "Xe"], ["xe"]]))
        attempt(self.atls[t].add, els, min_atlas_wavelength=4000.0, max_atlas_wavelength=4100.0)
        return True, True

    def op_remove_lines(self, t):
        attempt(self.atls[t].remove_atlas_lines_range, self.rng.choice(self.lines), 3.0)
        return True, True

    def op_link(self, t):
        a = self.rng.randrange(len(self.atls))
        ok, _ = attempt(self.cals[t].set_atlas, self.atls[a])
        if ok:
            self.link[t] = a + 1

    def op_through(self, t):
        c = self.cals[t]
        if self.link[t]:
            if self.rng.random() < 0.5:
                attempt(c.remove_atlas_lines_range, self.rng.choice(self.lines), 3.0)
            else:
                attempt(c.atlas.add_user_atlas, self.own(["T"]), self.seq([4000.0 + self.rng.uniform(0, 1900)], ["list", "array"]))
        return True, False

    # -- transforms, spectra and functions
    def op_transform_object(self, t):
        from rascal.houghtransform import HoughTransform
        rng = self.rng
        ht = HoughTransform()
        attempt(ht.set_constraints, 30.0, 50.0, 3800.0, 4200.0)
        x, y = self.seq([1, 5, 9, 20], ["list", "array", "int"]), self.seq([4040, 4200, 4360, 4800], ["list", "array", "int"])
        attempt(ht.generate_hough_points, x, y, num_slopes=20) if rng.random() < 0.7 else attempt(ht.generate_hough_points_brute_force, x, y)
        h2 = HoughTransform()
        attempt(h2.generate_hough_points, np.array([1.0]), np.array([4000.0]), num_slopes=5)
        attempt(ht.add_hough_points, h2)
        if rng.random() < 0.5:
            attempt(ht.add_hough_points, self.own(np.array([[40.0, 4000.0], [41.0, 4010.0]])))
        attempt(ht.bin_hough_points, 4, 4)
        self.others += [ht, h2]

    def op_synthetic(self, t):
        from rascal.synthetic import SyntheticSpectrum
        c = self.seq([400.0, 2.0], ["list", "array"])
        ok, s = attempt(SyntheticSpectrum, coefficients=c)
        if ok:
            if self.rng.random() < 0.5:
                attempt(s.set_model, self.seq([400.0, 3.0], ["list", "array"]))
            attempt(s.get_pixels, self.seq([500.0, 600.0, 2000.0], ["list", "array"]))
            self.others.append(s)

    def op_functions(self, t):
        from rascal import util, models
        rng = self.rng
        dead = rng.random() < 0.3
        spec = self.seq([rng.uniform(-1, 5) if k != 15 or not dead else np.nan for k in range(60)], ["list", "array"] + ["int"] * (not dead))
        attempt(util.refine_peaks, spec, self.seq([10, 20, 30], ["list", "array", "int"]), window_width=6)
        w = self.seq([4000.0, 5000.0, 5003.0], ["array", "list"])
        for f in (util.vacuum_to_air_wavelength, util.air_to_vacuum_wavelength):
            attempt(f, w)
        attempt(util.filter_separation, w, 5.0)
        lines = self.own(np.array([["Xe", "4000.0", "5"], ["Cu", "4100.0", "50"]]))
        attempt(util.filter_wavelengths, lines, 3000.0, 4050.0)
        mi = self.own([10.0, 20.0])
        attempt(util.filter_intensity, self.own(["Xe", "Cu"]), lines, mi)
        attempt(util.load_calibration_lines, self.own(["xe", "cu"]), min_atlas_wavelength=4000.0, max_atlas_wavelength=4200.0, min_intensity=mi)
        x, y = self.seq([1, 2, 3, 5], ["array", "int"]), self.seq([1.0, 2.5, 3, 5], ["array"])
        attempt(models.robust_polyfit, x, y, 1, self.own([0.5, 1.0]))
        attempt(models.robust_polyfit, x, y, 2, self.own(np.array([0.5, 1.0, 0.0])))
        ok, p = attempt(models.polynomial, self.seq([1.0, 2.0, 3.0], ["list", "array"]), 2)
        if ok:
            attempt(p, x)
            attempt(p, 3.0)


CAL = ["calib", "hough", "ransac", "known", "transform", "fit", "match", "match", "refit", "edit pairs", "plot"]
ATL = ["user lines", "library lines", "remove lines"]
FREE = ["transform object", "synthetic", "functions", "functions"]


def replay(ck, hist):
    rng = ck.rng
    R = Runner(rng)
    for o in hist:
        if o["op"] == "mutate":
            R.mutate()
        elif o["op"] == "call":
            R.call(rng.choice(CAL), t=o["c"] - 1)
        elif o["op"] == "edit":
            R.call(rng.choice(ATL), t=o["a"] - 1)
        elif o["op"] == "through":
            R.call("through", t=o["c"] - 1)
        elif o["op"] == "link":
            R.call("link", t=o["c"] - 1)
        if rng.random() < 0.12:
            R.call(rng.choice(FREE), t=0)
        if rng.random() < 0.05:
            R.call("new calibrator", True)
    R.mutate()
    return R.ev


def directed(ck, what, times=2):
    """A calibrator with everything set, one kind of call, and its arguments changed."""
    R = Runner(ck.rng)
    R.call("link", t=0)
    R.call("link", t=1)
    R.call("fit", t=0)
    R.call("fit", t=1)
    for _ in range(times):
        R.call(what, t=ck.rng.randrange(2))
        R.mutate()
    R.call("fit", t=0)
    return R.ev


def check_I01(ck):
    import matplotlib
    matplotlib.use("Agg")
    ck.model("IsolationMC")
    n = 50 if ck.quick else 900
    cases = ck.each(lambda h: replay(ck, h), ck.generate("IsolationMC", "IsolationGen.cfg", n))
    for w in sorted(set(CAL + ATL + FREE + ["through"])):
        cases += ck.each(lambda _: directed(ck, w), 2 if ck.quick else 20)
    ck.validate("IsolationTrace", cases)
