"""R01: reproducibility, against Repro.tla."""
import hashlib, json, os, random, subprocess, sys
import numpy as np
from lib import Hang, alarm, attempt


def canon9(x, seen=()):
    """As text, floats to nine digits."""
    if id(x) in seen:
        return "<loop>"
    if isinstance(x, np.ndarray):
        return canon9(x.tolist(), seen)
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon9(v, seen + (id(x),)) for v in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join("%s:%s" % (k, canon9(x[k], seen + (id(x),))) for k in sorted(x, key=str)) + "}"
    if isinstance(x, (bool, np.bool_)):
        return "T" if x else "F"
    if isinstance(x, (int, float, np.integer, np.floating)):
        return "%.9g" % float(x)
    if x is None or isinstance(x, str):
        return repr(x)
    if hasattr(x, "__name__"):
        return "f:" + x.__name__
    if hasattr(x, "__dict__"):
        d = {k: v for k, v in vars(x).items() if k != "logger" and not k.startswith("_") and not hasattr(v, "handlers")}
        return type(x).__name__ + canon9(d, seen + (id(x),))
    return type(x).__name__


def digest(x):
    return hashlib.sha1(canon9(x).encode()).hexdigest()[:16]


def rng_digest():
    s = np.random.get_state()
    return hashlib.sha1(repr((s[0], s[1].tolist(), s[2], s[3], s[4])).encode()).hexdigest()[:16]


class Run:
    """Calls on calibrators, one per scene; the same scenes give equal inputs."""

    def __init__(self, scenes, seed):
        self.scenes, self.ev, self.outs = scenes, [], []
        self.seed = seed
        self.cals = {}

    def call(self, kind, sig, f, keep=False):
        r0 = rng_digest()
        try:
            with alarm(60):
                ok, r = attempt(f)
                out = canon9(r) if ok else "error " + type(r).__name__
        except Hang:
            out = "hang"
        self.ev.append(dict(op="call", kind=kind, sig=sig, rng0=r0, rng1=rng_digest(),
                            out=hashlib.sha1(out.encode()).hexdigest()[:16] if kind != "seed" else ""))
        if keep:
            self.outs.append(out)

    def cal(self, k):
        from rascal.calibrator import Calibrator
        from rascal.atlas import Atlas
        if k in self.cals:
            return self.cals[k]
        sc = self.scenes[k]
        def build():
            c = Calibrator(list(sc["peaks"]), spectrum=None)
            c.set_calibrator_properties(num_pix=1024, pixel_list=np.arange(1024))
            c.set_hough_properties(num_slopes=sc["slopes"], xbins=20, ybins=20, min_wavelength=4000, max_wavelength=8100, range_tolerance=200)
            c.set_ransac_properties(minimum_matches=3, minimum_fit_error=sc["mfe"], candidate_weighted=sc["weighted"],
                                    hough_weight=sc["hw"], sample_size=sc["sample"], top_n_candidate=sc["top"])
            a = Atlas()
            if sc["library"]:
                a.add(list(sc["library"]), min_atlas_wavelength=4000, max_atlas_wavelength=8100, min_intensity=50)
            a.add_user_atlas(["X"] * len(sc["lines"]), list(sc["lines"]))
            c.set_atlas(a)
            self.cals[k] = c
        self.call("config", "new%s" % k, build)
        return self.cals.get(k)

    def do(self, kind, k, keep=True):
        c = self.cal(k)
        if c is None:
            return
        sc = self.scenes[k]
        sig = "%s %s" % (k, digest(c))
        if kind == "fit":
            f = lambda: (c.fit(max_tries=sc["tries"], fit_deg=sc["deg"], fit_type=sc["type"], candidate_tolerance=30.0,
                               brute_force=False, progress=False), c)
        elif kind == "brute":
            f = lambda: (c.fit(max_tries=sc["tries"], fit_deg=1, fit_type=sc["type"], candidate_tolerance=30.0,
                               brute_force=sc["top"] == 1, progress=False), c)
        elif kind == "poly":
            def f():
                c.set_ransac_properties(linear=False)
                try:
                    return c.fit(max_tries=sc["tries"], fit_deg=1, fit_type=sc["type"], candidate_tolerance=30.0,
                                 fit_coeff=list(sc["coef"]), progress=False), c
                finally:
                    c.set_ransac_properties(linear=True)
        elif kind == "edit":
            f = lambda: (c.add_pix_wave_pair(sc["peaks"][0] + 0.5, sc["lines"][0] + 2.0), c.get_pix_wave_pairs(),
                         c.remove_pix_wave_pair(0), c)
        elif kind == "match":
            f = lambda: (c.match_peaks(list(sc["coef"]), tolerance=20.0, robust_refit=True, fit_deg=1), c)
        elif kind == "refit":
            f = lambda: (c.manual_refit(list(sc["peaks"]), list(sc["lines"]), degree=sc["deg"]), c)
        elif kind == "hough":
            f = lambda: (c.do_hough_transform(), c)
        elif kind == "config":
            f = lambda: (c.set_calibrator_properties(), c.set_hough_properties(xbins=20), c.set_ransac_properties(), c)
        elif kind == "list":
            f = lambda: (c.get_pix_wave_pairs(), c.which_plotting_library(), c.atlas.get_lines())
        self.call(kind, sig, f, keep)

    def configure_seed(self, k):
        c = self.cal(k)
        if c is not None:
            self.call("seed", str(self.seed), lambda: c.set_calibrator_properties(seed=self.seed))


def scene(rng):
    n = rng.randrange(6, 11)
    peaks = sorted(rng.uniform(20, 1000) for _ in range(n))
    lines = [4000.0 + 4.0 * p + rng.uniform(-1, 1) for p in peaks]
    rng.shuffle(lines)
    lines.sort()
    lines += [rng.uniform(4000, 8000) for _ in range(rng.randrange(0, 6))]
    return dict(peaks=peaks, lines=[l for l in lines][: max(n, len(lines))], slopes=rng.choice([60, 150]), mfe=rng.choice([0.0, 1e-4]),
                weighted=rng.random() < 0.5, hw=rng.choice([None, 1.0]) and 1.0, sample=rng.choice([3, 5]), tries=rng.choice([15, 40]),
                deg=rng.choice([1, 2]), type=rng.choice(["poly", "poly", "legendre", "chebyshev"]), coef=[4000.0, 4.0], top=rng.choice([1, 1, 5]),
                library=rng.choice([[], [], ["Xe"], ["Xe", "Cu", "Hg"]]))


def noise(rng, scenes, R, calls):
    """Anything, before the seed is configured."""
    for _ in range(rng.randrange(0, 3)):
        R.do(rng.choice(["fit", "brute", "poly", "match", "refit", "hough"]), "p%d" % rng.randrange(2), keep=False)


def play(rng, calls, seed):
    """Two runs of the same calls after different histories."""
    scenes = {k: scene(rng) for k in (1, 2, 3, "p0", "p1")}
    evs, runs = [], []
    for _ in range(2):
        R = Run(scenes, seed)
        noise(rng, scenes, R, calls)
        np.random.rand(rng.randrange(1, 5))
        order = [1, 2, 3]
        rng.shuffle(order)
        for k in order:
            R.cal(k)
        R.configure_seed(calls[0]["sig"])
        for o in calls[1:]:
            if rng.random() < 0.4:
                R.do(rng.choice(["match", "refit", "hough", "edit", "config", "list"]), "p%d" % rng.randrange(2), keep=False)
            R.do(o["kind"], o["sig"])
        evs += R.ev
        runs.append(R)
    evs.append(dict(op="twin", what="run", a=digest(runs[0].outs), b=digest(runs[1].outs)))
    return evs


def child(spec):
    """The same calls in a process of their own."""
    import logging, warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    for s, calls in spec:
        rng = random.Random(s)
        scenes = {k: scene(rng) for k in (1, 2, 3)}
        R = Run(scenes, s)
        R.configure_seed(calls[0]["sig"])
        for o in calls[1:]:
            R.do(o["kind"], o["sig"])
        print("@OUT " + digest(R.outs))


def processes(ck, hists):
    spec = [(ck.rng.randrange(1, 10**6), h) for h in hists]
    ps = []
    for hs in ("0", "1", "4242"):
        e = dict(os.environ, PYTHONHASHSEED=hs, MPLBACKEND="Agg")
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, env=e)
        p.stdin.write(json.dumps(spec))
        p.stdin.close()
        ps.append(p)
    outs = []
    for p in ps:
        outs.append([x[5:] for x in p.stdout.read().splitlines() if x.startswith("@OUT ")])
        p.wait()
    cases = []
    for k in range(len(spec)):
        g = lambda o: o[k] if k < len(o) else "missing"
        cases.append([dict(op="twin", what="process", a=g(outs[0]), b=g(o)) for o in outs[1:]])
    return cases


def check_R01(ck):
    ck.model("ReproMC")
    n = 30 if ck.quick else 500
    hists = ck.generate("ReproMC", "ReproGen.cfg", n, keep=n)
    for h in hists:                       # a fit in every run
        if not any(o["kind"] in ("fit", "brute", "poly") for o in h):
            h.append(dict(kind="fit", sig=ck.rng.randrange(1, 4)))
    seed = lambda: ck.rng.choice([0, 0, 1, 42, 2**32 - 1, ck.rng.randrange(0, 2**31 - 1), ck.rng.randrange(0, 2**31 - 1)])
    cases = ck.each(lambda h: play(ck.rng, h, seed()), hists)
    cases += processes(ck, hists[: 12 if ck.quick else 120])
    ck.validate("ReproTrace", cases)


if __name__ == "__main__":
    child([(s, c) for s, c in json.load(sys.stdin)])
