"""S01: histories of SyntheticSpectrum objects against Synth.tla."""
import numpy as np
from lib import attempt, num, nums


def monotone(rng, deg):
    """Coefficients (as the class takes them) of a model increasing or decreasing over all pixels."""
    lo = rng.uniform(150, 500)
    sign = rng.choice([1, 1, 1, -1])
    if sign < 0:
        lo = rng.uniform(900, 1400)
    if deg == 0:
        return [rng.choice([1.0, lo, -3.0, 0.0])]
    if deg == 1:
        return [lo, sign * rng.uniform(0.3, 5)]
    if deg == 2:        # vertex far off the pixels of interest
        a = rng.choice([1, -1]) * 10.0 ** rng.uniform(-6, -4.5)
        return [a, sign * rng.uniform(1.0, 4.0), lo]
    if deg == 3:
        return [sign * 10.0 ** rng.uniform(-8, -6), sign * rng.choice([0.0, 1.0]) * 10.0 ** rng.uniform(-6, -5),
                sign * rng.uniform(0.5, 3.0), lo]
    # degree 5 without even orders
    return [sign * 1e-15, 0.0, sign * 10.0 ** rng.uniform(-9, -7), 0.0, sign * rng.uniform(0.5, 3.0), lo]


class Runner:
    def __init__(self, rng):
        self.rng, self.ev, self.s = rng, [], None

    def obs(self):
        s = self.s
        if s is None:
            return dict(lo="nan", hi="nan", degree=-2)
        d = s.degree
        return dict(lo=num(s.min_wavelength), hi=num(s.max_wavelength), degree=-1 if d is None else int(d))

    @staticmethod
    def lim(x):
        return "-99" if x is None else (num(x) if isinstance(x, float) else "-98")

    def coefs(self, c):
        return c if not isinstance(c, list) else (np.array(c) if self.rng.random() < 0.4 else list(c))

    def new(self, c, lo=None, hi=None):
        from rascal.synthetic import SyntheticSpectrum
        kw = {}
        if lo is not None:
            kw["min_wavelength"] = lo
        if hi is not None:
            kw["max_wavelength"] = hi
        bad = c is not None and not isinstance(c, (list, np.ndarray))
        if c is not None:
            kw["coefficients"] = self.coefs(c)
        ok, r = attempt(SyntheticSpectrum, **kw)
        if ok:
            self.s = r
        self.ev.append(dict(op="new", bad=bad, c=[] if bad else nums(c or []), lo=self.lim(lo), hi=self.lim(hi), ok=ok, obs=self.obs()))
        return ok

    def model(self, c):
        bad = not isinstance(c, (list, np.ndarray))
        ok, r = attempt(self.s.set_model, self.coefs(c))
        self.ev.append(dict(op="model", bad=bad, c=[] if bad else nums(c), ok=ok, obs=self.obs()))

    def limit(self, lo, hi):
        kw = dict(min_wavelength=lo, max_wavelength=hi)
        if self.rng.random() < 0.5:
            kw = {k: v for k, v in kw.items() if v is not None}
        ok, r = attempt(self.s.set_wavelength_limit, **kw)
        self.ev.append(dict(op="limit", lo=self.lim(lo), hi=self.lim(hi), ok=ok, obs=self.obs()))

    def get(self, ws):
        arg = np.array(ws) if self.rng.random() < 0.5 else list(ws)
        def go():
            p, w = self.s.get_pixels(arg)
            return nums(np.atleast_1d(p)), nums(np.atleast_1d(w))
        ok, r = attempt(go)
        p, w = r if ok else ([], [])
        self.ev.append(dict(op="get", w=nums(ws), ok=ok, pix=p, waves=w, obs=self.obs()))

    def poly(self):
        from rascal import models
        rng = self.rng
        d = rng.choice([0, 1, 2, 3, 5])
        c = [rng.uniform(-3, 3) for _ in range(d + 1)]
        xs = [rng.choice([0.0, 1.0, rng.uniform(-10, 10)]) for _ in range(3)]
        def go():
            f = models.polynomial(a=self.coefs(c), degree=d)
            return nums(f(np.array(xs)) * np.ones(3)) if rng.random() < 0.5 else [num(f(x)) for x in xs]
        ok, y = attempt(go)
        self.ev.append(dict(op="poly", c=nums(c), x=nums(xs), ok=ok, y=y if ok else []))


def waves(rng, s):
    lo, hi = s.min_wavelength, s.max_wavelength
    out = [rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi), rng.uniform(lo, hi), lo - 10, hi + 0.5, rng.uniform(100, 1500)])
           for _ in range(rng.choice([0, 1, 2, 5, 8]))]
    if rng.random() < 0.3:
        out.sort()
    if rng.random() < 0.1:
        out = [int(w) for w in out]
    return out


def history(ck, n):
    rng = ck.rng
    r = Runner(rng)
    deg = lambda: rng.choice([0, 1, 1, 2, 2, 3, 3, 5])
    first = rng.random()
    if first < 0.3:
        r.new(None)
    elif first < 0.4:
        if not r.new(rng.choice([1.0, "abc", (1.0, 2.0)])):
            r.new(monotone(rng, deg()))
    elif first < 0.5:
        if not r.new(monotone(rng, deg()), 800.0, rng.choice([800.0, 700.0, 200.0])):
            r.new(None, 300.0)
    else:
        r.new(monotone(rng, deg()), rng.choice([None, 100.0, 400.0]), rng.choice([None, 700.0, 2000.0]))
    if r.s is None:
        return r.ev
    has = r.s.degree is not None
    for _ in range(n):
        k = rng.random()
        if k < 0.25:
            r.model(monotone(rng, deg()))
            has = True
        elif k < 0.3:
            r.model(rng.choice([None, 1.0, "x", (1.0, 2.0)]))
        elif k < 0.55:
            L = [None, None, 100.0, 200.0, 300.5, 500.0, 700.0, 1000.0, 1200.0, 1500.0]
            if rng.random() < 0.15:
                L = [None, 350.0, 900.0, "a", [300.0], 1000.0]
            r.limit(rng.choice(L), rng.choice(L))
        elif has:
            r.get(waves(rng, r.s))
        else:
            r.poly()
    return r.ev


def replay(ck, hist):
    """A behaviour of the specification, with its models and limits scaled to wavelengths."""
    rng = ck.rng
    off, k = rng.choice([(200.0, 100.0), (50.0, 16.0)])
    real = {}
    r = Runner(rng)
    r.new(None, off + 2 * k, off + 7 * k)
    for o in hist:
        if o["op"] == "model":
            c = o["c"]
            if c and tuple(c) not in real:
                real[tuple(c)] = monotone(rng, {1: 0, 2: 1, 3: 2, 4: 3}[len(c)])
            r.model(3.5 if not c else real[tuple(c)])
        elif o["op"] == "limit":
            f = lambda v: None if v == -99 else ("zzz" if v == -98 else off + k * v)
            r.limit(f(o["lo"]), f(o["hi"]))
        else:
            r.get([off + k * w for w in o["w"]])
    return r.ev


def check_S01(ck):
    ck.model("SynthMC")
    q = ck.quick
    cases = [replay(ck, h) for h in ck.generate("SynthMC", "SynthGen.cfg", 40 if q else 500)]
    cases += [history(ck, 10) for _ in range(80 if q else 1500)]
    r = Runner(ck.rng)
    for _ in range(40):
        r.poly()
    ck.validate("SynthTrace", cases + [r.ev])
