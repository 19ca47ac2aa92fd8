"""A01, A02: histories of real Atlas objects against Atlas.tla."""
import contextlib, io
import numpy as np
from lib import attempt, num, nums

SYMS = ["He", "Ne", "Hg", "Xe", "Cu"]


def obs_one(at):
    """Listings of an atlas."""
    w, e, i = at.get_lines(), at.get_elements(), at.get_intensities()
    buf = io.StringIO()
    listed = -1
    try:
        with contextlib.redirect_stdout(buf):
            at.list()
        rows = buf.getvalue().splitlines()
        listed = 0
        if len(rows) == len(w):
            for r, a, b in zip(rows, w, e):
                if str(a) in r and str(b) in r:
                    listed += 1
    except Exception:
        listed = -1
    return dict(w=nums(w), e=[str(x) for x in e], i=nums(i), n=len(at), listed=listed)


def obs(atlases):
    out = []
    for a in atlases:
        ok, v = attempt(obs_one, a)
        out.append(v if ok else dict(w=[], e=["?"], i=[], n=-1, listed=-1))
    return out


def ref_lines(elements, kw):
    """The lines the loader returns for each element (A03-A05 judge the loader itself)."""
    from rascal.util import load_calibration_lines
    lib = []
    for el in elements:
        e, w, i = load_calibration_lines(elements=el, **kw)
        lib.append(dict(w=nums(w), e=[str(x) for x in e], i=nums(i)))
    return lib


def shape(rng, xs, kind=None):
    """The same values as list, tuple or array."""
    k = kind or rng.choice(["list", "list", "tuple", "array"])
    if k == "array":
        return np.array(xs)
    return tuple(xs) if k == "tuple" else list(xs)


class Runner:
    """Applies operations to real atlases and records the events."""

    def __init__(self, rng, scale=1.0, off=0.0):
        self.rng, self.scale, self.off = rng, scale, off
        self.at, self.ev = [], []

    def wave(self, w):
        return self.off + self.scale * w

    def log(self, ok, **ev):
        ev["ok"] = bool(ok)
        ev["obs"] = obs(self.at)
        self.ev.append(ev)

    def new(self):
        from rascal.atlas import Atlas
        ok, v = attempt(Atlas)
        self.at.append(v)
        self.log(ok, op="new", a=len(self.at))

    def newlib(self, elements, kw):
        from rascal.atlas import Atlas
        kw = dict(min_atlas_wavelength=4000.0, max_atlas_wavelength=6000.0, **kw)
        ref = ref_lines([elements] if isinstance(elements, str) else elements,
                        dict(dict(min_intensity=10.0, min_distance=10.0, brightest_n_lines=1000), **kw))
        ok, v = attempt(Atlas, elements, **kw)
        self.at.append(v if ok else Atlas())
        self.log(ok, op="newlib", a=len(self.at), lib=ref)

    def add(self, a, ws, es, ints, h, kind=None):
        rng = self.rng
        w, e, i = [self.wave(x) for x in ws], list(es), list(ints)
        if len(ws) == 1 and len(es) == 1 and len(i) == 1 and rng.random() < 0.3:
            args = (e[0], w[0]) + ((i[0],) if h else ())
        else:
            args = (shape(rng, e), shape(rng, w)) + ((shape(rng, i),) if h else ())
        ok, _ = attempt(self.at[a - 1].add_user_atlas, *args)
        self.log(ok, op="add", a=a, ws=nums(w), es=es, **{"is": nums(i), "h": h})

    def addlib(self, a, elements, kw):
        ref = ref_lines([elements] if isinstance(elements, str) else elements,
                        dict(dict(min_intensity=10.0, min_distance=10.0, brightest_n_lines=1000), **kw))
        ok, _ = attempt(self.at[a - 1].add, elements, **kw)
        self.log(ok, op="addlib", a=a, lib=ref)

    def remove(self, a, w, tol, scaled=True):
        w = self.wave(w) if scaled else w
        tol = tol * self.scale if scaled else tol
        if tol == 10 and self.rng.random() < 0.5:
            ok, _ = attempt(self.at[a - 1].remove_atlas_lines_range, w)
        else:
            ok, _ = attempt(self.at[a - 1].remove_atlas_lines_range, w, tol)
        self.log(ok, op="remove", a=a, w=num(w), tol=num(tol))

    def clear(self, a):
        ok, _ = attempt(self.at[a - 1].clear)
        self.log(ok, op="clear", a=a)


def replay(ck, hist, scale, off):
    """A behaviour generated by TLC, on real atlases."""
    r = Runner(ck.rng, scale, off)
    r.new(); r.new()
    for o in hist:
        if o["op"] == "add":
            r.add(o["a"], o["ws"], o["es"], o["is"], o["h"])
        elif o["op"] == "remove":
            r.remove(o["a"], o["w"], o["tol"])
        else:
            r.clear(o["a"])
    return r.ev


def random_history(ck, n):
    rng = ck.rng
    r = Runner(rng)
    r.new()
    for _ in range(n):
        a = rng.randrange(1, len(r.at) + 1)
        k = rng.random()
        if k < 0.1 and len(r.at) < 4:
            if rng.random() < 0.5:
                r.new()
            else:
                r.newlib(rng.choice(["Hg", ["Xe", "Cu"], ["He"]]), dict(min_intensity=rng.choice([10.0, 50.0])))
        elif k < 0.45:
            m = rng.randrange(1, 7)
            base = rng.choice([4000.0, 5000.0, 6000.0])
            ws = [base + rng.randrange(0, 64) * rng.choice([0.25, 0.5, 1, 4]) for _ in range(m)]
            if rng.random() < 0.3:
                ws.sort()
            es = [rng.choice(SYMS) for _ in range(m)]
            h = rng.random() < 0.6
            ints = [rng.choice([0, 1, 12.5, 100, 7]) for _ in range(m)]
            if rng.random() < 0.08 and m > 1:
                if rng.random() < 0.5 or not h:
                    es = es[:-1]
                else:
                    ints = ints[:-1]
            r.add(a, ws, es, ints, h)
        elif k < 0.6:
            lo = rng.choice([3500.0, 4500.0, 5200.0])
            els = rng.choice(["Hg", "Xe", ["Hg", "Ar"], ["Kr"], ["Ne", "He", "Cu"]])
            r.addlib(a, els, dict(min_atlas_wavelength=lo, max_atlas_wavelength=lo + rng.choice([50.0, 400.0, 900.0]),
                                  min_intensity=rng.choice([10.0, 100.0]), min_distance=rng.choice([0.0, 1.0, 10.0]),
                                  brightest_n_lines=rng.choice([1000, 5])))
        elif k < 0.95:
            lines = list(r.at[a - 1].get_lines())
            if lines and rng.random() < 0.8:
                c = float(rng.choice(lines)) + rng.choice([0, 0, 0.5, -1, 3])
            else:
                c = 5000.0
            r.remove(a, c, rng.choice([0, 0.25, 0.5, 1, 2, 10, 30, 300]), scaled=False)
        else:
            r.clear(a)
    return r.ev


def check_A01(ck):
    ck.model("AtlasMC")
    gen = ck.generate("AtlasMC", "AtlasGen.cfg", 40 if ck.quick else 300)
    cases = [replay(ck, h, *ck.rng.choice([(1, 0), (0.5, 4000.0), (10, 3000.0)])) for h in gen]
    cases += [random_history(ck, 14) for _ in range(60 if ck.quick else 600)]
    ck.validate("AtlasTrace", cases)


def dense_removals(ck):
    """Runs of adjacent and repeated lines, removed with tolerances that hit lines exactly."""
    rng = ck.rng
    r = Runner(rng)
    r.new()
    step = rng.choice([0.25, 0.5, 1.0])
    n = rng.randrange(1, 14)
    ws = [5000.0 + step * rng.randrange(0, n) for _ in range(n)]
    if rng.random() < 0.5:
        ws.sort()
    r.add(1, ws, [rng.choice(SYMS) for _ in ws], list(range(1, n + 1)), True)
    for _ in range(3):
        r.remove(1, rng.choice(ws) + rng.choice([0, step / 2, -step]), step * rng.choice([0, 0.5, 1, 1.5, 2, 3]), scaled=False)
    return r.ev


def check_A02(ck):
    import d_calib
    ck.scope = "remove|clear"
    ck.model("AtlasMC")
    q = ck.quick
    gen = ck.generate("AtlasMC", "AtlasGen.cfg", 40 if q else 300)
    cases = [replay(ck, h, *ck.rng.choice([(1, 0), (0.5, 4000.0), (10, 3000.0)])) for h in gen]
    cases += [dense_removals(ck) for _ in range(80 if q else 1000)]
    cases += [random_history(ck, 14) for _ in range(20 if q else 200)]
    ck.validate("AtlasTrace", cases)
    ck.validate("CalibTrace", d_calib.removal_cases(ck, 30 if q else 300))
