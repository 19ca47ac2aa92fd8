"""D01, A06 (and the calibrator part of A02): atlases and calibrators changed through either
object, against Calib.tla."""
import numpy as np
from lib import Hang, alarm, attempt, num, nums
from d_atlas import obs_one, ref_lines, shape, SYMS

LIBKW = dict(min_intensity=10.0, min_distance=10.0)


class World:
    def __init__(self, rng):
        self.rng, self.at, self.c, self.ev = rng, [], [], []

    def observe(self):
        at = []
        for a in self.at:
            ok, v = attempt(obs_one, a)
            at.append(v if ok else dict(w=[], e=["?"], i=[], n=-1, listed=-1))
        cs = []
        for c in self.c:
            idx = [k + 1 for k, a in enumerate(self.at) if a is c.atlas]
            ok, p = attempt(lambda: [nums(x) for x in np.asarray(c.pairs).reshape(-1, 2)])
            cs.append(dict(a=idx[0] if idx else 0, pairs=p if ok else []))
        return dict(at=at, c=cs)

    def log(self, ok, **ev):
        ev.setdefault("a", 0), ev.setdefault("c", 0)
        if ev["c"] and self.c[ev["c"] - 1].atlas is not None:
            x = self.c[ev["c"] - 1].atlas
            if not any(x is a for a in self.at):
                self.at.append(x)       # the calibrator made its own
        ev.update(ok=bool(ok), obs=self.observe())
        self.ev.append(ev)

    def atlas(self):
        from rascal.atlas import Atlas
        self.at.append(Atlas())
        self.ev.append(dict(op="atlas"))

    def calibrator(self, peaks=None, num=None):
        from rascal.calibrator import Calibrator
        rng = self.rng
        peaks = peaks or [float(x) + rng.choice([0, 0.25, 0.5]) for x in sorted(rng.sample(range(5, 990), rng.randrange(1, 7)))]
        form = rng.choice([list, np.array])
        c = Calibrator(form(peaks))
        c.set_calibrator_properties(pixel_list=np.arange(1000))
        c.minw, c.maxw, c.rt = 3000.0, 9000.0, 500
        self.c.append(c)
        self.ev.append(dict(op="calibrator", peaks=nums(peaks), P=999))

    # by: 0 through the atlas object a, else through calibrator by
    def target(self, a, by):
        return self.c[by - 1] if by else self.at[a - 1]

    def tolerances(self, by):
        """Options of a calibrator-level call, and what they are by default."""
        rng = self.rng
        if not by:
            return {}, 0, False
        kw, ct, cp = {}, 10, False
        if rng.random() < 0.7:
            ct = kw["candidate_tolerance"] = rng.choice([1.0, 10.0, 200.0])
        if rng.random() < 0.7:
            cp = kw["constrain_poly"] = rng.random() < 0.6
        return kw, ct, cp

    def add(self, a, by, ws, es, ints, h, bad=False):
        rng = self.rng
        kw, ct, cp = self.tolerances(by)
        if h:
            kw["intensities"] = shape(rng, ints)
        ok, _ = attempt(self.target(a, by).add_user_atlas, shape(rng, es), shape(rng, ws), **kw)
        self.log(ok, op="add", a=a, c=by, ws=nums(ws), es=es, h=h, ct=num(ct), cp=cp, **{"is": nums(ints)})

    def addlib(self, a, by, els, lo, hi, kw):
        rng = self.rng
        opt, ct, cp = self.tolerances(by)
        default = bool(by) and rng.random() < 0.4
        c = self.target(a, by)
        if default:
            lo, hi = c.minw - c.rt, c.maxw + c.rt
        rg = dict(min_atlas_wavelength=lo, max_atlas_wavelength=hi)
        ref = ref_lines(els, dict(dict(LIBKW, brightest_n_lines=1000), **dict(rg, **kw)))
        arg = els[0] if len(els) == 1 and rng.random() < 0.5 else list(els)
        ok, _ = attempt(c.add_atlas if by else c.add, arg, **({} if default else rg), **kw, **opt)
        self.log(ok, op="addlib", a=a, c=by, lib=ref, default=default, lo=num(lo), hi=num(hi), ct=num(ct), cp=cp)

    def remove(self, a, by, w, tol):
        ok, _ = attempt(self.target(a, by).remove_atlas_lines_range, w, *([] if tol == 10 and self.rng.random() < 0.5 else [tol]))
        self.log(ok, op="remove", a=a, c=by, w=num(w), tol=num(tol))

    def clear(self, a, by):
        t = self.target(a, by)
        ok, _ = attempt(t.clear_atlas if by else t.clear)
        self.log(ok, op="clear", a=a, c=by)

    def set(self, a, k):
        kw, ct, cp = self.tolerances(k)
        ok, _ = attempt(self.c[k - 1].set_atlas, self.at[a - 1], **kw)
        self.log(ok, op="set", a=a, c=k, ct=num(ct), cp=cp)

    def range(self, k, minw, maxw, rt):
        c = self.c[k - 1]
        ok, _ = attempt(c.set_hough_properties, min_wavelength=minw, max_wavelength=maxw, range_tolerance=rt,
                        num_slopes=200, xbins=20, ybins=20)
        c.minw, c.maxw, c.rt = minw, maxw, rt
        self.log(ok, op="range", c=k, minw=num(minw), maxw=num(maxw), rt=num(rt))

    def pix(self, k, P):
        ok, _ = attempt(self.c[k - 1].set_calibrator_properties, pixel_list=np.arange(P + 1))
        self.log(ok, op="pix", c=k, P=P)

    def fit(self, k):
        c = self.c[k - 1]
        ok, r = False, None
        try:
            with alarm(20):
                ok, r = attempt(c.fit, max_tries=5, fit_deg=1, candidate_tolerance=self.rng.choice([10.0, 300.0]), progress=False)
        except Hang:
            pass
        ev = dict(lines=[], cand=[])
        if ok:
            ev = dict(lines=nums(r[2]), cand=nums(getattr(c, "candidate_arc", [])))
        self.log(ok, op="fit", c=k, **ev)


def lines(rng):
    m = rng.randrange(1, 6)
    base = rng.choice([3000.0, 5000.0, 8000.0])
    ws = [base + rng.randrange(0, 64) * rng.choice([0.25, 0.5, 1, 40]) for _ in range(m)]
    return ws, [rng.choice(SYMS) for _ in range(m)], [rng.choice([0, 1, 12.5]) for _ in range(m)]


def history(ck, n, w):
    rng = ck.rng
    W = World(rng)
    W.atlas(), W.calibrator()
    if rng.random() < 0.7:
        W.atlas(), W.calibrator()
    for _ in range(n):
        by = rng.randrange(0, len(W.c) + 1)
        a = rng.randrange(1, len(W.at) + 1)
        k = rng.randrange(1, len(W.c) + 1)
        cur = (W.c[by - 1].atlas if by else W.at[a - 1])
        op = rng.choices(list(w), weights=list(w.values()))[0]
        if sum(map(len, W.at)) > 40:
            op = "clear" if rng.random() < 0.5 else "remove"
        if op in ("remove", "clear") and cur is None:
            op = "add"
        if op == "add":
            ws, es, ints = lines(rng)
            W.add(a, by, ws, es, ints, rng.random() < 0.5)
        elif op == "addlib":
            lo = rng.choice([3500.0, 4500.0, 5200.0])
            els = rng.choice([["Hg"], ["Hg", "Ne"], ["He"]])
            W.addlib(a, by, els, lo, lo + rng.choice([300.0, 900.0]),
                     dict(min_intensity=rng.choice([10.0, 200.0]), min_distance=rng.choice([10.0, 40.0]),
                          vacuum=rng.random() < 0.3, pressure=rng.choice([101325.0, 70000.0]),
                          temperature=rng.choice([273.15, 290.0]), relative_humidity=rng.choice([0.0, 50.0])))
        elif op == "remove":
            ls = list(cur.get_lines()) or [5000.0]
            W.remove(a, by, float(rng.choice(ls)) + rng.choice([0, 0, 0.5, -1, 3]), rng.choice([0.5, 1, 10, 30, 300]))
        elif op == "clear":
            W.clear(a, by)
        elif op == "set":
            W.set(a, k)
        elif op == "range":
            W.range(k, rng.choice([3000.0, 4000.0]), rng.choice([6000.0, 9000.0]), rng.choice([100, 500, 50.5]))
        elif op == "pix":
            W.pix(k, rng.choice([500, 999, 2000]))
        elif op == "fit" and W.c[k - 1].atlas is not None:
            W.fit(k)
    return W.ev


def replay(ck, hist):
    rng = ck.rng
    W = World(rng)
    W.atlas(), W.atlas()
    W.calibrator([100.0, 400.0, 800.0]), W.calibrator([50.0, 300.0, 301.0, 990.0])
    for k in (1, 2):
        W.range(k, 3000.0, 6000.0, 50)
    wave = lambda w: 3000.0 + 500.0 * w
    for o in hist:
        by = o.get("c", 0)
        a = o.get("a", 0)
        if o["op"] == "add":
            W.add(a, by, [wave(o["w"])], ["He"], [0], False)
        elif o["op"] == "remove":
            W.remove(a, by, wave(o["w"]), 500.0)
        elif o["op"] == "clear":
            W.clear(a, by)
        elif o["op"] == "set":
            W.set(a, by)
        elif o["op"] == "range":
            W.range(by, 3000.0, 3000.0 + 1500.0 * o["maxw"], 50)
        elif o["op"] == "fit":
            W.fit(by)
    return W.ev


def run(ck, w, n):
    ck.model("CalibMC")
    q = ck.quick
    cases = ck.each(lambda h: replay(ck, h), ck.generate("CalibMC", "CalibGen.cfg", 20 if q else 200))
    cases += ck.each(lambda _: history(ck, 12, w), n if q else 8 * n)
    ck.validate("CalibTrace", cases)


def check_D01(ck):
    ck.scope = "search space|^fit"
    run(ck, dict(add=4, remove=3, clear=0.5, set=2, range=1.5, pix=0.4, fit=3, addlib=0.7), 60)


def check_A06(ck):
    ck.scope = "atlas|library range|valid arguments|calibrator (set|add|addlib).*search space"
    run(ck, dict(add=3, addlib=2, remove=3, clear=0.4, set=1.5, range=1.5), 60)


def removal_cases(ck, n):
    """Removal through the calibrator (A02)."""
    return [history(ck, 10, dict(add=3, addlib=0.5, remove=5, clear=0.4, set=1)) for _ in range(n)]
