"""F01-F08: the RANSAC fit, against Ransac.tla."""
import numpy as np
from lib import HANGS, Hang, alarm, attempt, num, nums
from d_match import held as match_held, huber_reference

POLY, LEG, CHEB = np.polynomial.polynomial, np.polynomial.legendre, np.polynomial.chebyshev
ORIG = (POLY.polyfit, LEG.legfit, CHEB.chebfit)
KEEP = 400          # different trials logged per fit


class Recorder:
    """Records the fits of samples, while active."""

    def __init__(self, keep=KEEP):
        self.keep = keep

    def __enter__(self):
        global ACTIVE
        self.n, self.bag, self.over = 0, {}, False
        ACTIVE = self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None

    def record(self, x, y, deg, c, conv):
        try:
            x, y = np.asarray(x, float), np.asarray(y, float)
            if x.ndim != 1 or y.ndim != 1:
                return
            self.n += 1
            key = tuple(sorted(zip(x.tolist(), y.tolist())))
            if key not in self.bag:
                if len(self.bag) < self.keep:
                    # trailing zeros may have been trimmed by the change of basis
                    c = np.concatenate((np.asarray(conv(c), float), np.zeros(deg + 1)))[: deg + 1]
                    self.bag[key] = (x, y, c)
                else:
                    self.over = True
        except Exception:
            pass


REC = None
CANDO = False       # are the candidates of a fit observable
ACTIVE = None


def install():
    """Wraps numpy's fitting functions, before rascal is imported."""
    def wrap(f, conv):
        def g(x, y, deg, *a, **k):
            c = f(x, y, deg, *a, **k)
            if ACTIVE is not None:
                ACTIVE.record(x, y, deg, c, conv)
            return c
        return g
    POLY.polyfit = wrap(ORIG[0], lambda c: c)
    LEG.legfit = wrap(ORIG[1], LEG.leg2poly)
    CHEB.chebfit = wrap(ORIG[2], CHEB.cheb2poly)


install()


class Session:
    def __init__(self, rng, peaks, lines, npix=128):
        from rascal.calibrator import Calibrator
        from rascal.atlas import Atlas
        self.rng, self.ev = rng, []
        self.c = Calibrator(peaks if rng.random() < 0.5 else np.array(peaks))
        self.npix = npix
        self.c.set_calibrator_properties(pixel_list=np.arange(npix))
        self.a = Atlas()
        self.a.add_user_atlas(["X"] * len(lines), list(lines))
        self.c.set_atlas(self.a)
        self.g = dict(minw=3000.0, maxw=9000.0, rt=500, lt=100, tol=5, topn=5, filt=False, weighted=True, hw=1.0, mm=0,
                      mpu=0.0, mf=1e-4, ss=5, linear=True)
        self.world()

    def world(self):
        self.ev.append(dict(op="world", peaks=nums(self.c.peaks), lines=nums(self.a.get_lines())))

    def conf(self, **kw):
        """Only what is named is configured."""
        c = self.c
        self.g.update(kw)
        h = dict(minw="min_wavelength", maxw="max_wavelength", rt="range_tolerance", lt="linearity_tolerance")
        r = dict(tol="ransac_tolerance", topn="top_n_candidate", filt="filter_close", weighted="candidate_weighted",
                 hw="hough_weight", mm="minimum_matches", mpu="minimum_peak_utilisation", mf="minimum_fit_error",
                 ss="sample_size", linear="linear")
        hk = {h[k]: v for k, v in kw.items() if k in h}
        rk = {r[k]: v for k, v in kw.items() if k in r and not (k == "mm" and v == 0)}
        if hk:
            c.set_hough_properties(num_slopes=50, xbins=10, ybins=10, **hk)
        if rk:
            c.set_ransac_properties(**rk)

    def known(self, p, w, numeric=True):
        ok, _ = attempt(self.c.set_known_pairs, p, w)
        f = lambda v: nums(np.atleast_1d(np.asarray(v, float))) if numeric else []
        self.ev.append(dict(op="known", p=f(p), w=f(w), numeric=numeric, ok=bool(ok)))

    def fit(self, tries=3, deg=2, ftype="poly", ct=30.0, brute=False, base=None, keep=KEEP):
        c, g = self.c, self.g
        nk = 0 if c.pix_known is None else len(c.pix_known)
        if base is not None:
            deg = len(base) - 1
        ok, r, hung = False, None, False
        kw = dict(max_tries=tries, fit_deg=deg, fit_type=ftype, candidate_tolerance=ct, brute_force=brute,
                  progress=self.rng.random() < 0.3)
        if base is not None:
            kw["fit_coeff"] = np.array(base) if self.rng.random() < 0.5 else list(base)
        for a in ("candidate_peak", "candidate_arc"):
            c.__dict__.pop(a, None)
        with Recorder(keep) as rec:
            try:
                with alarm(100):
                    ok, r = attempt(c.fit, **kw)
            except Hang:
                hung = True
        weight = self.weigher()
        trials = [dict(xs=nums(x), ys=nums(y), coef=nums(co), weight=weight(co)) for x, y, co in rec.bag.values()]
        cp, cw = getattr(c, "candidate_peak", None), getattr(c, "candidate_arc", None)
        hascand = cp is not None and cw is not None and not hung
        hough = [] if c.hough_lines is None else [nums(x) for x in np.asarray(c.hough_lines)]
        ev = dict(op="fit", minw=num(g["minw"]), maxw=num(g["maxw"]), npix=self.npix, rt=num(g["rt"]), lt=num(g["lt"]), deg=deg, tol=num(g["tol"]), mf=num(g["mf"]), mm=g["mm"],
                  mpu=num(g["mpu"]), ss=g["ss"], nl=len(self.a.get_lines()), hw=num(g["hw"]), filter=g["filt"],
                  topn=g["topn"], weighted=g["weighted"], linear=g["linear"], ct=num(ct), tries=tries, brute=brute,
                  base=nums(base) if base is not None else [], bweight=weight(base) if base is not None else "1",
                  ok=bool(ok), hung=hung, err=type(r).__name__ if not ok else "", n=rec.n, full=not rec.over,
                  rec=REC[ftype], cando=CANDO, trials=trials, hascand=hascand, cp=nums(cp) if hascand else [],
                  cw=nums(cw) if hascand else [], hough=hough,
                  sup=self.support(ct) if g["weighted"] and hascand else [])
        e = dict(coef=[], p=[], w=[], rms="nan", res=[], pu="nan", au="nan", ref=[], std="nan")
        if ok:
            f = lambda v: nums(np.asarray(v, float).reshape(-1)) if v is not None else []
            e.update(coef=f(r[0]), p=f(r[1]), w=f(r[2]), rms=num(r[3]), res=f(r[4]), pu=num(r[5]), au=num(r[6]))
            if len(e["p"]) == len(e["w"]) > deg:
                e["ref"], e["std"] = huber_reference(r[1], r[2], deg)
        ev.update(e)
        h = match_held(c)
        h["res"] = nums(np.asarray(c.residual).reshape(-1)) if getattr(c, "residual", None) is not None else []
        ev["held"] = h
        self.ev.append(ev)

    def weigher(self):
        """Hough weight of the score of a polynomial, from the transform of the calibrator."""
        from scipy.interpolate import RectBivariateSpline
        c, hw = self.c, self.g["hw"]
        ok, sp = attempt(lambda: RectBivariateSpline((c.ht.xedges[1:] + c.ht.xedges[:-1]) / 2,
                                                     (c.ht.yedges[1:] + c.ht.yedges[:-1]) / 2, c.ht.hist))
        if not ok or hw == 0:
            return lambda co: "1"
        pix = np.asarray(c.pixel_list, float)
        def w(co):
            co = np.asarray(co, float)
            grad = POLY.polyval(pix, POLY.polyder(co)) * np.ones_like(pix)
            icept = POLY.polyval(pix, co) - grad * pix
            v = hw * np.sum(np.maximum(sp(grad, icept, grid=False), 0)) + 1e-9
            return num(v) if np.isfinite(v) else "1"
        return w

    def support(self, ct):
        """Weighted support of every pair by the Hough lines within the tolerance."""
        g, c = self.g, self.c
        s = (g["rt"] + g["lt"]) * 1.1775
        L = np.asarray(c.hough_lines, float)
        out = []
        for p in np.unique(np.asarray(c.peaks, float)):
            for w in np.unique(np.asarray(self.a.get_lines(), float)):
                d = np.abs(L[:, 0] * p + L[:, 1] - w)
                d = d[d <= ct]
                if len(d):
                    out.append([num(p), num(w), num(float(np.sum(np.exp(-d**2 / (2 * s * s + 1e-9)))))])
        return out


# -----------------------------------------------------------------------------------------------
q16 = lambda x: round(x * 16) / 16.0
q64 = lambda x: round(x * 64) / 64.0


def scene(rng, dense=False):
    npix = rng.choice([64, 128])
    n = rng.randrange(5, 9)
    peaks = sorted(set(q16(rng.uniform(2, npix - 3)) for _ in range(n)))
    slope = rng.choice([5.0, 5.0, 10.0])
    coef = [rng.uniform(3900, 4100), slope * rng.uniform(0.95, 1.05), rng.choice([0, 0, 1, -1]) * rng.uniform(0, 0.02)]
    f = lambda p: float(POLY.polyval(p, coef))
    noise = rng.choice([0.0, 0.3, 2.0])
    pair, gaps = rng.random() < 0.3, rng.random() < 0.35
    if pair:
        noise = rng.choice([0.0, 0.02])
    lines = [f(p) + rng.uniform(-noise, noise) for p in peaks if rng.random() < 0.85]
    for _ in range(rng.randrange(0, 5)):
        lines.append(f(rng.uniform(0, npix)))
    if dense:
        for p in rng.sample(peaks, 2):
            lines.append(f(p) + rng.choice([-1, 1]) * rng.uniform(0.5, 4))
        peaks = sorted(set(peaks + [q16(p + rng.uniform(0.1, 0.6)) for p in rng.sample(peaks, 2)]))
    if pair:                    # two lines hardly apart, with a peak each
        p = rng.choice(peaks)
        w = f(p) + rng.uniform(0.1, 0.2)
        lines += [w, w + rng.choice([1, 2, 3]) / 64.0]
        peaks = sorted(set(peaks + [p + 1 / 16.0]))
    lines = sorted(set(q64(w) for w in lines))
    if gaps:                    # peaks far from the lines of all the others
        k = rng.choice([1, 2, 3])
        npix += 40
        peaks = peaks + sorted(set(q16(rng.uniform(npix - 20, npix - 2)) for _ in range(k)))
    if len(lines) < 4:
        lines = sorted(set(lines + [q64(f(p) + 1.0) for p in peaks[:4]]))
    rng.shuffle(lines)
    return peaks, lines, coef, npix


def session(ck, fits=2, brute=0.12, base=0.2, known=0.25, mf=0.2, hw=0.35, poly=0.08, dense=0.3, hard=0.15, filt=0.1,
            types=0.3, low=0.3, minis=0.5, many=0.0):
    rng = ck.rng
    peaks, lines, coef, npix = scene(rng, rng.random() < dense)
    if rng.random() < 0.2:
        rng.shuffle(peaks)
    S = Session(rng, peaks, lines, npix)
    slope = coef[1]
    guess = coef[0] + rng.choice([0, 0, 20, -40, 70])
    # wide limits, or limits that exclude the truth
    S.conf(minw=q16(guess), maxw=q16(guess + slope * npix), rt=rng.choice([10, 50, 50, 150]), lt=rng.choice([10, 50, 100]))
    f = lambda p: float(POLY.polyval(p, coef))
    for _ in range(fits):
        deg = rng.choice([1, 1, 2, 2, 3, rng.choice([3, 4])])
        kw = dict(tol=rng.choice([1.0, 3, 5.0, 12.5]), topn=rng.choice([2, 3, 5]), weighted=rng.random() < 0.5,
                  hw=rng.choice([1.0, 0.3]) if rng.random() < hw else 0.0, ss=rng.choice([2, 3, 4, 5]))
        kw["mf"] = rng.choice([1e-4, 0.25, 1.0, 3.0]) if rng.random() < mf else 0.0
        if rng.random() < minis:
            kw["mm"] = rng.choice([1, 2, 3, 3, 4, 5, 6])
        if rng.random() < minis:
            kw["mpu"] = rng.choice([0.0, 0.3, 0.3, 0.5, 0.6, 0.8])
            if rng.random() < 0.4:            # exactly reached by k matches, or just not
                n = len(peaks)
                kw["mpu"] = min(1.0, max(0.0, rng.randrange(3, n + 1) / n + rng.choice([0, 0, 0.01, -0.01])))
        kw["filt"] = rng.random() < filt
        if rng.random() < hard:      # satisfiable by hardly anything
            kw.update(rng.choice([dict(mpu=1.0), dict(mf=50.0), dict(mm=30), dict(tol=0.01)]))
        b = None
        ct = rng.choice([10.0, 30.0, 100.0])
        tries = rng.choice([1, 3, 10, 25])
        keep = KEEP
        if rng.random() < many:
            tries, keep = rng.choice([40, 60, 90]), 0
        isbrute = rng.random() < brute
        if isbrute:
            kw.update(topn=1 if len(peaks) > 5 else rng.choice([1, 2]), ss=deg + 1)
        if rng.random() < base:
            b = list(coef[: deg + 1]) if deg < 3 else coef + [0.0] * (deg - 2)
            if deg == 1:
                m = POLY.polyfit(peaks, [f(p) for p in peaks], 1)
                b = [float(m[0]), float(m[1])]
            if rng.random() < 0.6:
                b[0] += rng.choice([0.7, -3.0, 40.0, 500.0])
        lin = not (b is not None and rng.random() < poly / max(base, 0.01))
        kw["linear"] = lin
        S.conf(**kw)
        if rng.random() < known:
            m = rng.random()
            k = rng.choice([1, 1, 2, 3])
            ps = [q16(rng.choice([rng.uniform(0, npix), rng.choice(peaks), -10.0, npix + 20.0])) for _ in range(k)]
            ws = [q64(f(p) + rng.choice([0, 0.5, 3])) for p in ps]
            if rng.random() < 0.25:               # whole numbers
                ps, ws = ([int(v) for v in ps], ws) if rng.random() < 0.4 else ([int(v) for v in ps], [int(v) for v in ws])
            if m < 0.15:
                S.known(*rng.choice([(ps, ws + [5000.0]), (ps[:1], []), ([1.0, 2.0], [4000.0])]))
            elif m < 0.25:
                S.known(*rng.choice([(["a"], [4000.0]), ([float("nan")], [4000.0]), ([1.0], ["x"]), ([1.0, 2.0], [4000.0, float("nan")])]), numeric=False)
            elif m < 0.35:
                S.known([], [])
            elif k == 1 and m < 0.7:
                S.known(ps[0], ws[0])
            else:
                S.known(*(np.array(ps), np.array(ws)) if rng.random() < 0.5 else (ps, ws))
        t = rng.choice(["legendre", "chebyshev"]) if rng.random() < types else "poly"
        S.fit(tries, deg, t, ct, isbrute, b, keep)
        if rng.random() < 0.3:
            ls = list(S.a.get_lines())
            if len(ls) > 5 and rng.random() < 0.6:
                attempt(S.c.remove_atlas_lines_range if rng.random() < 0.5 else S.a.remove_atlas_lines_range, rng.choice(ls), rng.choice([0.5, 30.0]))
            else:
                attempt(S.a.add_user_atlas, ["Z"] * 2, [q64(f(rng.uniform(0, npix))), q64(f(rng.choice(peaks)) + 1.5)])
            S.world()
    return S.ev


def contested(ck):
    """Lines hardly apart, each with a peak next to it, on an exact dispersion."""
    rng = ck.rng
    slope = rng.choice([4.0, 5.0, 6.0])
    f = lambda p: 4000.0 + slope * p
    peaks = sorted(q16(rng.uniform(4, 120)) for _ in range(rng.randrange(4, 7)))
    lines = [f(p) for p in peaks]
    for p in rng.sample(peaks, rng.choice([1, 2])):
        d = rng.choice([1, 1, 2, 4, 8, 16]) / 16.0
        lines.remove(f(p))
        mid = f(p + d / 2)
        e = min(rng.choice([0.125, 0.5, 1, 1, 2, 16]) / 64.0, slope * d / 4)
        lines += [mid - e, mid + e]
        peaks.append(p + d)
    if rng.random() < 0.3:                    # a third peak for two lines
        peaks.append(peaks[-1] + 1 / 16.0)
    peaks = sorted(set(peaks))
    rng.shuffle(lines)
    S = Session(rng, peaks, sorted(set(lines)), 128)
    S.conf(minw=3990.0, maxw=f(128), rt=50, lt=50, tol=rng.choice([1.0, 3.0]), hw=0.0, mf=0.0, topn=5, ss=3,
           weighted=rng.random() < 0.5, mm=rng.choice([1, 3]))
    for _ in range(2):
        S.fit(rng.choice([25, 50]), 1, "poly", rng.choice([10.0, 30.0]))
    return S.ev


def exact(ck, ftype, deg):
    """A perfect linear dispersion, and every combination tried."""
    rng = ck.rng
    slope = rng.choice([4.0, 5.0, 6.0])
    f = lambda p: 4000.0 + slope * p
    peaks = sorted(set(q16(rng.uniform(4, 20) + 24 * k) for k in range(deg + rng.choice([2, 3]))))
    lines = [f(p) for p in peaks] + [q64(f(rng.uniform(0, 120))) for _ in range(rng.randrange(0, 3))]
    rng.shuffle(lines)
    S = Session(rng, peaks, sorted(set(lines)), 128)
    S.conf(minw=3990.0, maxw=f(128), rt=50, lt=50, tol=rng.choice([1.0, 3.0]), hw=rng.choice([0.0, 1.0]), mf=0.0, topn=2,
           ss=deg + 1, weighted=rng.random() < 0.5)
    S.fit(5, deg, ftype, rng.choice([10.0, 30.0]), brute=True)
    S.fit(5, deg, ftype, 30.0)
    return S.ev


def easy(ck, ftype, deg):
    """Every peak has one possible line."""
    rng = ck.rng
    peaks = [8.0 + rng.randrange(0, 80) / 16.0 + 24 * k for k in range(5)]
    lines = [4000.0 + 16 * p for p in peaks] + [2000.0, 9000.0]
    rng.shuffle(lines)
    S = Session(rng, peaks, lines, 128)
    S.conf(minw=4000.0, maxw=6048.0, rt=10, lt=10, tol=rng.choice([1.0, 5.0]), hw=rng.choice([0.0, 1.0]), mf=0.0,
           weighted=rng.random() < 0.5)
    if rng.random() < 0.5:
        S.conf(mm=rng.choice([1, 4]), mpu=rng.choice([0.5, 1.0]))
    for _ in range(2):
        S.fit(rng.choice([1, 5]), deg, ftype, 25.0, brute=rng.random() < 0.3)
    return S.ev


def bent(ck, right, where):
    """A parabola which turns beyond the peaks, at a fraction of the range of the peaks."""
    rng = ck.rng
    peaks = [20.0 + 16 * k + rng.randrange(0, 64) / 16.0 for k in range(rng.choice([5, 6]))]
    span = peaks[-1] - peaks[0]
    turn = peaks[-1] + where * span if right else peaks[0] - where * span
    k = rng.choice([1, 2]) / 64.0
    f = lambda p: 4600.0 + (-k if right else k) * (p - turn) ** 2 + (0 if right else -300)
    lines = [f(p) for p in peaks]
    S = Session(rng, peaks, sorted(set(lines)), 128)
    S.conf(minw=min(lines) - 50, maxw=max(lines) + 50, rt=100, lt=100, tol=rng.choice([1.0, 3.0]), hw=0.0, mf=0.0, topn=3,
           ss=rng.choice([3, 4]), weighted=rng.random() < 0.5, mm=rng.choice([1, 3]))
    S.fit(rng.choice([10, 20]), 2, rng.choice(["poly", "poly", "legendre", "chebyshev"]), 60.0)
    if len(peaks) < 6:
        S.conf(ss=3, topn=2)
        S.fit(5, 2, "poly", 60.0, brute=True)
    return S.ev


def bends(ck):
    kinds = [(r, w) for r in (True, False) for w in (0.02, 0.06, 0.1, 0.15, 0.18, 0.22, 0.3)]
    return ck.each(lambda a: bent(ck, *a), kinds * (1 if ck.quick else 12))


def rejected(ck, kind):
    """A call that is rejected leaves the known pairs as they are."""
    rng = ck.rng
    slope = 5.0
    peaks = [8.0 + 20 * k + rng.randrange(0, 64) / 16.0 for k in range(6)]
    f = lambda p: 4000.0 + slope * p
    S = Session(rng, peaks, [q64(f(p) + rng.uniform(-0.3, 0.3)) for p in peaks] + [q64(f(rng.uniform(0, 120)))], 128)
    S.conf(minw=4000.0, maxw=f(128), rt=50, lt=50, tol=5.0, hw=0.0, mf=0.0, mm=1)
    n = rng.choice([1, 2])
    def valid():
        ps = sorted(q16(rng.uniform(0, 127)) for _ in range(n))
        return ps, [q64(f(p) + 0.25) for p in ps]
    S.known(*valid())
    nan, (a, b) = float("nan"), valid()
    S.known(*[(a, b[:-1] + [nan]), (a[:-1] + [nan], b), (a, b[:-1] + ["x"]), (a[:-1] + ["x"], b), (a, [nan] * n),
              ([nan] * n, b)][kind % 6], numeric=False)
    S.fit(3, 1, "poly", 30.0)
    S.known(*[(a + [50.0], b), (a, b + [4300.0]), ([], b), (a, [])][kind % 4])
    S.fit(3, rng.choice([1, 2]), "poly", 30.0)
    if rng.random() < 0.5:
        S.known([], [])
    else:
        S.known(*valid())
    S.fit(3, 1, "poly", 30.0)
    return S.ev


def strict(ck, kind):
    """Some of the peaks have a line, the lines of the others are off: thresholds just reached, or not."""
    rng = ck.rng
    n = rng.choice([6, 7, 8])
    m = rng.choice([4, 5, n - 1])
    tol = rng.choice([1.0, 2.0])
    f = lambda p: 4000.0 + 8.0 * p
    peaks = [6.0 + 15 * k + rng.randrange(0, 48) / 16.0 for k in range(n)]
    off = set(rng.sample(range(n), n - m))
    lines = [f(p) + (rng.choice([-1, 1]) * rng.uniform(2.5, 4) * tol if k in off else rng.uniform(-0.2, 0.2) * tol) for k, p in enumerate(peaks)]
    S = Session(rng, peaks, sorted(set(q64(w) for w in lines)), 128)
    S.conf(minw=4000.0, maxw=f(128), rt=20, lt=20, tol=tol, hw=0.0, mf=0.0, topn=2, ss=rng.choice([2, 3]), weighted=False)
    for extra in rng.sample([0, 1, 1, 2], 3):
        if kind == 0:
            S.conf(mm=m + extra)
        else:
            S.conf(mpu=min(1.0, (m + extra) / n - rng.choice([0.0, 0.01])))
        S.fit(rng.choice([5, 15]), 1, "poly", 30.0)
    return S.ev


def large(ck):
    """Brute force with many combinations."""
    rng = ck.rng
    f = lambda p: 4000.0 + 8.0 * p
    peaks = [4.0 + 8 * k + rng.randrange(0, 48) / 16.0 for k in range(15)]
    S = Session(rng, peaks, sorted(set(q64(f(p) + rng.uniform(-0.3, 0.3)) for p in peaks)), 128)
    S.conf(minw=4000.0, maxw=f(128), rt=20, lt=20, tol=2.0, hw=0.0, mf=0.0, topn=1, ss=4, weighted=False)
    S.fit(1, 3, "poly", 30.0, brute=True, keep=0)
    return S.ev


def exacts(ck):
    kinds = [(t, d) for t in ("poly", "legendre", "chebyshev") for d in (1, 2, 3, 4)] * (1 if ck.quick else 12)
    return ck.each(lambda a: exact(ck, *a), kinds) + ck.each(lambda a: easy(ck, *a), kinds)


def odd_inputs(ck):
    """Degenerate inputs: a fit has to end all the same."""
    rng = ck.rng
    out = []
    for peaks, lines in (([10.0], [4100.0]), ([10.0, 20.0], [4100.0, 4200.0]), ([10.0, 20.0, 30.0], [4100.0]),
                         ([10.0, 20.0, 30.0, 40.0], [4100.0, 4200.0]), ([5.0, 6.0, 7.0, 8.0, 9.0], [4050.0] * 3),
                         ([20.0, 50.0, 80.0], [9000.0, 9100.0, 9200.0])):
        for deg in (1, 2):
            S = Session(rng, peaks, lines)
            S.conf(minw=4000.0, maxw=5280.0, rt=50, lt=50, hw=0.0, mf=0.0)
            S.fit(2, deg, "poly", 60.0)
            S.fit(2, deg, "poly", 60.0, brute=True)
            out.append(S.ev)
    return out


def run(ck, n, **kw):
    global REC, CANDO
    np.random.seed(ck.seed + 7)
    if REC is None:
        REC, CANDO = recordable(ck.rng)
    ck.notes.append("trials observable: %s" % REC)
    ck.model("RansacMC")
    return ck.each(lambda _: session(ck, **kw), n if ck.quick else 12 * n)


def recordable(rng):
    out, cando = {}, False
    for t in ("poly", "legendre", "chebyshev"):
        S = Session(rng, [10.0, 20.0, 40.0, 60.0, 90.0, 100.0], [4100.0, 4200.0, 4400.0, 4600.0, 4900.0, 5000.0])
        S.conf(minw=4000.0, maxw=5280.0, rt=50, lt=20, mf=0.0)
        with Recorder() as rec:
            try:
                with alarm(60):
                    attempt(S.c.fit, max_tries=3, fit_deg=1, fit_type=t, candidate_tolerance=50.0, progress=False)
            except Hang:
                pass
        out[t] = rec.n > 0
        cando = cando or getattr(S.c, "candidate_peak", None) is not None
    HANGS[0] = 0        # what hangs is found again, and judged, in the sessions
    return out, cando


def check_F01(ck):
    ck.scope = "^match|search: the match is within"
    cases = run(ck, 45, dense=0.8, known=0.15)
    ck.validate("RansacTrace", cases + ck.each(lambda _: contested(ck), 20 if ck.quick else 240))


def check_F02(ck):
    ck.scope = "^report|search: it fails not"
    ck.validate("RansacTrace", run(ck, 70, types=0.6, base=0.15, hard=0.05, mf=0.1) + exacts(ck))


def check_F03(ck):
    ck.scope = "^thresholds|search: it fails"
    ck.validate("RansacTrace", run(ck, 50, minis=0.9, hard=0.25, mf=0.4, base=0.1) + exacts(ck)
                + ck.each(lambda k: strict(ck, k), [0, 1] * (6 if ck.quick else 60)))


def check_F04(ck):
    ck.scope = "search: the match is that"
    ck.validate("RansacTrace", run(ck, 60, base=0.05, hard=0.05, minis=0.2) + bends(ck))


def check_F05(ck):
    ck.scope = "^fit: ends|^trials"
    cases = run(ck, 80, hard=0.4, brute=0.2, many=0.35)
    ck.validate("RansacTrace", cases + odd_inputs(ck) + ck.each(lambda _: large(ck), 1 if ck.quick else 4))


def check_F06(ck):
    ck.scope = "^known"
    cases = run(ck, 50, known=0.9, fits=3)
    ck.validate("RansacTrace", cases + ck.each(lambda k: rejected(ck, k), list(range(12)) * (1 if ck.quick else 12)))


def check_F07(ck):
    ck.scope = "search: no admissible|search: it fails|brute force tries every"
    cases = run(ck, 60, base=0.35, brute=0.2, hard=0.05, hw=0.3)
    ck.validate("RansacTrace", cases + exacts(ck) + bends(ck) + ck.each(lambda _: contested(ck), 15 if ck.quick else 180))


def check_F08(ck):
    ck.scope = "^candidates"
    ck.validate("RansacTrace", run(ck, 50, base=0.3, poly=0.15))
