"""M01, M02, E01: matching, editing and refitting, against Match.tla and PairTable.tla."""
import numpy as np
from lib import Hang, alarm, attempt, num, nums


def huber_reference(x, y, deg):
    """A good polynomial under the Huber loss of the specification, and the scatter of y."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    s = float(np.std(y))
    try:
        V = np.vander(x / np.max(np.abs(x)), deg + 1, increasing=True)
        w = np.ones_like(y)
        for _ in range(50):
            c = np.linalg.lstsq(V * w[:, None], y * w, rcond=None)[0]
            r = np.abs(V @ c - y)
            nw = np.sqrt(np.where(r > s, s / np.maximum(r, 1e-300), 1.0))
            if np.allclose(nw, w, rtol=1e-12):
                break
            w = nw
        c = c / np.max(np.abs(x)) ** np.arange(deg + 1)
        return (nums(c) if np.all(np.isfinite(c)) else []), num(s)
    except Exception:
        return [], num(s)


def held(c):
    def get(a):
        ok, v = attempt(lambda: getattr(c, a))
        return v if ok else None
    def seq(a):
        v = get(a)
        return [] if v is None else nums(np.asarray(v).reshape(-1))
    d = dict(coef=seq("fit_coeff"), p=seq("matched_peaks"), w=seq("matched_atlas"), res=seq("residuals"))
    for k, a in dict(rms="rms", pu="peak_utilisation", au="atlas_utilisation").items():
        v = get(a)
        d[k] = "nan" if v is None else num(v)
    return d


class Session:
    def __init__(self, rng, peaks, lines, form=None, prefit=True):
        from rascal.calibrator import Calibrator
        from rascal.atlas import Atlas
        self.rng, self.ev = rng, []
        self.c = Calibrator((form or rng.choice([list, np.array]))(peaks))
        self.c.set_calibrator_properties(num_pix=1024)
        self.c.set_hough_properties(num_slopes=20, xbins=5, ybins=5, min_wavelength=3000, max_wavelength=9000)
        self.atlas = Atlas()
        self.atlas.add_user_atlas(["X"] * len(lines), list(lines))
        self.c.set_atlas(self.atlas)
        try:                                   # defines how polynomials are evaluated
            with alarm(20):
                attempt(self.c.fit, max_tries=1, fit_deg=1, candidate_tolerance=rng.choice([1e-6, 1e-6, 1e-6, 50.0]), progress=False)
        except Hang:
            pass
        self.start()

    def start(self):
        self.ev.append(dict(op="start", peaks=nums(self.c.peaks), lines=nums(self.atlas.get_lines()), held=held(self.c)))

    def atlas_change(self):
        rng = self.rng
        ls = list(self.atlas.get_lines())
        if len(ls) > 2 and rng.random() < 0.5:
            attempt(self.atlas.remove_atlas_lines_range, rng.choice(ls), 0.5)
        else:
            attempt(self.atlas.add_user_atlas, ["Y"], [float(rng.choice(ls or [5000.0])) + rng.choice([0.25, 2.0, -3.5])])
        self.start()

    def listing(self):
        ok, v = attempt(self.c.get_pix_wave_pairs)
        try:
            return [dict(i=int(a), p=num(b), w=num(d)) for a, b, d in v] if ok else [dict(i=-9, p="nan", w="nan")]
        except Exception:
            return [dict(i=-9, p="nan", w="nan")]

    def report(self, ev, ok, r, n):
        """The first five fields of what a match or refit returned."""
        e = dict(coef=[], p=[], w=[], rms="nan", res=[], pu="nan", au="nan", ref=[], std="nan")
        if ok:
            f = lambda v: nums(np.asarray(v).reshape(-1)) if v is not None else []
            e.update(coef=f(r[0]), p=f(r[1]), w=f(r[2]), rms=num(r[3]), res=f(r[4]))
            if len(r) > 5:
                e.update(pu=num(r[5]), au=num(r[6]))
            if len(e["p"]) == len(e["w"]) > n >= 0:
                e["ref"], e["std"] = huber_reference(r[1], r[2], n)
        ev.update(e)
        ev["held"] = held(self.c)

    def match(self, coef=None, tol=10.0, refit=False, refine=False, deg=None, nd=None, eps="1/1000000", min_frac=0.5):
        rng = self.rng
        kw = dict(tolerance=tol, robust_refit=refit, refine=refine)
        if not refine and tol == 10.0 and rng.random() < 0.5:
            del kw["tolerance"]
        if coef is not None:
            kw["fit_coeff"] = np.array(coef) if refine or rng.random() < 0.6 else list(coef)
        if deg is not None:
            kw["fit_deg"] = deg
        if refine:
            kw.update(n_delta=nd, min_frac=min_frac, convergence=1e-3)
        n0 = len(coef) if coef is not None else len(self.c.fit_coeff)
        ok, r = False, None
        try:
            with alarm(60):
                ok, r = attempt(self.c.match_peaks, **kw)
        except Hang:
            pass
        if ok and r[1] is None:
            self.start()                       # refinement gave up
            return
        ev = dict(op="match", given=coef is not None, c0=nums(coef) if coef is not None else [], tol=num(tol), refit=refit,
                  refine=refine, nd=nd if nd is not None else n0 - 1, deg=-1 if deg is None else deg, eps=eps, ok=bool(ok))
        self.report(ev, ok, r, n0 - 1 if deg is None else deg)
        self.ev.append(ev)

    def refit(self, pairs=None, degree=None, x0=None, bad=False):
        kw = {}
        if pairs is not None:
            form = self.rng.choice([list, np.array])
            kw.update(matched_peaks=form([p for p, _ in pairs]), matched_atlas=form([w for _, w in pairs]))
            if bad:
                kw["matched_atlas"] = kw["matched_atlas"][:-1]
        if degree is not None:
            kw["degree"] = degree
        if x0 is not None:
            kw["x0"] = x0
        deg = degree if degree is not None else len(x0) - 1 if x0 is not None else -1
        ok, r = False, None
        try:
            with alarm(60):
                ok, r = attempt(self.c.manual_refit, **kw)
        except Hang:
            pass
        ev = dict(op="refit", own=pairs is None, p0=nums([p for p, _ in pairs or []]), w0=nums([w for _, w in pairs or []]),
                  deg=deg, bad=bad, ok=bool(ok))
        d = deg if deg >= 0 else (len(self.c.fit_coeff) - 1 if self.c.fit_coeff is not None else -1)
        self.report(ev, ok, r, d)
        self.ev.append(ev)

    def edited(self, ok, **ev):
        ev.update(ok=bool(ok), held=held(self.c), list=self.listing())
        self.ev.append(ev)

    def add(self, pix, wave, bad=False):
        ok, _ = attempt(self.c.add_pix_wave_pair, pix, wave)
        g = lambda v: num(v) if isinstance(v, (int, float)) else "nan"
        self.edited(ok, op="add", pix=g(pix), wave=g(wave), bad=bad)

    def remove(self, arg, bad=False):
        ok, _ = attempt(self.c.remove_pix_wave_pair, arg)
        self.edited(ok, op="remove", arg=arg if isinstance(arg, int) else 0, bad=bad)


# -----------------------------------------------------------------------------------------------
def scene(rng, exact):
    """Peaks, a solution and lines around its predictions: several lines per peak, several peaks
    per line, isolated ones, lines exactly at the tolerance."""
    n = rng.randrange(2, 9)
    deg = rng.choice([1, 1, 2, 3])
    if exact:
        peaks = sorted(rng.sample(range(0, 2048), n))
        peaks = [p / 4.0 for p in peaks]
        if rng.random() < 0.6:
            peaks += [p + 0.25 * rng.randrange(1, 5) for p in rng.sample(peaks, min(2, len(peaks)))]
        peaks = sorted(set(peaks))
        coef = [4096.0, rng.choice([2.0, 4.0, 5.0]), rng.choice([0.0, 0.25, -0.125]) / 256, 2.0**-18][: deg + 1]
        tol = rng.choice([1.0, 4.0, 10.0, 16.5])
        off = [0.0, 0.25, -0.5, 1.0, 2.5, tol, -tol, tol - 0.25, tol + 0.25, 3 * tol]
        step = 0.25
    else:
        peaks = sorted(rng.uniform(0, 1023) for _ in range(n))
        if rng.random() < 0.6:
            peaks = sorted(peaks + [p + rng.uniform(0.01, 3) for p in rng.sample(peaks, min(2, len(peaks)))])
        coef = [rng.uniform(3000, 5000), rng.uniform(1, 5), rng.uniform(-5e-4, 5e-4), rng.uniform(-1e-7, 1e-7)][: deg + 1]
        tol = rng.choice([0.5, 3.0, 10.0, 25.0])
        off = [0.0, 0.01, -0.3, 0.6 * tol, -0.9 * tol, 1.3 * tol, rng.uniform(-tol, tol), 4 * tol]
    val = lambda p: float(np.polynomial.polynomial.polyval(p, coef))
    lines = []
    for p in peaks:
        if rng.random() < 0.85:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                lines.append(val(p) + rng.choice(off))
    if exact:
        # equally close lines on both sides, and a line in the middle of two peaks
        if rng.random() < 0.3:
            lines += [val(peaks[0]) - 0.5, val(peaks[0]) + 0.5]
        if len(peaks) > 1 and rng.random() < 0.4:
            lines.append((val(peaks[0]) + val(peaks[1])) / 2)
    lines = lines or [val(peaks[0]) + 1.0]
    rng.shuffle(lines)
    return peaks, lines, coef, tol


def matching_case(ck, exact, k=4):
    rng = ck.rng
    peaks, lines, coef, tol = scene(rng, exact)
    if rng.random() < 0.2:
        rng.shuffle(peaks)
    S = Session(rng, peaks, lines)
    for _ in range(k):
        c = list(coef)
        if rng.random() < 0.4:
            c[0] += rng.choice([0.25, -1.0, 3.0]) if exact else rng.uniform(-5, 5)
        if rng.random() < 0.1:
            c[0] += 10000.0
        t = tol if rng.random() < 0.7 else rng.choice([0.5, 2.0, 8.0, 10.0, 40.0])
        S.match(c, t, refit=rng.random() < 0.3, deg=rng.choice([None, None, 1, 2]), eps="0" if exact else "1/1000000")
        if rng.random() < 0.3:
            S.atlas_change()
    return S.ev


def history(ck, n):
    rng = ck.rng
    peaks, lines, coef, tol = scene(rng, False)
    S = Session(rng, peaks, lines)
    c = S.c
    for _ in range(n):
        have = c.fit_coeff is not None
        tbl = len(c.matched_peaks)
        op = rng.choices(["match", "add", "remove", "refit", "atlas"], [4, 3, 2, 4, 1])[0]
        if op == "match":
            use = None if have and rng.random() < 0.6 else [coef[0] + rng.uniform(-2, 2)] + coef[1:]
            refine = rng.random() < 0.12
            S.match(use, rng.choice([tol, 2 * tol, 10.0]), refit=rng.random() < 0.6, refine=refine,
                    deg=rng.choice([None, None, 1, 2, 3]), nd=rng.choice([1, 2]) if refine else None,
                    min_frac=rng.choice([0.0, 0.3, 0.9]))
        elif op == "add":
            bad = rng.random() < 0.2
            p = rng.choice([rng.uniform(-5, 1100), rng.choice(peaks), int(rng.uniform(0, 1000))])
            w = float(np.polynomial.polynomial.polyval(p, coef)) + rng.uniform(-1, 1)
            if bad:
                p, w = rng.choice([("a", w), (p, "x")])
            S.add(p, w, bad)
        elif op == "remove":
            bad = rng.random() < 0.1
            S.remove("first" if bad else rng.randrange(0, tbl + 2), bad)
        elif op == "refit":
            m = rng.random()
            if m < 0.4 and have:
                S.refit()
            elif m < 0.7:
                S.refit(degree=rng.choice([0, 1, 1, 2, 3]))
            elif m < 0.8:
                d = rng.choice([1, 2])
                S.refit(x0=[float(v) for v in np.polynomial.polynomial.polyfit([0, 500, 1000], [coef[0], coef[0] + 1000, coef[0] + 2100], d)])
            else:
                k = rng.randrange(1, 8)
                ps = sorted(rng.uniform(0, 1023) for _ in range(k))
                prs = [(p, float(np.polynomial.polynomial.polyval(p, coef)) + rng.uniform(-1, 1)) for p in ps]
                if k > 5 and rng.random() < 0.4:          # an outlier
                    j = rng.randrange(k)
                    prs[j] = (prs[j][0], prs[j][1] + 6000.0)
                S.refit(prs, degree=rng.choice([1, 2]), bad=rng.random() < 0.25)
        else:
            S.atlas_change()
    return S.ev


def replay(ck, hist):
    rng = ck.rng
    pix = lambda p: 40.0 * p + rng.choice([0.0, 0.0, 0.0])
    wave = lambda w: 4000.0 + 700.0 * w
    S = Session(rng, [pix(k) for k in (1, 2, 4, 6, 9)], [wave(k) for k in (1, 2, 3, 5)])
    c = S.c
    S.refit([(pix(2 * k), wave(k)) for k in (1, 2, 3)], degree=1)
    for o in hist:
        if o["op"] == "add":
            S.add(pix(o["p"]), wave(o["w"]))
        elif o["op"] == "remove":
            S.remove(o["k"])
        else:
            S.refit(degree=o["d"])
    return S.ev


def fitted_history(ck, n):
    """Edits after a real fit."""
    rng = ck.rng
    coef = [4000.0, 4.0]
    peaks = sorted(rng.sample(range(10, 1000), rng.randrange(6, 10)))
    peaks = [float(p) for p in peaks]
    lines = [coef[0] + coef[1] * p + rng.uniform(-0.5, 0.5) for p in peaks]
    S = Session(rng, peaks, lines)
    try:
        with alarm(30):
            S.c.set_hough_properties(num_slopes=100, xbins=20, ybins=20, min_wavelength=4000, max_wavelength=8100,
                                     range_tolerance=200)
            S.c.set_ransac_properties(minimum_fit_error=0.0)
            attempt(S.c.fit, max_tries=60, fit_deg=1, candidate_tolerance=30.0, progress=False)
    except Hang:
        pass
    S.start()
    for _ in range(n):
        op = rng.random()
        if op < 0.4:
            p = rng.uniform(0, 1024)
            S.add(p, coef[0] + coef[1] * p)
        elif op < 0.7:
            S.remove(rng.randrange(0, len(S.c.matched_peaks) + 1))
        elif op < 0.85:
            S.refit(degree=rng.choice([1, 2]))
        elif S.c.fit_coeff is not None:
            S.refit() if rng.random() < 0.5 else S.match(None, 10.0, refit=rng.random() < 0.5)
    return S.ev


def check_M01(ck):
    ck.scope = "^match: (succeeds|peaks and|no peak|every peak|no closest|the solution|changes nothing)"
    ck.model("MatchMC")
    n = 70 if ck.quick else 1200
    cases = ck.each(lambda _: matching_case(ck, True), n) + ck.each(lambda _: matching_case(ck, False), n)
    cases += ck.each(lambda _: history(ck, 8), n // 5)
    ck.validate("MatchTrace", cases)


def narrow_case(ck):
    """A handful of pixels next to each other, far from pixel 0."""
    S = Session(ck.rng, [700.0, 701.0, 702.0], [7500.0, 7505.0, 7510.0])
    xs = [500.0, 501.0, 502.0, 503.0, 504.0]
    S.refit([(x, 4000.0 + 5.0 * x + 0.01 * (x - 500.0)**2) for x in xs], degree=3, x0=[3000.0, 6.0, 0.0, 0.0])
    S.match([3995.0, 5.0, 0.0005, 0.0], 10.0, refit=True, deg=3)
    return S.ev


def check_M02(ck):
    ck.scope = "residuals|root mean|utilisations|the refit|holds|keeps the higher"
    ck.model("MatchMC")
    n = 60 if ck.quick else 900
    cases = ck.each(lambda _: history(ck, 10), n) + ck.each(lambda _: matching_case(ck, False, 3), n // 2)
    cases += ck.each(lambda _: fitted_history(ck, 6), n // 4)
    cases.append(narrow_case(ck))
    ck.validate("MatchTrace", cases)


def check_E01(ck):
    ck.scope = "^edit|^refit: (accepted|uses|changes)"
    ck.model("PairTableMC")
    n = 40 if ck.quick else 600
    cases = ck.each(lambda h: replay(ck, h), ck.generate("PairTableMC", "PairTableGen.cfg", n))
    cases += ck.each(lambda _: history(ck, 12), n) + ck.each(lambda _: fitted_history(ck, 12), n // 2)
    ck.validate("MatchTrace", cases)
