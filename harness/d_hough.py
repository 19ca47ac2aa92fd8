"""H01-H05: histories of Hough transforms and their files against Hough.tla."""
import hashlib, os, tempfile
import numpy as np
from lib import Hang, alarm, attempt, num, nums


def dig(x):
    try:
        if x is None:
            return "none"
        a = np.array(x, dtype=float) + 0.0
        return "%s:%s" % ("x".join(map(str, a.shape)), hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest()[:12])
    except Exception:
        return "bad"


def pts(p):
    return [nums(x) for x in np.asarray(p, dtype=float).reshape(-1, 2)]


LIM = ("min_slope", "max_slope", "min_intercept", "max_intercept")


def digest(ht):
    g = lambda n: getattr(ht, n, None)
    lim = [g(n) for n in LIM]
    return dict(pts=dig(g("hough_points")), hist=dig(g("hist")), xe=dig(g("xedges")), ye=dig(g("yedges")),
                lim=dig(None if None in lim else lim), lines=dig(g("hough_lines")))


def mem_digest(m):
    """Digests of content returned by save(to_disk=False)."""
    try:
        if isinstance(m, dict):
            q = m["hough_points"]          # a list of pairs does not tell the shape of an empty cloud
            return dict(pts=dig(q if len(q) else np.empty((0, 2))), hist=dig(m["hist"]), xe=dig(m["xedges"]), ye=dig(m["yedges"]),
                        lim=dig([m[n] for n in LIM]))
        return dict(pts=dig(m[0]), hist=dig(m[1]), xe=dig(m[2]), ye=dig(m[3]), lim=dig([float(np.ravel(m[k])[0]) for k in range(4, 8)]))
    except Exception:
        return dict(pts="bad", hist="bad", xe="bad", ye="bad", lim="bad")


class World:
    def __init__(self, rng, work):
        self.rng, self.dir = rng, tempfile.mkdtemp(dir=work)
        self.t, self.c, self.ev = [], [], []      # transforms; calibrator of each or None

    def log(self, t, ok, **ev):
        views = []
        for ht, c in zip(self.t, self.c):
            if c is None or c.hough_lines is None:
                views.append("none")
            else:
                views.append("same" if dig(c.hough_points) == dig(c.ht.hough_points) and dig(c.hough_lines) == dig(c.ht.hough_lines)
                             and c.ht is ht else "different")
        ev.update(t=t, ok=bool(ok), dig=[digest(x) for x in self.t], views=views)
        self.ev.append(ev)

    def new(self, calibrator=False):
        from rascal.houghtransform import HoughTransform
        from rascal.calibrator import Calibrator
        from rascal.atlas import Atlas
        rng = self.rng
        c = None
        if calibrator:
            npk = rng.randrange(3, 7)
            peaks = sorted(rng.sample(range(5, 250), npk))
            c = Calibrator([float(p) for p in peaks])
            c.set_calibrator_properties(pixel_list=np.arange(257))
            c.set_hough_properties(num_slopes=rng.choice([5, 9, 17]), xbins=rng.choice([3, 4, 7]), ybins=rng.choice([2, 5, 8]),
                                   min_wavelength=4000.0, max_wavelength=rng.choice([6000.0, 6048.0]), range_tolerance=rng.choice([100.0, 300.0]),
                                   linearity_tolerance=rng.choice([0.0, 50.0]))
            a = Atlas()
            true = lambda p: 4000 + 8 * p + rng.choice([0, 3, -2])
            ws = sorted(set([float(true(p)) for p in peaks] + [float(rng.randrange(4000, 6000))]))
            a.add_user_atlas(["X"] * len(ws), ws)
            c.set_atlas(a)
            self.t.append(c.ht)
        else:
            self.t.append(HoughTransform())
        self.c.append(c)
        self.log(len(self.t), True, op="new")

    def eps(self, exact, lim, xs, ys):
        if exact:
            return dict(es=0, ei=0)
        big = max([1.0] + [abs(float(v)) for v in list(ys) + [lim[2], lim[3]]])
        return dict(es=num(1e-9 * max(1, abs(lim[0]), abs(lim[1]))), ei=num(1e-9 * big * 10))

    def limits(self, t, lim):
        ok, _ = attempt(self.t[t - 1].set_constraints, *lim)
        self.log(t, ok, op="limits", new=nums(lim))

    def generate(self, t, xs, ys, lim, n, brute, exact):
        ht = self.t[t - 1]
        self.limits(t, lim)
        x, y = np.array(xs, dtype=float), np.array(ys, dtype=float)
        if brute:
            ok, _ = attempt(ht.generate_hough_points_brute_force, x, y)
        else:
            ok, _ = attempt(ht.generate_hough_points, x, y, n)
        ok2, p = attempt(pts, ht.hough_points)
        self.log(t, ok, op="brute" if brute else "grid", xs=nums(xs), ys=nums(ys), n=n,
                 lim=dict(smin=num(lim[0]), smax=num(lim[1]), imin=num(lim[2]), imax=num(lim[3])),
                 pts=p if ok2 else [], **self.eps(exact, lim, xs, ys))

    def extend(self, t, kind, frm=None):
        rng = self.rng
        ht = self.t[t - 1]
        before = pts(ht.hough_points)
        if kind == "transform":
            src = self.t[frm - 1]
            added = pts(src.hough_points)
            arr = src.hough_points
        elif kind == "array":
            src = np.array([[rng.randrange(0, 9) / 4, rng.randrange(0, 90) / 2] for _ in range(rng.randrange(1, 4))])
            added, arr = pts(src), src
        else:
            src = rng.choice([[[1.0, 2.0]], ((1.0, 2.0),), "points", None, 3])
            added, arr = [], None
        d0 = dig(arr)
        ok, _ = attempt(ht.add_hough_points, src)
        same = "same" if kind != "transform" or frm == t or dig(src.hough_points) == d0 else "changed"
        if kind == "array" and dig(src) != d0:
            same = "changed"
        ok2, after = attempt(pts, ht.hough_points)
        self.log(t, ok, op="extend", kind=kind, before=before, added=added, after=after if ok2 else [], source=same)

    def bin_data(self, ht, xb, yb):
        try:
            p = np.asarray(ht.hough_points, dtype=float).reshape(-1, 2)
            r = [np.ptp(p[:, k]) if len(p) else 1.0 for k in (0, 1)]
            m = [max([1e-6] + [abs(v) for v in p[:, k]]) for k in (0, 1)]
            return dict(xb=xb, yb=yb, pts=pts(p), hist=[nums(x) for x in ht.hist], xe=nums(ht.xedges), ye=nums(ht.yedges),
                        lines=[nums(x) for x in ht.hough_lines], eps=0,
                        xeps=num(1e-3 * (r[0] or 1.0) / xb * 1e-3 + 1e-12 * m[0]), yeps=num(1e-6 * (r[1] or 1.0) / yb + 1e-12 * m[1]))
        except Exception:
            return dict(xb=xb, yb=yb, pts=[], hist=[], xe=[], ye=[], lines=[], eps=0, xeps=0, yeps=0)

    def bin(self, t, xb, yb):
        ht = self.t[t - 1]
        ok, _ = attempt(ht.bin_hough_points, xb, yb)
        self.log(t, ok, op="bin", **self.bin_data(ht, xb, yb))

    def transform(self, t, brute):
        c = self.c[t - 1]
        lim = [float(getattr(c, n)) for n in LIM]
        ok, _ = attempt(c.do_hough_transform, brute_force=brute)
        pr = np.asarray(c.pairs, dtype=float).reshape(-1, 2)
        self.t[t - 1] = c.ht
        self.log(t, ok, op="transform", brute=brute, n=c.num_slopes, xs=nums(pr[:, 0]), ys=nums(pr[:, 1]),
                 lim=dict(smin=num(lim[0]), smax=num(lim[1]), imin=num(lim[2]), imax=num(lim[3])),
                 **self.eps(False, lim, pr[:, 0], pr[:, 1]), **self.bin_data(c.ht, c.xbins, c.ybins))

    def save(self, t, formats, name, tomem):
        rng = self.rng
        obj = self.c[t - 1] if self.c[t - 1] is not None else self.t[t - 1]
        f = obj.save_hough_transform if self.c[t - 1] is not None else obj.save
        path = os.path.join(self.dir, name)
        d = rng.choice(["+", "+", ",", "/"])
        before = {x: os.stat(os.path.join(self.dir, x)).st_mtime_ns for x in os.listdir(self.dir)}
        for x in before:                      # so that a rewrite is seen
            os.utime(os.path.join(self.dir, x), ns=(1, 1))
        kw = dict(filename=path, fileformat=d.join(formats), to_disk=not tomem)
        if d != "+" or rng.random() < 0.5:
            kw["delimiter"] = d
        ok, r = attempt(f, **kw)
        written = [x for x in sorted(os.listdir(self.dir)) if os.stat(os.path.join(self.dir, x)).st_mtime_ns != 1]
        mem = []
        if tomem and ok:
            items = list(r) if len(formats) == 2 and isinstance(r, tuple) else [r]
            mem = [mem_digest(x) for x in items] if len(items) == len(formats) else [mem_digest(None)]
        self.log(t, ok, op="save", names=[] if tomem else [name + "." + x for x in formats], written=written, tomem=tomem, mem=mem)

    def load(self, t, name, kind):
        rng = self.rng
        obj = self.c[t - 1] if self.c[t - 1] is not None else self.t[t - 1]
        f = obj.load_hough_transform if self.c[t - 1] is not None else obj.load
        path = os.path.join(self.dir, name) + ("." + kind if rng.random() < 0.5 else "")
        ok, e = attempt(f, filename=path, filetype=kind)
        if self.c[t - 1] is not None:
            self.t[t - 1] = self.c[t - 1].ht
        self.log(t, ok, op="load", name=name + "." + kind, kind=kind)

    def fit(self, t):
        c = self.c[t - 1]
        first = c.hough_lines is None
        tol = self.rng.choice([5.0, 20.0])
        try:
            with alarm(20):
                ok, e = attempt(c.fit, max_tries=5, fit_deg=1, candidate_tolerance=tol, progress=False)
        except Hang:
            ok = False
        ran = getattr(c, "candidate_peak", None) is not None and c.hough_lines is not None
        self.log(t, ran, op="fit", first=first, tol=num(tol),
                 cand=[nums(x) for x in zip(c.candidate_peak, c.candidate_arc)] if ran else [],
                 lines=[nums(x) for x in c.hough_lines] if ran else [])


def dyadic_case(rng):
    """Points and limits with exact arithmetic, intercepts often exactly on a limit."""
    n = rng.choice([1, 2, 3, 5, 9, 17])
    m = rng.randrange(1, 7)
    xs = [rng.randrange(0, 33) * rng.choice([1, 0.5]) for _ in range(m)]
    ys = [rng.randrange(0, 65) * rng.choice([1, 2]) for _ in range(m)]
    smin = rng.choice([0, 0.5, 1, -1])
    smax = smin + rng.choice([1, 2, 4, 0.5])
    base = rng.choice([float(ys[0]) - smin * xs[0], 0.0, -8.0])
    return xs, ys, [smin, smax, base, base + rng.choice([0, 4, 16, 64])], n


def float_case(rng):
    n = rng.choice([2, 3, 7, 10, 12])
    m = rng.randrange(1, 9)
    xs = sorted(round(rng.uniform(0, 1000), rng.choice([0, 1, 6])) for _ in range(m))
    ys = [3000 + 5 * x + rng.uniform(-200, 200) for x in xs]
    if rng.random() < 0.5:
        z = list(zip(xs, ys)); rng.shuffle(z)
        xs, ys = [a for a, _ in z], [b for _, b in z]
    w = rng.choice([50.0, 400.0])
    return xs, ys, [4.5, 5.5, 3000 - w, 3000 + w], n


def pow2(xs):
    """The slopes between any two of these pixels are exact."""
    d = [int(abs(a - b)) for a in xs for b in xs]
    return all(x & (x - 1) == 0 for x in d)


def brute_case(rng):
    """Slopes and intercepts that hit the limits, repeated pixels."""
    m = rng.randrange(2, 8)
    xs = [rng.choice([0, 1, 2, 4, 8, 8, 16]) + rng.choice([0, 0, 32]) for _ in range(m)]
    ys = [rng.randrange(0, 9) * rng.choice([16, 64]) for _ in range(m)]
    if rng.random() < 0.4:
        xs = rng.choice([[0, 1, 2], [2, 0, 1], [4, 2, 0, 4], [3, 1], [0, 2, 1, 2, 0]])
        xs, ys = [float(x) for x in xs], [float(rng.randrange(0, 5)) for _ in xs]
        return xs, ys, [rng.choice([-1, 0]), rng.choice([1, 2, 3]), rng.choice([-4, 0]), rng.choice([2, 4, 8])], pow2(xs)
    return xs, ys, [rng.choice([-16, 0, 4]), rng.choice([16, 32, 64]), rng.choice([-64, -512, 0]), rng.choice([64, 128, 512])], \
        pow2(xs)


def points_case(ck, brute, n):
    rng = ck.rng
    W = World(rng, ck.work)
    W.new()
    for _ in range(n):
        if brute:
            xs, ys, lim, exact = brute_case(rng)
            if rng.random() < 0.25:
                xs, ys, lim, _ = float_case(rng)
                exact = False
            if len(xs) < 2:
                continue
            W.generate(1, xs, ys, lim, 0, True, exact)
        elif rng.random() < 0.65:
            xs, ys, lim, k = dyadic_case(rng)
            W.generate(1, xs, ys, lim, k, False, True)
        else:
            xs, ys, lim, k = float_case(rng)
            W.generate(1, xs, ys, lim, k, False, False)
    return W.ev


def calibrator_case(ck, brute):
    W = World(ck.rng, ck.work)
    W.new(True)
    W.transform(1, brute)
    if ck.rng.random() < 0.5:
        W.transform(1, not brute)
    return W.ev


def replay(ck, hist):
    """A behaviour of HoughMC on real transforms."""
    data = [([0, 1, 2], [12, 24, 36]), ([2, 0, 2], [36, 12, 12]), ([3, 1], [48, 0])]
    W = World(ck.rng, ck.work)
    W.new(), W.new()
    for o in hist:
        t = o["t"]
        if o["op"] == "generate":
            L = o["lim"]
            xs, ys = data[o["d"] - 1]
            W.generate(t, xs, ys, [L["smin"], L["smax"], L["imin"], L["imax"]], o["n"], o["brute"], True)
        elif o["op"] == "extend":
            W.extend(t, "transform", o["from"])
        elif o["op"] == "bin":
            W.bin(t, o["bx"], o["by"])
        elif o["op"] == "save":
            W.save(t, sorted(o["fs"]), "h", False)
        else:
            W.load(t, "h", o["f"])
    return W.ev


def history(ck, n, w, ncal=1):
    rng = ck.rng
    W = World(rng, ck.work)
    W.new(), W.new()
    for _ in range(ncal):
        W.new(True)
    saved = []
    for _ in range(n):
        t = rng.randrange(1, len(W.t) + 1)
        c, ht = W.c[t - 1], W.t[t - 1]
        op = rng.choices(list(w), weights=list(w.values()))[0]
        if op == "generate":
            if c is not None:
                W.transform(t, rng.random() < 0.5)
            else:
                brute = rng.random() < 0.4
                if brute:
                    xs, ys, lim, exact = brute_case(rng)
                    k = 0
                else:
                    (xs, ys, lim, k), exact = (dyadic_case(rng), True) if rng.random() < 0.5 else (float_case(rng), False)
                W.generate(t, xs, ys, lim, k, brute, exact)
                if rng.random() < 0.6 and ht.hough_points is not None and len(ht.hough_points):
                    W.bin(t, rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 4, 6]))
        elif op == "extend" and ht.hough_points is not None and c is None and len(ht.hough_points) < 80:
            k = rng.choice(["transform", "transform", "array", "other"])
            frm = [j + 1 for j, x in enumerate(W.t) if x.hough_points is not None]
            W.extend(t, k, rng.choice(frm))
        elif op == "bin" and ht.hough_points is not None and len(ht.hough_points) and c is None:
            W.bin(t, rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 4, 6]))
        elif op == "limits" and c is None:
            W.limits(t, [rng.choice([0, 1.0]), rng.choice([2.0, float("nan"), float("inf")]), rng.choice([0, -5, float("-inf")]), 9])
        elif op == "save" and ht.hist is not None:
            name = rng.choice(["a", "b", "hough.v1"])
            fm = rng.choice([["npy"], ["json"], ["npy", "json"], ["json", "npy"]])
            mem = rng.random() < 0.3
            W.save(t, fm, name, mem)
            if not mem:
                saved += [(name, f) for f in fm]
        elif op == "load" and saved:
            name, f = rng.choice(saved)
            if rng.random() < 0.08:
                f = rng.choice(["txt", "csv"])
            W.load(t, name, f)
            if c is not None and rng.random() < 0.5:
                W.fit(t)
        elif op == "fit" and c is not None:
            W.fit(t)
    return W.ev


def bin_case(ck):
    rng = ck.rng
    W = World(rng, ck.work)
    W.new(), W.new()
    for t in (1, 2):
        xs, ys, lim, k = rng.choice([dyadic_case, float_case])(rng)
        W.generate(t, xs, ys, lim, max(k, 3), False, False)
    for _ in range(2):
        t = rng.choice([1, 2])
        if W.t[t - 1].hough_points is not None and len(W.t[t - 1].hough_points):
            W.bin(t, rng.choice([1, 2, 3, 4, 7]), rng.choice([1, 2, 3, 5, 8]))
            W.extend(t, rng.choice(["array", "transform"]), 3 - t)
            if len(W.t[t - 1].hough_points):
                W.bin(t, rng.choice([1, 2, 4]), rng.choice([1, 3, 5]))
    return W.ev


def run(ck, gen, cases):
    ck.model("HoughMC")
    q = ck.quick
    if gen:
        cases += [replay(ck, h) for h in ck.generate("HoughMC", "HoughGen.cfg", gen if q else 10 * gen)]
    ck.validate("HoughTrace", cases)


def check_H01(ck):
    ck.scope = "slope grid"
    k = 1 if ck.quick else 10
    run(ck, 10, [points_case(ck, False, 5) for _ in range(50 * k)] + [calibrator_case(ck, False) for _ in range(8 * k)])


def check_H02(ck):
    ck.scope = "brute force"
    k = 1 if ck.quick else 10
    run(ck, 10, [points_case(ck, True, 5) for _ in range(60 * k)] + [calibrator_case(ck, True) for _ in range(8 * k)])


def check_H03(ck):
    ck.scope = "binning"
    k = 1 if ck.quick else 10
    run(ck, 10, [bin_case(ck) for _ in range(50 * k)] + [calibrator_case(ck, ck.rng.random() < 0.5) for _ in range(12 * k)])


def check_H04(ck):
    ck.scope = "^save|^load|^fit|agree"
    k = 1 if ck.quick else 10
    run(ck, 15, [history(ck, 14, dict(generate=3, extend=1, bin=2, save=4, load=4, fit=1), 2) for _ in range(40 * k)])


def check_H05(ck):
    ck.scope = "^extend|leaves other|keeps the other|every point|limits:"
    k = 1 if ck.quick else 10
    run(ck, 15, [history(ck, 12, dict(generate=3, extend=5, bin=3, limits=0.7), 0) for _ in range(40 * k)]
        + [bin_case(ck) for _ in range(20 * k)])
