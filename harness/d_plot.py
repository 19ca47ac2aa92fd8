"""L01, L02, L03: plots interleaved with everything else, against Plot.tla."""
import base64, hashlib, json, os, shutil, tempfile
import numpy as np
from lib import Hang, alarm, attempt, num, nums

MAGIC = {"png": b"\x89PNG", "jpg": b"\xff\xd8", "pdf": b"%PDF"}


def canon(x, seen=()):
    """A value as text, equal exactly if the value is."""
    if id(x) in seen:
        return "<loop>"
    if isinstance(x, np.ndarray):
        return "a" + str(x.shape) + canon(x.tolist(), seen)
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v, seen + (id(x),)) for v in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join("%s:%s" % (k, canon(x[k], seen + (id(x),))) for k in sorted(x, key=str)) + "}"
    if isinstance(x, (bool, np.bool_)):
        return "T" if x else "F"
    if isinstance(x, (int, float, np.integer, np.floating)):
        return repr(float(x)) if abs(x) < 2**53 else repr(x)
    if x is None or isinstance(x, str):
        return repr(x)
    if callable(x) and not hasattr(x, "__dict__"):
        return "f"
    if hasattr(x, "__name__"):
        return "f:" + x.__name__
    if hasattr(x, "__dict__"):
        d = {k: v for k, v in vars(x).items() if k != "logger" and not k.startswith("_") and not hasattr(v, "handlers")}
        return type(x).__name__ + canon(d, seen + (id(x),))
    return type(x).__name__


def digest(x):
    return hashlib.sha1(canon(x).encode()).hexdigest()[:16]


def state_digest(c, keys=None):
    """Of a calibrator (the attributes it had before, if given), its atlas and the random generator."""
    d = {k: v for k, v in vars(c).items() if k != "logger" and not k.startswith("_")}
    if keys is not None:
        d = {k: d.get(k, "<gone>") for k in keys}
    s = np.random.get_state()
    return digest([d, [s[0], s[1], s[2], s[3], s[4]]])


# -----------------------------------------------------------------------------------------------
def of_matplotlib(fig):
    from matplotlib.collections import LineCollection, PathCollection
    series, vx, hy, labels = [], [], [], ["", ""]
    def line(x, y):
        if len(x) == 2 and x[0] == x[1]:
            vx.append(x[0])
        elif len(x) == 2 and y[0] == y[1]:
            hy.append(y[0])
        series.append((x, y))
    for ax in fig.axes:
        labels = [ax.get_xlabel() or labels[0], ax.get_ylabel() or labels[1]]
        for ln in ax.get_lines():
            line(list(np.asarray(ln.get_xdata(), float)), list(np.asarray(ln.get_ydata(), float)))
        for col in ax.collections:
            if isinstance(col, LineCollection):
                for seg in col.get_segments():
                    if len(seg) == 2:
                        line([seg[0][0], seg[1][0]], [seg[0][1], seg[1][1]])
            elif isinstance(col, PathCollection):
                o = np.asarray(col.get_offsets(), float)
                series.append((list(o[:, 0]), list(o[:, 1])))
    return series, vx, hy, labels


def plain(v):
    if isinstance(v, dict) and "bdata" in v:
        return np.frombuffer(base64.b64decode(v["bdata"]), dtype=np.dtype(v["dtype"])).astype(float).tolist()
    return [float(a) for a in (v or []) if a is not None]


def of_plotly(js):
    d = json.loads(js)
    series, vx, hy = [], [], []
    for t in d["data"]:
        x, y = plain(t.get("x")), plain(t.get("y"))
        series.append((x, y))
        if len(x) == len(y) == 2:
            if x[0] == x[1]:
                vx.append(x[0])
            elif y[0] == y[1]:
                hy.append(y[0])
    for s in d["layout"].get("shapes", []):
        if s.get("x0") == s.get("x1"):
            vx.append(s["x0"])
        elif s.get("y0") == s.get("y1"):
            hy.append(s["y0"])
    lab = lambda a: (d["layout"].get(a, {}).get("title") or {}).get("text", "")
    return series, vx, hy, [lab("xaxis"), lab("yaxis")]


def label(s):
    s = s.lower()
    return "pixel" if "pix" in s and "wave" not in s else "wavelength" if "wave" in s and "pix" not in s else "other"


def right_type(path, ext):
    b = open(path, "rb").read(4096)
    if ext in MAGIC:
        return b.startswith(MAGIC[ext])
    if ext == "svg":
        return b"<svg" in b
    return b"<html" in b.lower()


class Scratch:
    """A directory the plots may write to; is the working directory inside the block."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp-plot-")
        os.mkdir(self.d + "/sub")
        self.old = os.getcwd()
        os.chdir(self.d)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)

    def look(self):
        r = {}
        for top, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(top, f)
                s = os.stat(p)
                r[os.path.relpath(p, self.d)] = (s.st_mtime_ns, s.st_size, s.st_ino)
        return r


BYTES = dict(png=b"\x89PNG\r\n\x1a\n", jpg=b"\xff\xd8\xff", jpeg=b"\xff\xd8\xff", pdf=b"%PDF-1.4", svg=b"<svg></svg>")
IMAGES = None
SHOWN = [0]


def to_image(fig, format=None, *a, **k):
    return BYTES[format or "png"]


def write_image(fig, file, format=None, *a, **k):
    """What plotly does, without a picture."""
    if not format:
        format = os.path.splitext(str(file))[1][1:].lower()
        if not format:
            raise ValueError("no image type")
    b = BYTES[format]
    if hasattr(file, "write"):
        file.write(b)
    else:
        with open(str(file), "wb") as f:
            f.write(b)


def show(*a, **k):
    SHOWN[0] += 1


def plotly_images():
    """Whether plotly can write images here (that needs its own browser); installs a stand-in if not."""
    global IMAGES
    if IMAGES is None:
        import matplotlib.pyplot as plt
        import plotly.io as pio
        plt.show = pio.show = show
        plt.Figure.show = show
        with Scratch():
            try:
                with alarm(60):
                    import plotly.graph_objects as go
                    pio.write_image(go.Figure(), "x.png")
                    IMAGES = os.path.exists("x.png")
            except BaseException:  # noqa
                IMAGES = False
        if not IMAGES:
            pio.write_image, pio.to_image = write_image, to_image
    return IMAGES


# -----------------------------------------------------------------------------------------------
class World:
    """A calibrator, whose plots can be left out."""

    def __init__(self, scene, lib, plots, scratch):
        from rascal.calibrator import Calibrator
        from rascal.atlas import Atlas
        self.sc, self.plots, self.scratch, self.ev = scene, plots, scratch, []
        spec = scene["spectrum"]
        self.given = np.array(scene["peaks"]) if scene["array"] else list(scene["peaks"])
        self.c = Calibrator(self.given, spectrum=spec)
        self.c.set_calibrator_properties(num_pix=scene["n"], pixel_list=np.arange(scene["n"]), plotting_library=lib, seed=scene["seed"])
        self.c.set_hough_properties(num_slopes=60, xbins=10, ybins=10, min_wavelength=4000.0, max_wavelength=scene["top"],
                                    range_tolerance=200.0)
        self.c.set_ransac_properties(minimum_matches=3, minimum_fit_error=0.0, filter_close=False)
        self.atlas = Atlas()
        self.atlas.add_user_atlas(["X"] * len(scene["lines"]), list(scene["lines"]))
        self.c.set_atlas(self.atlas)
        self.fitted = False
        self.results = []
        self.note()

    def obs(self):
        c = self.c
        g = lambda a: nums(np.asarray(getattr(c, a)).reshape(-1)) if getattr(c, a, None) is not None else []
        pairs = np.asarray(c.pairs, float).reshape(-1, 2) if getattr(c, "pairs", None) is not None and len(c.pairs) else np.zeros((0, 2))
        sol = bool(self.fitted and c.fit_coeff is not None and len(c.matched_peaks) > 0)
        return dict(lib=c.which_plotting_library() or "?", dig=state_digest(c), peaks=g("peaks"), spectrum=g("spectrum"),
                    pixels=g("pixel_list"), coef=g("fit_coeff"), mp=g("matched_peaks"), mw=g("matched_atlas"),
                    lines=nums(self.atlas.get_lines()), pairs=dict(x=nums(pairs[:, 0]), y=nums(pairs[:, 1])),
                    lo=num(c.min_wavelength), hi=num(c.max_wavelength), tol=num(c.range_tolerance),
                    data=dict(spectrum=c.spectrum is not None, solution=sol, candidates=bool(self.fitted)))

    def note(self):
        if self.plots:
            self.ev.append(dict(op="state", s=self.obs()))

    def result(self, r):
        ok, v = r
        self.results.append(canon(v) if ok else "error")

    def do(self, o, rng):
        """An operation that changes the calibrator; rng has the same state in both worlds."""
        c, op = self.c, o["op"]
        if op == "library":
            (c.use_matplotlib if o["lib"] == "matplotlib" else c.use_plotly)()
            if self.plots:
                self.ev.append(dict(op="library", lib=o["lib"], which=c.which_plotting_library() or "?", s=self.obs()))
            return
        try:
            with alarm(60):
                if op == "fit":
                    ok, r = attempt(c.fit, max_tries=40, fit_deg=rng.choice([1, 1, 2]), candidate_tolerance=40.0, progress=rng.random() < 0.3)
                    self.fitted = ok
                    self.result((ok, r))
                elif op == "match":
                    self.result(attempt(c.match_peaks, tolerance=rng.choice([10.0, 30.0]), robust_refit=rng.random() < 0.5))
                elif op == "edit":
                    if rng.random() < 0.5:
                        p = float(rng.randrange(1, self.sc["n"] - 1))
                        self.result(attempt(c.add_pix_wave_pair, p, 4000.0 + 40.0 * p))
                    else:
                        self.result(attempt(c.remove_pix_wave_pair, 0) if len(c.matched_peaks) > 3 else (False, 0))
                elif op == "refit":
                    g = [np.asarray(c.matched_peaks, float), np.asarray(c.matched_atlas, float)]
                    if rng.random() < 0.6:
                        g = [a.tolist() for a in g]
                    self.result(attempt(c.manual_refit, *(g if rng.random() < 0.8 else ()), degree=1))
                elif op == "properties":
                    c.set_hough_properties(range_tolerance=rng.choice([150.0, 200.0, 260.0]))
                elif op == "known":
                    k = rng.randrange(len(self.sc["peaks"]))
                    attempt(c.set_known_pairs, [self.sc["peaks"][k]], [4000.0 + 40.0 * self.sc["peaks"][k]])
                elif op == "hough":
                    attempt(c.do_hough_transform)
        except Hang:
            self.results.append("hang")
        self.note()

    def plot(self, o, rng, aux):
        """aux: random choices which only concern the plot."""
        from rascal import plotting
        if not self.plots:
            return
        c, kind, sc = self.c, o["kind"], self.sc
        lib = c.which_plotting_library()
        types = list(o["types"])
        aux.shuffle(types)
        kw = dict(save_fig=o["save"], display=aux.random() < 0.4)
        if o["save"] or aux.random() < 0.5:
            kw["fig_type"] = "+".join(types)
        if o["name"]:
            kw["filename"] = o["name"]
        ev = dict(op="plot", kind=kind, lib=lib, save=o["save"], types=types, name=o["name"], json=bool(o["json"]) and kind != "lines",
                  log=False, coef=[], pixels=[], spectrum=[], tol="5", atlas=True, sel=[], xlabel="", ylabel="",
                  series=[], vx=[], hy=[], seen=False, ret="?", files=[], wrong=[],
                  cand=dict(x=['?'], y=['?']), best=dict(x=['?'], y=['?']))
        if "fig_type" not in kw:
            ev["types"] = ["png"]
        if kind != "lines":
            kw["return_jsonstring"] = ev["json"]
        args = dict(kw)
        if kind == "arc":
            kw["log_spectrum"] = ev["log"] = aux.random() < 0.4
            if aux.random() < 0.3 and c.spectrum is not None:
                args["pixel_list"] = np.arange(len(c.spectrum)) + 3.0
                ev["pixels"] = nums(args["pixel_list"])
            f = c.plot_arc if aux.random() < 0.8 else lambda **k: plotting.plot_arc(c, **k)
        elif kind == "fit":
            kw["log_spectrum"] = ev["log"] = aux.random() < 0.4
            if aux.random() < 0.6 and c.fit_coeff is not None:
                off = aux.choice([0.5, 6.0, -6.0])
                args["fit_coeff"] = aux.choice([list, np.array])([float(a) + (off if k == 0 else 0) for k, a in enumerate(c.fit_coeff)])
                ev["coef"] = nums(args["fit_coeff"])
            if aux.random() < 0.4:
                args["spectrum"] = np.array([10.0 ** aux.randrange(-2, 3) for _ in range(sc["n"])])
                if aux.random() < 0.4:                # noise below zero
                    args["spectrum"][aux.randrange(sc["n"])] = -aux.choice([1.0, 0.25])
                ev["spectrum"] = nums(args["spectrum"])
            kw["plot_atlas"] = ev["atlas"] = aux.random() < 0.7
            kw["tolerance"] = aux.choice([1.0, 5.0, 60.0])
            ev["tol"] = num(kw["tolerance"])
            f = c.plot_fit
        elif kind == "search":
            if aux.random() < 0.6 and c.fit_coeff is not None:
                args["fit_coeff"] = aux.choice([list, np.array])([float(a) for a in c.fit_coeff])
                ev["coef"] = nums(args["fit_coeff"])
            kw["top_n_candidate"] = aux.choice([1, 3, 8])
            kw["weighted"] = aux.random() < 0.5
            f = c.plot_search_space
        else:
            args["elements"] = aux.choice([["Xe"], ["Cu", "Xe"]])
            sel = dict(elements=list(args["elements"]), min_atlas_wavelength=4060.0, max_atlas_wavelength=4085.0,
                       min_intensity=aux.choice([0.0, 20.0]), min_distance=aux.choice([0.0, 2.0]), vacuum=aux.random() < 0.5)
            args.update(sel)
            kw.update(label=aux.random() < 0.5, log=aux.random() < 0.4)
            f = plotting.plot_calibration_lines
        args.update(kw)
        # a fit plot with plotly needs a peak within the tolerance of a line
        if kind == "fit" and lib == "plotly" and c.fit_coeff is not None and self.fitted:
            w = np.polynomial.polynomial.polyval(np.asarray(c.peaks, float), args.get("fit_coeff", c.fit_coeff))
            if not any(np.min(np.abs(np.asarray(self.atlas.get_lines()) - x)) < 0.9 * kw["tolerance"] for x in np.atleast_1d(w)):
                args["tolerance"] = 400.0
                ev["tol"] = "400"
        keys = [k for k in vars(c) if k != "logger" and not k.startswith("_")]
        before = self.scratch.look()
        ev["display"] = bool(kw["display"])
        SHOWN[0] = 0
        ev["arg0"] = digest([args, self.given, sc["spectrum"], list(sc["lines"])])
        ok, r = False, None
        try:
            with alarm(100):
                ok, r = attempt(f, **args)
        except Hang:
            pass
        import matplotlib.pyplot as plt
        ev["shown"] = SHOWN[0]
        ev["ok"] = bool(ok)
        ev["err"] = "" if ok else repr(r)[:200]
        ev["after"] = state_digest(c, keys)
        ev["arg1"] = digest([args, self.given, sc["spectrum"], list(sc["lines"])])
        now = self.scratch.look()
        ev["files"] = sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))
        for fn in ev["files"]:
            ext = fn.rsplit(".", 1)[-1]
            if fn in now and not right_type(os.path.join(self.scratch.d, fn), ext):
                ev["wrong"].append(fn)
        if ok and kind == "search":
            k, m = attempt(lambda: [[a for t in c.candidates for a in t[i]] for i in (0, 1)])
            if k:
                ev["cand"] = dict(x=nums(m[0]), y=nums(m[1]))
            k, m = attempt(c._get_most_common_candidates, c.candidates, kw["top_n_candidate"], kw["weighted"])
            if k:
                ev["best"] = dict(x=nums(m[0]), y=nums(m[1]))
        if ok:
            got = None
            if r is None:
                ev["ret"] = "none"
            elif isinstance(r, str):
                ev["ret"] = "json"
                k, got = attempt(of_plotly, r)
                got = got if k else None
                if not k:
                    ev["ret"] = "not json"
            else:
                ev["ret"] = "figure" if hasattr(r, "axes") else "?"
                k, got = attempt(of_matplotlib, r)
                got = got if k else None
            if got:
                ev["series"] = [dict(x=nums(x), y=nums(y)) for x, y in got[0] if len(x) == len(y)]
                ev["vx"], ev["hy"] = nums(got[1]), nums(got[2])
                ev["xlabel"], ev["ylabel"] = label(got[3][0]), label(got[3][1])
                ev["seen"] = True
            if kind == "lines":
                from rascal.util import load_calibration_lines
                e, w, i = load_calibration_lines(**sel)
                ev["sel"] = [dict(x=nums(w[e == n]), y=nums(i[e == n])) for n in sel["elements"]]
        plt.close("all")
        self.ev.append(ev)


def scene(rng, spectrum=True):
    n = rng.choice([32, 48])
    peaks = sorted(rng.sample(range(1, n - 1), 6))
    if rng.random() < 0.5:
        peaks = [p + 0.25 * rng.randrange(0, 4) for p in peaks]
    top = 4000.0 + 40.0 * n
    lines = [4000.0 + 40.0 * p + rng.uniform(-2, 2) for p in peaks]
    if rng.random() < 0.5:                    # a peak without a line
        del lines[rng.randrange(6)]
    spec = None
    if spectrum:
        m = rng.random()
        spec = np.array([10.0 ** rng.randrange(0 if m < 0.3 else -2, 4) for _ in range(n)])
        if m < 0.3:
            spec = spec.astype(int)
        elif m < 0.5:
            spec[rng.sample(range(n), 3)] = rng.choice([0.0, -1.0])
    return dict(n=n, peaks=peaks, lines=lines, top=top, spectrum=spec, array=rng.random() < 0.5, seed=rng.randrange(1, 10**6))


def play(ck, hist):
    import random
    rng = ck.rng
    sc = scene(rng, hist[0]["spectrum"])
    s1, s2 = rng.random(), rng.random()
    worlds = []
    for plots in (True, False):
        a, b = random.Random(s1), random.Random(s2)
        with Scratch() as sd:
            w = World(sc, hist[0]["lib"], plots, sd)
            for o in hist[1:]:
                if o["op"] == "plot":
                    w.plot(o, a, b)
                else:
                    w.do(o, a)
            w.do(dict(op="fit"), a)
            w.do(dict(op="match"), a)
            worlds.append(w)
    A, B = worlds
    A.ev.append(dict(op="twin", a=digest(A.results), b=digest(B.results)))
    return A.ev


def generated(ck, n):
    hs = ck.generate("PlotMC", "PlotGen.cfg", n)
    for h in hs:
        # a fit early on, or there is little to plot
        h[:] = [o for o in h if o.get("kind") != "lines" or ck.rng.random() < 0.25]
        if ck.rng.random() < 0.8:
            h.insert(1 + (ck.rng.random() < 0.3), dict(op="fit"))
    return hs


def directed(ck):
    """Every kind of plot with every library, with everything shown."""
    rng, hs = ck.rng, []
    for lib in ("matplotlib", "plotly"):
        for save in (False, True):
            P = lambda k: dict(op="plot", kind=k, save=save, types=rng.choice([["png"], ["svg", "pdf"], ["iframe", "jpg"], ["iframe", "svg", "png"], ["png", "iframe", "gif", "pdf"]]),
                               name=rng.choice(["", "fig"]), json=True)
            ks = ["arc", "fit", "search", "lines"]
            rng.shuffle(ks)
            h = [dict(op="begin", lib=lib, spectrum=True), P("arc"), dict(op="fit")]
            h += [P(k) for k in ks] + [dict(op=rng.choice(["edit", "match", "refit", "refit", "properties"]))] + [P(k) for k in ("fit", "search", "fit")]
            hs.append(h)
    hs.append([dict(op="begin", lib="matplotlib", spectrum=False), dict(op="fit")] + [P(k) for k in ("fit", "search")] +
              [dict(op="library", lib="plotly"), P("fit"), P("search")])
    return hs


SCOPES = dict(L01="^read-only|^plot:", L02="^files|^returns", L03="^(arc|fit|search|lines|library):")


def run(ck, n, scope):
    import matplotlib
    matplotlib.use("Agg")
    ck.scope = scope
    ck.model("PlotMC")
    if not plotly_images():
        ck.notes.append("plotly cannot draw images here: its write_image and to_image are replaced by stand-ins that write an empty image of the type")
    cases = ck.each(lambda h: play(ck, h), directed(ck) + generated(ck, n))
    ck.validate("PlotTrace", cases)


def check_L01(ck):
    run(ck, 14 if ck.quick else 250, SCOPES["L01"])


def check_L02(ck):
    run(ck, 14 if ck.quick else 250, SCOPES["L02"])


def check_L03(ck):
    run(ck, 14 if ck.quick else 250, SCOPES["L03"])
