"""U01: refine_peaks against Refine.tla."""
import numpy as np
from lib import Hang, alarm, attempt, num, nums

REACH = 8


def spectrum(n, lines):
    x = np.arange(n)
    s = np.zeros(n)
    for c, sg, a in lines:
        g = a * np.exp(-((x - c) ** 2) / (2 * sg**2))
        g[np.abs(x - c) > REACH * sg] = 0
        s += g
    return s


def refine(s, peaks, w):
    from rascal.util import refine_peaks
    try:
        with alarm(60):
            ok, r = attempt(refine_peaks, s, peaks, window_width=w)
            if ok:
                ok, r = attempt(lambda: nums(np.asarray(r, float).reshape(-1)))
            return (True, r) if ok else (False, [])
    except Hang:
        return False, []


def form(rng, s, whole):
    """The spectrum in different dresses with the same lines."""
    k = rng.randrange(6)
    if k == 0:
        return s * 10.0 ** rng.randrange(-4, 6)
    if k == 1:
        return list(s)
    if k == 2 and whole:
        return np.round(s * 10**6).astype(rng.choice([np.int64, np.int64, np.uint32]))
    if k == 3 and whole:
        return [int(v) for v in np.round(s * 10**6)]
    if k == 4:
        return (s * 2.0**-20)
    return s.copy()


def lines_case(ck):
    rng = ck.rng
    w = rng.choice([4, 5, 6, 8, 10, 12, 15])
    n = rng.randrange(60, 300)
    lines, c = [], rng.uniform(0.3, 30)
    whole = rng.random() < 0.4
    while c < n - 1.3 and len(lines) < 8:
        sg = rng.uniform(0.7, min(3.0, w / 3.0))
        lines.append((c, sg, rng.choice([1.0, 0.3, 5.0, 0.01 if not whole else 0.5])))
        # the next one far, near the edge of the window, or blended
        c += rng.choice([2 * w + REACH * 3.0, w + REACH * sg + rng.uniform(0, 5), rng.uniform(w, 3 * w), rng.uniform(1, w)])
    if rng.random() < 0.3:
        lines.append((n - 1 - rng.uniform(0.3, w), rng.uniform(0.7, min(3.0, w / 3.0)), 1.0))
    peaks = []
    for c, sg, a in lines:
        for _ in range(rng.choice([1, 1, 1, 2])):
            g = c + rng.uniform(-1, 1) * min(1.5, w / 4.0)
            peaks.append(rng.choice([round(g), g, float(round(g))]))
    peaks = [min(max(p, 0), n - 1) for p in peaks]
    if rng.random() < 0.4:
        peaks += [rng.choice([-w - 3, -1000, n + w, n + w + 5, n + 500, rng.randrange(0, n)]) for _ in range(2)]
    o = rng.random()
    if o < 0.5:
        peaks.sort()
    elif o < 0.75:
        rng.shuffle(peaks)
    s = form(rng, spectrum(n, lines), whole)
    ev = event(rng, "lines", s, peaks, w)
    ev["lines"] = [dict(c=num(c), s=num(sg)) for c, sg, _ in lines]
    ev["acc"] = "1/100" if whole else "1/1000"
    def clear(p):
        lo, hi = max(0, int(p) - w), min(int(p) + w, n)
        seen = [c for c, sg, _ in lines if c + REACH * sg >= lo - 1 and c - REACH * sg <= hi]
        return len(seen) == 1 and lo <= seen[0] <= hi - 1 and 3 * abs(seen[0] - int(p)) <= w
    return [ev] + same(ck, s, [p for p in peaks if clear(p)], w, spectrum(n, lines))


def event(rng, op, s, peaks, w):
    arg = np.array(peaks) if rng.random() < 0.5 else list(peaks)
    ok, r = refine(s, arg, w)
    singles = [refine(s, [p], w) for p in peaks]
    return dict(op=op, len=len(s), w=w, peaks=[int(p) for p in peaks], ok=ok and all(a for a, _ in singles), res=r,
                singles=[v for _, v in singles])


def noise_case(ck):
    rng = ck.rng
    n, w = rng.randrange(40, 200), rng.choice([4, 6, 10])
    s = np.array([rng.gauss(1.0, 0.3) for _ in range(n)]) + spectrum(n, [(rng.uniform(5, n - 5), rng.uniform(1, 3), 6.0) for _ in range(3)])
    if rng.random() < 0.4:
        for _ in range(3):
            s[rng.randrange(n)] = np.nan
    k = rng.randrange(0, 6)
    peaks = [rng.randrange(-3, n + 3) for _ in range(k)]
    if rng.random() < 0.5:
        peaks.sort()
    return [event(rng, "noise", s, peaks, w)]


def same(ck, s, peaks, w, clean):
    """Changes that must not matter to a single peak."""
    rng, evs, n = ck.rng, [], len(s)
    on = [p for p in peaks if w <= p < n - w]
    if not on:
        return evs
    p = rng.choice(on)
    lo, hi = int(p) - w, int(p) + w
    base = np.asarray(clean, float)
    if not np.any(base[lo:hi] > 0.001):
        return evs
    a = refine(base, [p], w)
    def put(what, s2, p2, shift=0.0, acc="1/100000"):
        b = refine(s2, [p2], w)
        try:
            bb = [num(eval_(v) - shift) for v in b[1]]
        except Exception:
            bb = ["nan"]
        evs.append(dict(op="same", what=what, ok=a[0] and b[0], a=a[1], b=bb, acc=acc))
    from fractions import Fraction
    eval_ = lambda v: float(Fraction(v))
    out = base.copy()
    out[:lo] = [rng.uniform(0, 3) for _ in range(lo)]
    out[hi:] = [rng.uniform(0, 3) for _ in range(n - hi)]
    put("light outside of the window", out, p)
    put("the scale of the spectrum", base * rng.choice([1e-3, 7.0, 1e4]), p)
    k = rng.randrange(1, 40)
    put("the position on the detector", np.concatenate([np.zeros(k), base]), p + k, shift=float(k))
    put("how much detector follows", base[:hi], p)
    put("the type of the spectrum", list(base), p)
    put("the fraction of the initial position", base, int(p) + rng.choice([0.0, 0.25, 0.75]))
    return evs


def check_U01(ck):
    ck.model("RefineMC")
    n = 150 if ck.quick else 4000
    cases = [lines_case(ck) for _ in range(n)] + [noise_case(ck) for _ in range(n // 3)]
    ck.validate("RefineTrace", cases)
