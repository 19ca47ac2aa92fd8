"""A03, A04, A05: line requests against LineList.tla."""
import csv, os
import numpy as np
from lib import attempt, num, nums

NIST = "/repo/src/rascal/arc_lines/nist_clean.csv"
_nist = []


def nist():
    if not _nist:
        for row in csv.reader(open(NIST)):
            if row and not row[0].startswith("#"):
                _nist.append((row[0].strip(), float(row[1]), float(row[2])))
    return _nist


def air(w, cond):
    from rascal.util import vacuum_to_air_wavelength
    ok, v = attempt(vacuum_to_air_wavelength, np.asarray(w, dtype=float), cond["temperature"], cond["pressure"],
                    cond["relative_humidity"])
    return list(v) if ok else [float("nan")] * len(w)


def rows(lines, cond):
    a = air([x[1] for x in lines], cond) if lines else []
    return [dict(e=e, lc=e.lower(), w=num(w), a=num(av), i=num(i)) for (e, w, i), av in zip(lines, a)]


def request(els, lo, hi, mode, ints, n, d, vac):
    return dict(els=[e.lower() for e in els], lo=num(lo), hi=num(hi), int=mode, ints=nums(ints), n=n, d=num(d), vac=vac)


STD = dict(temperature=273.15, pressure=101325.0, relative_humidity=0.0)


def rand_cond(rng):
    return dict(temperature=rng.choice([273.15, 283.15, 300.0, 260.0]), pressure=rng.choice([101325.0, 78000.0, 60000.0]),
                relative_humidity=rng.choice([0.0, 20.0, 95.0]))


def rand_case(rng, s):
    return rng.choice([s, s, s.lower(), s.upper()])


def random_list(rng, n, distinct_int=False):
    names = rng.sample(["He", "Ne", "Ar", "Xe", "CuNeAr"], rng.randrange(1, 5))
    base = rng.choice([3000.0, 5000.0])
    step = rng.choice([0.25, 0.5, 1.0, 4.0])
    ws = [base + step * rng.randrange(0, 2 * n + 1) for _ in range(n)]
    pool = list(range(1, 4 * n))
    ints = rng.sample(pool, n) if distinct_int else [rng.choice([0, 1, 2.5, 5, 10, 10, 20, 100]) for _ in range(n)]
    return names, [(rng.choice(names), w, float(i)) for w, i in zip(ws, ints)], base, step


def write_list(ck, lines):
    path = os.path.join(ck.work, "list-%d.csv" % ck.rng.randrange(10**9))
    with open(path, "w") as f:
        f.write("#Element, Wavelength, Intensity\n")
        for e, w, i in lines:
            f.write("%s,%s,%s\n" % (e, ("%.4f" % w).rstrip("0").rstrip("."), ("%g" % i)))
    return path


def result(v):
    e, w, i = v
    return dict(w=nums(w), e=[str(x) for x in e], i=nums(i))


def atlas_result(at):
    ok, v = attempt(lambda: (at.get_elements(), at.get_lines(), at.get_intensities()))
    return result(v) if ok else dict(w=["nan"], e=[], i=[])


EMPTY = dict(w=[], e=[], i=[])


def loader_event(ck, d_mode, vac=None):
    """A request on a random list file."""
    from rascal.util import load_calibration_lines
    from rascal.atlas import Atlas
    rng = ck.rng
    n = rng.choice([1, 2, 3, 6, 12, 20, 30])
    names, lines, base, step = random_list(rng, n, distinct_int=rng.random() < 0.6)
    path = write_list(ck, lines)
    els = rng.sample(names, rng.randrange(1, len(names) + 1))
    if rng.random() < 0.15:
        els.append("Zz")
    asked = [rand_case(rng, e) for e in els]
    # ends of the range often fall exactly on a line
    ends = sorted(rng.choice(lines)[1] + rng.choice([0, 0, 0, -step, step]) for _ in range(2))
    lo, hi = ends if rng.random() < 0.7 else (base - 10, base + 1000)
    if vac is None:
        vac = rng.random() < 0.75
    mode = rng.choice([0, 1, 1, 2])
    ints = [rng.choice([0, 1, 2.5, 10, 15, 50]) for _ in range(len(els) if mode == 2 else 1)]
    k = rng.choice([-1, -1, 1, 2, 3, 5, 10, 100, 0])
    d = 0.0 if d_mode == 0 else step * rng.choice([0, 0.5, 1, 1, 2, 2, 3, 5])
    cond = rand_cond(rng)
    entry = rng.choice(["loader", "loader", "atlas", "add"]) if mode != 2 else "loader"
    kw = dict(min_atlas_wavelength=lo, max_atlas_wavelength=hi, min_distance=d, vacuum=vac, linelist=path, **cond)
    if rng.random() < 0.3 and cond == STD:
        for c in cond:
            kw.pop(c)
    kw["min_intensity"] = None if mode == 0 else ints[0] if mode == 1 else rng.choice([list, np.array])(ints)
    full = rows(lines, cond)
    if entry == "loader":
        if k >= 0:
            kw["brightest_n_lines"] = k
        arg = asked[0] if len(asked) == 1 and rng.random() < 0.5 else list(asked)
        ok, v = attempt(load_calibration_lines, arg, **kw)
        groups = [dict(list=full, r=request(els, lo, hi, mode, ints, k, d, vac))]
        res = result(v) if ok else EMPTY
    else:
        arg = asked[0] if len(asked) == 1 and rng.random() < 0.5 else list(asked)
        if entry == "atlas":
            k = 1000
            ok, v = attempt(Atlas, arg, **kw)
        else:
            if k >= 0:
                kw["brightest_n_lines"] = k
            else:
                k = 1000
            v = Atlas(min_atlas_wavelength=lo, max_atlas_wavelength=hi, range_tolerance=0)
            if rng.random() < 0.3 and lo < hi:
                kw.pop("min_atlas_wavelength"), kw.pop("max_atlas_wavelength")
            ok, e = attempt(v.add, arg, **kw)
        groups = [dict(list=full, r=request([e], lo, hi, mode, ints, k, d, vac)) for e in els]
        res = atlas_result(v) if ok else EMPTY
    os.unlink(path)
    return dict(op="load", entry=entry, groups=groups, ok=ok, res=res)


def nist_event(ck, entry, d=None):
    """A request on the built-in list, through any entry point."""
    from rascal.util import load_calibration_lines
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator
    rng = ck.rng
    els = rng.sample(["He", "Ne", "Ar", "Kr", "Xe", "Hg", "Cu", "Cd"], rng.choice([1, 1, 2, 3]))
    lo = float(rng.choice([3000, 3600, 4200, 5000, 7000]))
    hi = lo + rng.choice([200.0, 500.0, 1500.0])
    vac = rng.random() < 0.4
    cond = rand_cond(rng)
    d = rng.choice([0.0, 1.0, 10.0, 25.0]) if d is None else d
    ints = [rng.choice([0.0, 10.0, 100.0])]
    kw = dict(min_intensity=ints[0], min_distance=d, vacuum=vac, **cond)
    if rng.random() < 0.25 and d == 10.0 and ints[0] == 10.0:
        kw.pop("min_intensity"), kw.pop("min_distance")
    asked = [rand_case(rng, e) for e in els]
    rg = dict(min_atlas_wavelength=lo, max_atlas_wavelength=hi)
    k = -1
    if entry == "loader":
        ok, v = attempt(load_calibration_lines, asked, **rg, **kw)
        res = result(v) if ok else EMPTY
    else:
        k = 1000
        if entry == "atlas":
            ok, v = attempt(Atlas, asked, **rg, **kw)
        elif entry == "add":
            v = Atlas(min_atlas_wavelength=lo + 300, max_atlas_wavelength=hi - 100, range_tolerance=rng.choice([0, 300, 500]))
            if rng.random() < 0.5:
                lo, hi = lo + 300 - v.range_tolerance, hi - 100 + v.range_tolerance
                rg = {}
            ok, e = attempt(v.add, asked, **rg, **kw)
        else:
            c = Calibrator([10.0, 20.0, 30.0])
            tol = rng.choice([100, 250])
            c.set_hough_properties(min_wavelength=lo + tol, max_wavelength=hi + 900 - tol, range_tolerance=tol)
            if rng.random() < 0.5:
                hi = hi + 900
                rg = {}
            ok, e = attempt(c.add_atlas, asked, **rg, **kw)
            v = c.atlas
        res = atlas_result(v) if ok else EMPTY
    groups = []
    for g in ([els] if entry == "loader" else [[e] for e in els]):
        sub = [x for x in nist() if x[0] in els and lo - 60 < x[1] < hi + 60]
        groups.append(dict(list=rows(sub, cond), r=request(g, lo, hi, 1, ints, k, d, vac)))
    return dict(op="load", entry="NIST " + entry, groups=groups, ok=ok, res=res)


def separation_event(ck):
    from rascal.util import filter_separation
    rng = ck.rng
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 6, 12])
    step = rng.choice([0.25, 1.0, 3.0])
    ws = sorted(rng.sample(range(3 * n + 3), n))
    ws = [5000.0 + step * x for x in ws]
    d = step * rng.choice([0, 1, 1, 2, 2, 3, 4, 1.5])
    arr = np.array(ws)
    if rng.random() < 0.2 and n and all(w == int(w) for w in ws):
        arr = arr.astype(int)
    ok, m = attempt(filter_separation, arr, d)
    ok2, m = attempt(lambda: [bool(x) for x in m]) if ok else (False, [])
    return dict(op="separation", w=nums(ws), d=num(d), ok=ok and ok2, mask=m if ok2 else [], dyadic=True)


def user_event(ck, entry):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator
    from rascal.util import vacuum_to_air_wavelength
    rng = ck.rng
    n = rng.choice([1, 2, 5])
    ws = [rng.choice([3000.0, 5000.0, 8000.0]) + 10 * k + rng.randrange(0, 40) / 8 for k in range(n)]
    es = ["X%d" % k for k in range(n)]
    vac = rng.random() < 0.7
    cond = rand_cond(rng)
    if entry == "atlas":
        at = Atlas()
        ok, e = attempt(at.add_user_atlas, es, ws, None, vac, **cond)
    else:
        c = Calibrator([10.0, 20.0, 30.0])
        ok, e = attempt(c.add_user_atlas, es, ws, vacuum=vac, **cond)
        at = c.atlas
    ok2, got = attempt(lambda: nums(at.get_lines()))
    return dict(op="user", entry=entry, vac=vac, w=nums(ws), conv=nums(air(ws, cond)), ok=ok and ok2, got=got if ok2 else [])


def convert_event(ck):
    from rascal.util import vacuum_to_air_wavelength as v2a, air_to_vacuum_wavelength as a2v
    rng = ck.rng
    ws = sorted(rng.uniform(2800, 15000) for _ in range(rng.choice([1, 4, 8])))
    cond = rand_cond(rng)
    form = rng.choice([list, np.array, tuple])
    def go():
        a = v2a(form(ws), **cond)
        return dict(a=nums(a), back=nums(a2v(a, **cond)), single=[num(v2a(w, **cond)) for w in ws])
    ok, v = attempt(go)
    return dict(op="convert", v=nums(ws), ok=ok, **(v if ok else dict(a=[], back=[], single=[])))


def check_A03(ck):
    ck.model("LineListMC")
    n = 200 if ck.quick else 2500
    cases = [[loader_event(ck, 0) for _ in range(4)] for _ in range(n // 4)]
    cases += [[nist_event(ck, e, d=0.0)] for e in ["loader", "atlas", "add", "calibrator"] * (5 if ck.quick else 40)]
    ck.validate("LineListTrace", cases)


def check_A04(ck):
    ck.model("LineListMC")
    n = 200 if ck.quick else 2500
    cases = [[loader_event(ck, 1) for _ in range(4)] for _ in range(n // 4)]
    cases += [[separation_event(ck) for _ in range(5)] for _ in range(n // 4)]
    cases += [[nist_event(ck, e)] for e in ["loader", "atlas", "add", "calibrator"] * (5 if ck.quick else 40)]
    ck.validate("LineListTrace", cases)


def check_A05(ck):
    ck.model("LineListMC")
    n = 6 if ck.quick else 60
    cases = [[nist_event(ck, e)] for e in ["loader", "atlas", "add", "calibrator"] * n]
    cases += [[loader_event(ck, 0, vac=False) for _ in range(3)] for _ in range(4 * n)]
    cases += [[user_event(ck, e) for _ in range(4)] for e in ["atlas", "calibrator"] * n]
    cases += [[convert_event(ck) for _ in range(4)] for _ in range(n)]
    ck.validate("LineListTrace", cases)
