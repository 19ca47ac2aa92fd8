"""N01: conversions between air and vacuum wavelengths against Edlen.tla."""
import numpy as np
from lib import attempt, num, nums


def conditions(rng):
    """Keyword arguments (possibly only some) and the values they stand for."""
    v = dict(temperature=273.15, pressure=101325, relative_humidity=0)
    kw = {}
    h = rng.choice([0, 0.0, 10, 50.0, 100, rng.uniform(0, 100)])
    t = rng.choice([273.15, 288.15, 293.15, 300, rng.uniform(273.15, 318.0)])
    if h == 0 and rng.random() < 0.3:
        t = rng.uniform(243.0, 273.0)
    p = rng.choice([101325, 101325.0, 70000, 60000.0, rng.uniform(50000, 110000)])
    for n, x in (("temperature", t), ("pressure", p), ("relative_humidity", h)):
        if n == "temperature" or rng.random() < 0.8:
            kw[n] = x
    if rng.random() < 0.1:
        kw = {}
    v.update(kw)
    return kw, v


def event(rng):
    from rascal.util import vacuum_to_air_wavelength as v2a, air_to_vacuum_wavelength as a2v
    kw, v = conditions(rng)
    n = rng.choice([1, 2, 5, 9])
    ws = [rng.choice([3000.0, 5000.0, 6328.0, rng.uniform(2900, 11000), rng.uniform(2900, 25000)]) for _ in range(n)]
    if rng.random() < 0.5:
        ws.sort()
    if rng.random() < 0.1:
        ws = [int(w) for w in ws]
    form = rng.choice([list, tuple, np.array])
    def go():
        order = [kw[k] for k in ("temperature", "pressure", "relative_humidity") if k in kw]
        pos = len(order) == 3 and rng.random() < 0.3
        call = (lambda f, x: f(x, *order)) if pos else (lambda f, x: f(x, **kw))
        a = call(v2a, form(ws))
        return dict(a=nums(a), v=nums(call(a2v, form(ws))), b=nums(call(a2v, a)), one=num(call(v2a, ws[0])))
    ok, r = attempt(go)
    return dict(op="convert", w=nums(ws), T=num(v["temperature"]), p=num(v["pressure"]), h=num(v["relative_humidity"]),
                ok=ok, **(r if ok else dict(a=[], v=[], b=[], one="nan")))


def check_N01(ck):
    ck.model("EdlenMC", rational=True)
    ck.assume.append("vapour pressure over water only (temperatures of at least 0 degrees Celsius unless the air is dry)")
    n = 60 if ck.quick else 1500
    ck.validate("EdlenTrace", [[event(ck.rng) for _ in range(4)] for _ in range(n)])
