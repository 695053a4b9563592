"""C01: GARCH(1,1) conditional variances."""
import math

from drivers.gen import length, check_mode, rng, short, r6, garch_series, as_float

MODES = ["ext", "pure"]
EXTS = ["utils_ext"]
SPEC = "VarTrace"
MC = {"quick": [("C01MCq", "C01MCq.cfg")], "thorough": [("C01MCt", "C01MCt.cfg")]}
MODEL = "garch"
GAMMA = False
ASSUMPTIONS = ["variances are compared period by period with the recursion applied to the observed previous variance, to 1e-9 of the magnitude of the terms"]


def bounds_for(r, n, kind, scale):
    if kind == "loose":
        return [[scale * 1e-8, scale * 1e8]] * n
    if kind == "tight":
        return [[scale * r.uniform(0.5, 1.0), scale * r.uniform(1.0, 1.5)] for _ in range(n)]
    if kind == "low":
        return [[scale * r.uniform(2, 5), scale * 1e6] for _ in range(n)]
    if kind == "high":
        return [[scale * 1e-6, scale * r.uniform(0.05, 0.3)] for _ in range(n)]
    return [[scale * (0.1 if t % 3 else 3), scale * (0.2 if t % 2 else 50)] if t % 3 else [scale * 3, scale * 50] for t in range(n)]


def scenarios(seed, tier, mc):
    out = [dict(kind="path", omega=as_float(m["omega"]), alpha=as_float(m["alpha"]), gamma=as_float(m["gamma"]), beta=as_float(m["beta"]),
                backcast=as_float(m["backcast"]), resids=as_float(m["resids"]), bounds=as_float(m["bounds"])) for m in mc]
    r = rng(seed, "C01", MODEL)
    for k in range(90 if tier == "quick" else 700):
        n = length(k, r.choice([1, 2, 3, 7, 20, 60, 120] if tier == "quick" else [1, 2, 3, 5, 30, 80, 160, 400]))
        sd = 10 ** r.uniform(-3, 3)
        es = [sd * x for x in garch_series(r, n)]
        if k % 5 == 0:
            es[r.randrange(n)] = 0.0
        if k % 7 == 0:
            es = [abs(x) for x in es]
        if k % 11 == 0:
            es = [-abs(x) for x in es]
        if k % 13 == 0:
            es[r.randrange(n)] *= 1e4
        if k % 17 == 0:
            es[r.randrange(n)] = r.choice([-1, 1]) * r.choice([1e200, 3e152, 1e153])
        p = r.choice([0, 0, 1, 2])
        alpha = r.uniform(0.01, 0.3) if p < 2 else 1.0
        gamma = r.choice([0.0, r.uniform(0, 0.4)]) if GAMMA else 0.0
        if k % 17 == 0 and gamma == 0.0 and GAMMA:
            gamma = 0.2
        beta = max(0.0, r.uniform(0.3, 0.98) - alpha) if p == 0 else r.choice([0.0, 1.0, r.random()])
        out.append(dict(kind="path", omega=r6(sd * sd * r.choice([1e-6, 0.02, 0.3, 2])), alpha=r6(alpha), gamma=r6(gamma), beta=r6(beta),
                        resids=short(es), backcast=r6(sd * sd * r.choice([0, 0.1, 1, 30])),
                        bounds=[[r6(a), r6(b)] for a, b in bounds_for(r, n, r.choice(["loose", "loose", "tight", "low", "high", "mixed"]), sd * sd)]))
    for c in out:      # parameters as a list or an array, whole numbers as int or float
        c["held"] = r.choice(["floats", "ints", "array"])
    # series longer than short counters: a pattern repeated, of which windows are recorded
    for n in (33000, 70001) if tier == "quick" else (33000, 70001, 140000):
        m = r.choice([7, 12])
        bounds = [[r6(a), r6(b)] for a, b in bounds_for(r, m, r.choice(["loose", "mixed"]), 1.0)]
        at = [v for v in (0, 254, 32765, 65533, 131070, n - 4) if v + 4 <= n]
        out.append(dict(kind="long", omega=.1, alpha=.12, gamma=.1 if GAMMA else 0.0, beta=.8, resids=short(garch_series(r, m)), backcast=1.5, bounds=bounds, n=n, at=at))
    return out


def execute(case, mode):
    import numpy as np
    import frds.algorithms._garch as g
    check_mode(mode)
    cls = {"garch": g.GARCHModel, "gjr": g.GJRGARCHModel}[MODEL]
    p = [case["omega"], case["alpha"], case["beta"]] if MODEL == "garch" else [case["omega"], case["alpha"], case["gamma"], case["beta"]]
    held = case.get("held")
    if held == "ints":
        p = [int(v) if v == int(v) else v for v in p]
    if held == "array":
        p = np.array(p)
    e, b = np.array(case["resids"], dtype=float), np.array(case["bounds"], dtype=float)
    if case["kind"] == "long":
        t = np.arange(case["n"]) % len(e)
        s = cls.compute_variance(p, e[t], case["backcast"], b[t])
        return dict(sigma2=[len(s)], windows=[[float(v) for v in s[a:a + 4]] for a in case["at"]])
    s = cls.compute_variance(p, e, case["backcast"], b)
    return dict(sigma2=s)
