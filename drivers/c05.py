"""C05: starting values and the likelihood a fit ends with."""
import math
import drivers.c04 as c04
from drivers.gen import length, check_mode, rng, short, normals, garch_series, r6

MODES = ["ext", "pure"]
EXTS = ["utils_ext"]
SPEC = "GridTrace"
MC = {"quick": [("GridMC", "GridMCq.cfg")], "thorough": [("GridMC", "GridMCt.cfg")]}


def scenarios(seed, tier, mc):
    r = rng(seed, "C05")
    out = []
    for k in range(22 if tier == "quick" else 160):
        n = length(k, r.choice([40, 70, 100]) if tier == "quick" else r.choice([15, 40, 100, 200]), (300,), 9)
        x = short(c04.series(r, k, n))
        if k % 3 == 0:
            x = short([v * 10 ** r.uniform(-2, 2) for v in x])
        for model in ("garch", "gjr"):
            out.append(dict(model=model, zero_mean=bool((k + len(model)) % 2), returns=x))
    # series of the processes at the corners and edges of the grid, where the best candidate then is
    corners = [(a, g, p) for a in (.01, .2) for g in (.01, .2) for p in (.5, .98)]
    for j, (a, g, p) in enumerate(corners * (2 if tier == "quick" else 6)):
        v = r6(10 ** r.uniform(-1.5, 1.5))
        n = r.choice([250, 300])
        out.append(dict(model="gjr", zero_mean=True, returns=short(
            garch_series(r, n, omega=v * (1 - p), alpha=.27, gamma=.35, beta=0 if p < .9 else .55) if a == g == .2 else     # beyond the corner
            garch_series(r, n, omega=v * (1 - p), alpha=a, gamma=g, beta=p - a - g / 2))))
        if j % 2:
            out.append(dict(model="garch", zero_mean=True, returns=short(garch_series(r, n, omega=v * (1 - p), alpha=a, beta=p - a))))
    # years of daily returns, calm or turbulent at the end
    for k in range(1 if tier == "quick" else 3):
        x = normals(r, 1020) + garch_series(r, 230, omega=r.choice([1, 20]), alpha=.6, beta=.2)
        if k % 2:
            x = x[::-1]
        out.append(dict(model="garch" if k < 2 else "gjr", zero_mean=bool(k % 2), returns=short(x)))
    for k in range(8 if tier == "quick" else 60):
        n = r.choice([30, 60])
        x = short(c04.series(r, [0, 1, 3, 5, 6, 8][k % 6], n))
        y = c04.series(r, [0, 1, 3, 5, 6, 8][k % 5], n)
        y = short([0.5 * a + r.choice([-0.6, 0.0, 0.7]) * b for a, b in zip(y, x)])
        out.append(dict(model="dcc", gjr=bool(k % 2), returns=x, returns2=y, zero_mean=False))
    # correlations that last, so that the candidates at the edge of a + b < 1 are the best
    for k in range(4 if tier == "quick" else 30):
        n = [300, 150, 400][k % 3]
        u, v = normals(r, n), normals(r, n)
        y, walk = [], r.gauss(0, 1)
        for a, b in zip(u, v):
            walk += r.gauss(0, .15)
            c = math.tanh(walk)
            y.append(c * a + math.sqrt(1 - c * c) * b)
        out.append(dict(model="dcc", gjr=bool(k % 2), returns=short(u), returns2=short(y), zero_mean=False))
    r.shuffle(mc)
    for k, m in enumerate(mc[:16 if tier == "quick" else 250]):
        for model in ("garch", "gjr"):
            out.append(dict(model=model, zero_mean=bool(k % 3), returns=short(float(v) for v in m["returns"])))
    return out


def execute(case, mode):
    import numpy as np
    import frds.algorithms._garch as g
    import frds.algorithms._mgarch as mg
    check_mode(mode)
    x = np.array(case["returns"], dtype=float)
    if case["model"] == "dcc":
        m = (mg.GJRGARCHModel_DCC if case["gjr"] else mg.GARCHModel_DCC)(x, np.array(case["returns2"], dtype=float))
        m.model1.fit()
        m.model2.fit()
        if not (m.model1.estimation_success and m.model2.estimation_success):
            return dict(exc="SKIP")
        start = m.starting_values()
        m.fit()
        return dict(start=list(start), success=bool(m.estimation_success), ll=m.parameters.loglikelihood,
                    ll1=m.model1.parameters.loglikelihood, ll2=m.model2.parameters.loglikelihood,
                    z=[dict(resids=m.model1.resids, sigma2=m.model1.sigma2), dict(resids=m.model2.resids, sigma2=m.model2.sigma2)])
    cls = dict(garch=g.GARCHModel, gjr=g.GJRGARCHModel)[case["model"]]
    m = cls(x, zero_mean=case["zero_mean"])
    start = m.preparation()
    m.fit()
    return dict(start=list(start), success=bool(m.estimation_success), ll=m.parameters.loglikelihood)
