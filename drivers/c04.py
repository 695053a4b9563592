"""C04: univariate fits."""
from drivers.gen import length, check_mode, rng, short, garch_series, normals

MODES = ["ext", "pure"]
EXTS = ["utils_ext"]
SPEC = "FitTrace"
MC = {"quick": [("GridMC", "GridMCq.cfg")], "thorough": [("GridMC", "GridMCt.cfg")]}


def series(r, k, n):
    kind = k % 11
    if kind == 0:
        return garch_series(r, n, 0.05, 0.1, 0.0, 0.85, 0.1)
    if kind == 1:
        return [100 * x for x in garch_series(r, n, 0.05, 0.2, 0.0, 0.7, 1.0)]
    if kind == 2:
        return [1e-3 * x for x in garch_series(r, n)]             # omega at its bound
    if kind == 3:
        return normals(r, n, 1.5, -2.0)                           # no ARCH
    if kind == 4:
        return normals(r, n // 2, 0.3) + normals(r, n - n // 2, 4.0)   # regime change: persistence near one
    if kind == 5:
        return garch_series(r, n, 0.1, 0.05, 0.3, 0.6, 0.05)      # leverage
    if kind == 6:
        return garch_series(r, n, 0.02, 0.15, 0.0, 0.84, 0.0, df=3)
    if kind == 7:
        return [50.0 + x for x in garch_series(r, n)]             # large drift
    if kind == 8:
        x = garch_series(r, n)
        x[n // 3] = 25.0
        return x
    if kind == 10:
        return [3e-5 * x for x in garch_series(r, n)]             # not in percent: fits mostly fail
    return garch_series(r, 8 + r.randrange(20), 0.1, 0.3, 0.0, 0.4)


def scenarios(seed, tier, mc):
    r = rng(seed, "C04")
    out = []
    for k in range(22 if tier == "quick" else 132):
        n = length(k, r.choice([60, 100, 180]) if tier == "quick" else r.choice([30, 60, 120, 250, 500]), (400, 1200), 3, 10)
        x = short(series(r, k, n))
        for model in ("garch", "gjr"):
            for zm in (False, True):
                if tier == "quick" and zm and k % 2:
                    continue
                out.append(dict(model=model, zero_mean=zm, returns=x))
    r.shuffle(mc)
    for k, m in enumerate(mc[:30 if tier == "quick" else 600]):
        for model in ("garch", "gjr"):
            out.append(dict(model=model, zero_mean=bool(k % 3), returns=short(float(v) for v in m["returns"])))
    return out


def execute(case, mode):
    import numpy as np
    import frds.algorithms._garch as g
    check_mode(mode)
    cls = dict(garch=g.GARCHModel, gjr=g.GJRGARCHModel)[case["model"]]
    m = cls(np.array(case["returns"], dtype=float), zero_mean=case["zero_mean"])
    ret = m.fit()
    p = m.parameters
    return dict(success=bool(m.estimation_success), returned="same" if repr(ret) == repr(p) else repr(ret),
                params=dict(mu=p.mu, omega=p.omega, alpha=p.alpha, gamma=getattr(p, "gamma", 0), beta=p.beta, ll=p.loglikelihood),
                resids=m.resids if m.estimation_success else [], sigma2=m.sigma2 if m.estimation_success else [])
