"""C14: marginal expected shortfall."""
from drivers.gen import rng, r6, normals, history, run_calls, as_float

MODES = ["ext"]
EXTS = []
SPEC = "MesTrace"
MC = {"quick": [("MesMC", "MesMCq.cfg")], "thorough": [("MesMC", "MesMCt.cfg")]}


def scenarios(seed, tier, mc):
    r = rng(seed, "C14")
    r.shuffle(mc)
    out = []
    for m in mc[:900 if tier == "quick" else 8000]:
        qs = [0.0, 1.0, .125, .25, .375, .5, .625, .75, .875, .05]
        r.shuffle(qs)
        out.append(dict(firm=as_float(m["firm"]), market=as_float(m["market"]), calls=history([dict(q=q) for q in qs[:4]])))
    for k in range(300 if tier == "quick" else 4000):
        n = r.choice([1, 2, 3, 5, 10, 21, 41, 101, 101, 250]) if k % 15 else r.choice([500, 777, 1000, 2600])
        s = r.choice([1e-2, 1.0, 1e6])
        f = [r6(s * v) for v in normals(r, n)]
        m = [r6(.01 * v) for v in normals(r, n)]
        if k % 9 == 2:               # the market in percent, or in other units
            u = r.choice([100.0, 100.0, 1e4, 1e-6])
            m = [r6(u * v) for v in m]
        if k % 3 == 0:
            m = [round(v, 2) for v in m]
        if k % 7 == 0:
            m = [m[0]] * n
        qs = [r.choice([.05, .01, .1, .07, .5, 1.0, 0.0, r.random(), r.randrange(n + 1) / n, -.01, 1.01, -1e-12, 5.0]) for _ in range(5)]
        if k % 4 == 1 and n > 2:     # quantiles next to an observation
            qs[:2] = [float("%.9g" % ((r.randrange(1, n - 1) + d) / (n - 1))) for d in (r.choice([2e-3, 1e-5]), -r.choice([2e-3, 1e-5]))]
        if k % 6 == 5:               # days hardly worse than others
            s = r.choice([1e-9, 1.0])
            m = [s * (r.choice([-1.0, -1.0, .5]) + 1e-6 * r.randrange(4)) for _ in range(n)]
        if k % 8 == 7:               # a firm without a return on some days
            for _ in range(r.choice([1, 1, n // 4 + 1])):
                f[r.randrange(n)] = float("nan")
        out.append(dict(firm=f, market=m, calls=history([dict(q=q) for q in qs + qs[:1]])))
    out.append(dict(firm=[.1, .2], market=[.1], calls=history([dict(q=-1.0)])))
    out.append(dict(firm=[.1], market=[.1, .3, .2], calls=history([dict(q=-1.0)])))
    return out


def execute(case, mode):
    import random
    import numpy as np
    from frds.measures import MarginalExpectedShortfall as M
    f, m = np.array(case["firm"]), np.array(case["market"])
    if len(f) != len(m):     # the call's q is invalid, so that the specification expects a rejection
        try:
            M(f, m).estimate(.5)
        except Exception:
            return dict(run_calls([], None), results=[dict(exc="rejected")], permuted=[0])
        return dict(run_calls([], None), results=[dict(exc="")], permuted=[0])
    e = M(f, m)
    p = list(range(len(f)))
    random.Random(len(f)).shuffle(p)
    perm = M(f[p].copy(), m[p].copy())
    res = run_calls(case["calls"], lambda c: dict(value=float(e.estimate(c["q"]))), [f, m])
    return dict(res, permuted=[perm.estimate(c["q"]) if 0 <= c["q"] <= 1 else 0 for c in case["calls"]])
