"""C13: absorption ratio."""
from drivers.gen import length, rng, r6, normals, history, run_calls, as_float

MODES = ["ext"]
EXTS = []
SPEC = "AbsorptionTrace"
MC = {"quick": [("AbsorptionMC", "AbsorptionMCq.cfg")], "thorough": [("AbsorptionMC", "AbsorptionMCt.cfg")]}
ASSUMPTIONS = ["asset return matrices have at least two assets and two days and some variation"]


def scenarios(seed, tier, mc):
    r = rng(seed, "C13")
    r.shuffle(mc)
    out = []
    for m in mc[:250 if tier == "quick" else 3000]:
        f = [0.0, 1.0, .25, .5, .75]
        r.shuffle(f)
        out.append(dict(x=[as_float(row) for row in m["x"]], calls=history([dict(fraction=v) for v in f[:3]])))
    for k in range(250 if tier == "quick" else 3000):
        n, t = r.choice([2, 3, 4, 5, 6, 7, 8, 10] if tier == "quick" else [2, 3, 5, 6, 8, 10, 12, 15, 20]), length(k, r.choice([2, 3, 5, 12, 30]), (300, 1000))
        n = length(k, n, (20, 33), 11)
        sd = r.choice([1.0, 1e-6, 1e-3, 1e4])
        common = normals(r, t)
        x = []
        for i in range(n):
            beta = r.choice([0.0, 1.0, -2.0, .3])
            own = r.choice([0.0, 1.0, .1])
            s = sd * (10 ** r.uniform(-4, 4) if k % 5 == 0 else 1)
            mu = r.choice([0.0, 0.0, 5.0])
            x.append([r6(s * (mu + beta * c + own * e)) for c, e in zip(common, normals(r, t))])
        if k % 4 == 0:
            x[-1] = list(x[0])
        if k % 6 == 1:
            x[-1] = [0.0] * t
        if max(max(row) - min(row) for row in x) == 0:
            continue
        fr = [r.choice([0.0, 1.0, .5, .25, .2, r.randrange(2 * n + 1) / (2 * n), (2 * r.randrange(n) + 1) / (2 * n), r.random(), .15, .35, .45]) for _ in range(4)]
        out.append(dict(x=x, calls=history([dict(fraction=f) for f in fr + fr[:1]])))
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures import AbsorptionRatio
    x = np.array(case["x"])
    n = len(x)
    a = AbsorptionRatio(x)
    c = np.cov(x)
    l, v = np.linalg.eigh(c)

    def call(q):
        val = a.estimate(q["fraction"])
        return dict(value=float(np.real(val)), real=bool(np.isrealobj(val)))
    res = run_calls(case["calls"], call, [x])
    perm = AbsorptionRatio(x[::-1].copy())
    scaled = AbsorptionRatio(x * 4.0)
    f = lambda o: [float(np.real(o.estimate(q["fraction"]))) for q in case["calls"]]
    return dict(res, l=l, v=v.T, permuted=f(perm), scaled=f(scaled))
