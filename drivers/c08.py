"""C08: dynamic conditional correlations."""
from drivers.gen import length, check_mode, rng, short, r6, pair, as_float

MODES = ["ext", "pure"]
EXTS = ["utils_ext"]
SPEC = "DccTrace"
MC = {"quick": [("DccMCq", "DccMCq.cfg")], "thorough": [("DccMCq", "DccMCq.cfg"), ("DccMCq", "DccMCt.cfg")]}


def scenarios(seed, tier, mc):
    r = rng(seed, "C08")
    out = []
    if tier == "quick":
        r.shuffle(mc)
        mc = mc[:2500]
    for m in mc:
        z1, z2 = as_float(m["z1"]), as_float(m["z2"])
        if len({*z1}) < 2 or len({*z2}) < 2:
            continue
        k = r.choice([1.0, 2.0, 0.5])
        out.append(dict(a=float(m["a"]), b=float(m["b"]), e1=[k * v for v in z1], s1=[k * k] * len(z1), e2=z2, s2=[1.0] * len(z2)))
    for k in range(60 if tier == "quick" else 500):
        n = length(k, r.choice([2, 3, 10, 60, 120]))
        rho = r.choice([0.0, 0.5, -0.7, 1.0, -1.0, 0.99])
        x, y = pair(r, n, rho, mu=r.choice([0.0, 0.5, -2.0]))
        if k % 5 == 0:
            y = [-v for v in y[:n // 2]] + y[n // 2:]
        if k % 7 == 0:
            x[0] = y[0] = 0.0
        a = r.choice([0.0, 1.0, r.uniform(0, 0.3), r.random()])
        b = r.choice([0.0, 1 - a, r.random() * (1 - a)])
        s = lambda v: short(r.uniform(0.2, 3) for _ in v)
        a, b = (r6(a), r6(b)) if k % 4 else (0.25, 0.75)
        if a + b > 1:
            b = 1.0 - a
        if k % 10 == 9:      # the recursion holds for others, too
            a, b = r.choice([(.3, .8), (.05, 1.0), (1.2, .1), (.5, .5000001)])
        # residuals far from their variances
        u, v = r.choice([(1, 1), (1, 1), (1e-5, 1), (1e-4, 1e-5), (1e4, 1e-4)])
        if a + b > .99:      # 1 - a - b is only as exact as the rounding of a and b
            u = v = 1
        out.append(dict(a=a, b=b, e1=short(u * q for q in x), s1=s(x), e2=short(v * q for q in y), s2=s(y)))
    for n in [5300] if tier == "quick" else [5300, 12000]:
        x, y = pair(r, n, .4)
        out.append(dict(a=.05, b=.9, e1=short(x), s1=[1.0] * n, e2=short(y), s2=[1.0] * n))
    return out


def execute(case, mode):
    import numpy as np
    import frds.algorithms._garch as g
    import frds.algorithms._mgarch as mg
    check_mode(mode)
    ms = []
    for e, s in ((case["e1"], case["s1"]), (case["e2"], case["s2"])):
        m = g.GARCHModel(np.array(e, dtype=float))
        m.resids, m.sigma2 = np.array(e, dtype=float), np.array(s, dtype=float)
        m.estimation_success = True
        m.parameters = g.GARCHModel.Parameters(0.0, 0.1, 0.1, 0.8, 0.0)
        ms.append(m)
    return dict(rho=mg.GARCHModel_DCC(*ms).conditional_correlations(case["a"], case["b"]))
