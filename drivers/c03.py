"""C03: backcast, smoothing, variance bounds."""
from drivers.gen import length, check_mode, rng, short, r6, garch_series, as_float

MODES = ["ext", "pure"]
EXTS = ["utils_ext"]
SPEC = "BoundsTrace"
MC = {"quick": [("C03MC", "C03MCq.cfg")], "thorough": [("C03MC", "C03MCt.cfg")]}


def scenarios(seed, tier, mc):
    out = []

    def add(es, init=1.0, lam=0.94):
        out.append(dict(op="backcast", resids=es))
        out.append(dict(op="bounds", resids=es))
        out.append(dict(op="ewma", resids=es, init=init, lam=lam))

    r = rng(seed, "C03")
    for m in mc:
        add(as_float(m["resids"]), r6(r.uniform(0, 3)), r.choice([0.94, 0.5, 0.0, 1.0]))
    for k in range(24 if tier == "quick" else 200):
        n = length(k, r.choice([1, 2, 5, 74, 75, 76, 77, 120, 150] if tier == "quick" else [1, 2, 74, 75, 76, 100, 150, 300, 600]), (300, 1000), 7, 9)
        sd = 10 ** r.uniform(-4, 4)
        es = [sd * x for x in garch_series(r, n)]
        if k % 4 == 1:      # calm then a burst far beyond the window, or the reverse: the global limits bind
            es = [x * (1e-6 if i < n // 2 else 1) for i, x in enumerate(es)]
        if k % 4 == 2:
            es[:n // 2] = [0.0] * (n // 2)
        if k % 6 == 3:
            es = [r6(sd)] * n
        if k % 6 in (0, 4):      # a value beyond all others, of either sign
            es = [min(abs(x), 10) * (1 if k % 6 else -1) * 10 ** r.uniform(-2, 0) for x in es]
            es[r.randrange(max(1, n // 2))] = 10 ** r.uniform(5, 9) * (-1 if k % 6 else 1)
        add(short(es), r6(sd * sd * r.random()), r.choice([0.94, 0.9, r6(r.random())]))
    return out


def execute(case, mode):
    import numpy as np
    import frds.algorithms._garch as g
    check_mode(mode)
    es = np.array(case["resids"], dtype=float)
    if case["op"] == "backcast":
        return dict(value=g.GARCHModel.backcast(es))
    if case["op"] == "bounds":
        return dict(bounds=g.GARCHModel.variance_bounds(es))
    return dict(path=g.GARCHModel.ewma(es, case["init"], case["lam"]))
