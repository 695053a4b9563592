"""C11: LRMES estimations."""
from drivers.gen import length, check_mode, rng, r6, pair

MODES = ["ext", "pure"]
EXTS = ["utils_ext", "measures_ext"]
SPEC = "LrmesTrace"
MC = {"quick": [("Calls", "CallsQ.cfg")], "thorough": [("Calls", "CallsT.cfg")]}


def series(r, k, n):
    x, y = pair(r, n, [0.5, 0.8, -0.3, 0.0][k % 4], alpha=0.05, gamma=0.1, beta=0.8, mu=[0.0, -0.1, 0.05][k % 3], df=5)
    s = r.choice([0.01, 0.02, 0.03])
    f = lambda v: [r6(max(-.9, s * u)) for u in v]
    return f(y), f(x)


def scenarios(seed, tier, mc):
    r = rng(seed, "C11")
    r.shuffle(mc)
    n = 24 if tier == "quick" else 200
    out = []
    for k in range(n):
        f, m = series(r, k, length(k, r.choice([40, 60, 90]), (300, 700), 5, 12))
        if k % 6 == 1:  # a day on which a firm loses nearly everything
            f[r.randrange(len(f))] = -.93 - .06 * r.random()
        kinds = []
        for _ in range(3):
            kinds.append(dict(h=r.choice([1, 2, 5, 10]), S=r.choice([1, 7, 20, 40]), C=r.choice([-.01, -.03, -.1, 0.0, -.6, .02, 1.5]), seed=r.choice([0, 1, 42, 7, 123456])))
        if k % 3 == 0:
            kinds[1] = dict(kinds[0], seed=kinds[0]["seed"] + 1)
        if k % 3 == 1:
            kinds[1] = dict(kinds[0], C=r.choice([-.02, -.05]))
        if k % 12 == 5:
            kinds[0] = dict(kinds[0], h=r.choice([22, 60, 130]), S=r.choice([40, 130, 300]))
        out.append(dict(firm=f, market=m, bisect=r.choice([0, 1, 1, 3]), calls=[dict(kinds[op - 1], before=d) for op, d in mc[k % len(mc)]["hist"]]))
    return out


def execute(case, mode):
    import random
    import numpy as np
    from frds.measures import LongRunMarginalExpectedShortfall
    check_mode(mode, "frds.measures.measures_ext")
    f, m = np.array(case["firm"]), np.array(case["market"])
    f0, m0 = f.copy(), m.copy()
    e = LongRunMarginalExpectedShortfall(f, m)
    results, draws, ok = [], [], True
    np.random.seed(5)
    for c in case["calls"]:
        if c["before"] == "npseed":
            np.random.seed(99)
            random.seed(99)
        if c["before"] == "draw":
            np.random.rand(3)
            random.random()
        g = (repr(np.random.get_state()), random.getstate())
        try:
            results.append(e.estimate(c["h"], c["S"], c["C"], c["seed"]))
        except RuntimeError:
            if e.dcc_model.estimation_success:
                raise
            return dict(fitted=False, results="RuntimeError")
        ok &= g == (repr(np.random.get_state()), random.getstate())
        q = np.random.default_rng(c["seed"])
        draws.append([q.choice(len(f), size=c["h"], replace=True).tolist() for _ in range(c["S"])])
    if not e.dcc_model.estimation_success:
        return dict(fitted=False, results="returned")
    # two thresholds between which the market's return along a path lies, next to each other
    extra = []
    if case["bisect"]:
        c = dict(case["calls"][0], h=min(10, case["calls"][0]["h"]), S=case["bisect"], before="none")
        at = lambda C: e.estimate(c["h"], c["S"], C, c["seed"])
        lo, hi = -.9999, .9
        rlo, rhi = at(lo), at(hi)
        if rlo != rhi:
            while hi - lo > 1e-8:
                mid = (lo + hi) / 2
                x = at(mid)
                lo, rlo, hi, rhi = (mid, x, hi, rhi) if x == rlo else (lo, rlo, mid, x)
            q = np.random.default_rng(c["seed"])
            d = [q.choice(len(f), size=c["h"], replace=True).tolist() for _ in range(c["S"])]
            for C, x in ((lo, rlo), (hi, rhi)):
                extra.append(dict(c, C=C))
                results.append(x)
                draws.append(d)
    P = lambda p: dict(mu=p.mu, omega=p.omega, alpha=p.alpha, gamma=p.gamma, beta=p.beta)
    fm, mm, d = e.firm_model, e.market_model, e.dcc_model.parameters
    return dict(fitted=True, extra=extra, results=results, draws=draws, pf=P(fm.parameters), pm=P(mm.parameters), a=d.a, b=d.b,
                e=[fm.resids, mm.resids], v=[fm.sigma2, mm.sigma2], global_ok=bool(ok),
                inputs_ok=bool(np.array_equal(f, f0) and np.array_equal(m, m0)))
