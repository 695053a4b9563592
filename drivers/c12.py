"""C12: SRISK."""
from drivers.gen import check_mode, rng, r6, pair, history, run_calls

MODES = ["ext"]
EXTS = ["utils_ext", "measures_ext"]
SPEC = "SriskTrace"
MC = {"quick": [("SriskMCq", "SriskMCq.cfg")], "thorough": [("SriskMCq", "SriskMCt.cfg")]}


def firm_series(r, k, n, market):
    rho = [0.6, -0.4, 0.9, 0.1][k % 4]
    _, y = pair(r, n, 0.0)
    return [r6(max(-.9, rho * m + 0.015 * v)) for m, v in zip(market, y)]


def scenarios(seed, tier, mc):
    r = rng(seed, "C12")
    out = []
    for m in mc:
        W, D, L = ([float(f[i]) for f in m["sys"]] for i in (1, 0, 2))
        base = dict(k=float(m["k"]), h=5, S=10, C=-.1, seed=1)
        calls = [dict(base, aggregate=False), dict(base, aggregate=True)]
        if len(out) % 3 == 0:
            calls = [calls[1], calls[0], dict(base, k=r.choice([.1, .03]), aggregate=False), calls[1]]
        out.append(dict(op="stand-in", W=W, D=D, L=L, n=4, calls=history(calls)))
    for k in range(150 if tier == "quick" else 3000):
        nf = r.choice([1, 2, 3, 5, 12])
        W = [r6(10 ** r.uniform(-2, 6)) for _ in range(nf)]
        D = [r6(w * 10 ** r.choice([r.uniform(-2, 2), r.uniform(3, 6)])) if r.random() > .1 else 0.0 for w in W]
        L = [r6(r.choice([0.0, 1.0, r.uniform(-.5, 1.2), r.random()])) for _ in W]
        base = dict(k=r.choice([.08, .055, .03, 0.0, 1.0, r6(r.random())]), h=r.choice([1, 22]), S=r.choice([5, 100]), C=r.choice([-.1, -.1, -.02, .05]), seed=r.choice([42, 0]))
        calls = [dict(base, aggregate=r.random() < .5) for _ in range(3)] + [dict(base, k=.02, aggregate=r.random() < .5)]
        if k % 4 == 1 and nf > 1:      # balance sheets in whole numbers
            W, D = [float(1 + round(w)) for w in W], [float(round(d)) for d in D]
        types = [r.choice(["i8", "i4"]) if k % 4 == 1 and nf > 1 and max(v) < 2 ** 31 else "f8" for v in (W, D)]
        out.append(dict(op="stand-in", W=W, D=D, L=L, n=nf + 1, types=types, calls=history(calls)))
    for k in range(10 if tier == "quick" else 80):
        n = r.choice([60, 90])
        m, _ = pair(r, n, 0.0, df=5)
        market = [r6(max(-.9, .01 * v)) for v in m]
        nf = [1, 2, 3][k % 3]
        firms = [firm_series(r, k + i, n, market) for i in range(nf)]
        W = [r6(r.uniform(1, 100)) for _ in range(nf)]
        D = [r6(w * r.choice([.5, 5, 15])) for w in W]
        kinds = [dict(k=r.choice([.08, .05]), aggregate=a, h=r.choice([3, 10]), S=40, C=r.choice([-.01, -.03, .1]), seed=r.choice([42, 7])) for a in (False, True)]
        out.append(dict(op="full", W=W, D=D, firms=firms, market=market, calls=history([kinds[0], kinds[1], kinds[0]])))
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures import SRISK, LongRunMarginalExpectedShortfall as L
    check_mode(mode, "frds.measures.measures_ext")
    nf = len(case["W"])
    if case["op"] == "full":
        X, m = np.array(case["firms"]).T, np.array(case["market"])
    else:
        # returns that identify the firm; LRMES is looked up by them
        m = np.linspace(-.01, .01, case["n"])
        X = np.array([[(i + 1) / 100 + j / 10000 for i in range(nf)] for j in range(case["n"])])
    W, D = (np.array(case[v], dtype=t) for v, t in zip("WD", case.get("types", ["f8", "f8"])))
    if nf == 1:
        s = SRISK(X[:, 0].copy(), m, float(W[0]), float(D[0]))
    else:
        s = SRISK(X, m, W, D)
    singles = [SRISK(X[:, i].copy(), m, float(W[i]), float(D[i])) for i in range(nf)]
    used = []
    if case["op"] == "stand-in":
        init, est = L.__init__, L.estimate

        def fake_init(self, firm_returns, market_returns):
            self.firm = int(round(float(firm_returns[0]) * 100)) - 1

        def fake(self, h=22, S=10_000, C=-0.1, random_seed=42):
            used.append((self.firm, h, S, C, random_seed))
            return case["L"][self.firm]
        L.__init__, L.estimate = fake_init, fake

    def call(c):
        args = (c["k"], c["h"], c["S"], c["C"], c["seed"])
        ls, failed = [], False
        for i in range(nf):
            try:
                ls.append(L(X[:, i].copy(), m).estimate(c["h"], c["S"], c["C"], c["seed"]))
            except RuntimeError:
                ls.append(0.0)
                failed = True
        used.clear()
        try:
            v = s.estimate(*args, aggregate_srisk=c["aggregate"])
        except RuntimeError:
            return dict(exc="RuntimeError", lrmes=ls, lrmes_failed=failed)
        if case["op"] == "stand-in" and not set(used) <= {(i, c["h"], c["S"], c["C"], c["seed"]) for i in range(nf)}:
            raise LookupError(f"LRMES was asked for {used}")
        own = ls if failed else [x.estimate(*args) for x in singles]
        return dict(value=np.atleast_1d(v), scalar=np.ndim(v) == 0, lrmes=ls, own=own, lrmes_failed=failed)
    try:
        return run_calls(case["calls"], call, [X, m, W, D])
    finally:
        if case["op"] == "stand-in":
            L.__init__, L.estimate = init, est
