"""C20: PIN estimations."""
from drivers.gen import rng, history, run_calls
from drivers.c19 import counts

MODES = ["ext"]
EXTS = []
SPEC = "PinTrace"
MC = {"quick": [("Calls", "CallsQ.cfg")], "thorough": [("Calls", "CallsT.cfg")]}
ASSUMPTIONS = ["the form of Easley et al. is compared with the starting points only for counts it can represent (below 60)"]


def scenarios(seed, tier, mc):
    r = rng(seed, "C20")
    r.shuffle(mc)
    out = []
    for k in range(54 if tier == "quick" else 420):
        n = r.choice([1, 3, 10, 20, 30]) if k % 9 else r.choice([4, 5, 6, 60]) if k != 18 else 250
        lam = r.choice([1, 5, 20, 40, 300, 3000])
        B, S = counts(r, n, lam), counts(r, n, lam * r.choice([1, .2, 3]))
        for t in range(n):
            if r.random() < .4:
                (B if r.random() < .5 else S)[t] += int(lam * 2)
        if k % 12 == 5:
            B = [0] * n
        if k % 12 == 7:
            S = [0] * n
        if k % 12 == 9:
            B, S = [4] * n, [4] * n
        kinds = [dict(method="EHO2010"), dict(method="LK2011"), dict(method=r.choice(["EHO", "", "lk2011", "LK2012"]))]
        small = max(B + S) < 60
        calls = [dict(c, small=small) for c in kinds]
        out.append(dict(B=B, S=S, calls=history(calls, mc[k % len(mc)]["hist"])))
    for n, method in [(560, "LK2011")][:0 if tier == "quick" else 1]:
        # a long sample of few trades: every likelihood is far below zero
        out.append(dict(B=[r.choice([0, 1, 1, 2]) for _ in range(n)], S=[r.choice([0, 1, 1, 2]) for _ in range(n)], calls=history([dict(method=method, small=True)])))
    return out


def execute(case, mode):
    import warnings
    import numpy as np
    from scipy.optimize import minimize
    from frds.measures import PIN
    warnings.simplefilter("ignore")
    B, S = np.array(case["B"]), np.array(case["S"])
    m = PIN(B, S)
    fresh = {}

    def proposals(method):
        """Where a search from each starting point of Yan and Zhang ends."""
        f = getattr(m, "loglikelihood_" + method)
        g = [.1, .3, .5, .7, .9]
        best = None
        for a in g:
            for d in g:
                for c in g:
                    eb = c * np.average(B)
                    mu = (np.average(B) - eb) / (a * (1 - d))
                    x = (a, d, eb, np.average(S) - a * d * mu, mu)
                    if x[3] < 0:
                        continue
                    o = minimize(f, x, method="L-BFGS-B", bounds=[(0, 1), (0, 1), (1e-8, np.inf), (1e-8, np.inf), (1e-8, np.inf)])
                    if o.success and np.isfinite(o.fun) and (best is None or o.fun < best.fun):
                        best = o
        return [] if best is None else [dict(zip(("alpha", "delta", "eb", "es", "mu"), map(float, best.x)))]

    def call(c):
        p = m.estimate(c["method"])
        if c["method"] not in fresh:
            f = PIN(B, S)
            q = f.estimate(c["method"])
            fresh[c["method"]] = dict(ll=q.loglikelihood, pin=q.pin, success=bool(f.estimation_success), proposals=proposals(c["method"]) if c["method"] == "LK2011" or c["small"] else [])
        return dict(p=dict(alpha=p.alpha, delta=p.delta, eb=p.epsilon_b, es=p.epsilon_s, mu=p.mu), ll=p.loglikelihood, pin=p.pin,
                    method=p.method, success=bool(m.estimation_success), kept=p is m.parameters, fresh=fresh[c["method"]])
    grid = getattr(m, "init_params_grid_search", None)
    try:
        starts = [[float(v) for v in x] for x in grid()]
        listed = all(len(x) == 5 for x in starts)
    except TypeError:
        starts, listed = [], False
    return dict(run_calls(case["calls"], call, [B, S]), starts=starts, listed=listed)
