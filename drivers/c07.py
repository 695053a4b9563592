"""C07: constant conditional correlations."""
from drivers.gen import length, check_mode, rng, short, r6, pair, as_float, garch_series, normals

MODES = ["ext", "pure"]
EXTS = ["utils_ext"]
SPEC = "CccTrace"
MC = {"quick": [("CccMC", "CccMCq.cfg")]}


def params(r, sd):
    a = r.choice([0.0, r.uniform(0, 0.3)])
    return dict(mu=r6(r.gauss(0, 0.2) * sd), omega=r6(sd * sd * r.choice([1e-5, 0.05, 1])), alpha=r6(a), gamma=0.0, beta=r6(r.uniform(0, 1 - a)))


def scenarios(seed, tier, mc):
    out = [dict(op="ll", **{k: as_float(v) for k, v in m.items()}) for m in mc]
    r = rng(seed, "C07")
    for k in range(60 if tier == "quick" else 400):
        n = length(k, r.choice([1, 2, 10, 60, 120]))
        x, y = pair(r, n, r.uniform(-1, 1))
        sd = 10 ** r.uniform(-3, 3)
        out.append(dict(op="ll", e1=short(sd * v for v in x), e2=short(y), s1=short(sd * sd * r.uniform(0.1, 4) for _ in x),
                        s2=short(r.uniform(0.1, 4) for _ in x), rho=r6(r.choice([0.0, 0.99, -0.99, r.uniform(-0.98, 0.98)]))))
    for k in range(24 if tier == "quick" else 150):
        n = length(k, r.choice([5, 40, 80]), (400,))
        sd = 10 ** r.uniform(-1, 2) if k % 3 else r.choice([1e-4, 3e3, 1e5])
        x, y = pair(r, n, r.uniform(-0.9, 0.9), mu=0.1)
        p1, p2 = params(r, sd), params(r, 1.0)
        if k % 4 == 1:      # variances at their bounds
            p1["omega"], p1["alpha"], p1["beta"] = r6(sd * sd * r.choice([1e-9, 1e9])), r.choice([0.0, 1e-7]), 1e-7
        if k % 4 == 3:
            p2["omega"], p2["alpha"], p2["beta"] = r.choice([1e-9, 1e9]), r.choice([0.0, 1e-7]), 1e-7
        out.append(dict(op="model", r1=short(sd * v for v in x), r2=short(y), p1=p1, p2=p2, rho=r6(r.uniform(-0.95, 0.95))))
    for k in range(10 if tier == "quick" else 60):
        n = length(k, r.choice([20, 50, 90]), (400,))
        kw = [dict(), dict(omega=0.5, alpha=0.3, beta=0.3), dict(df=4), dict(mu=2.0)][k % 4]
        x, y = pair(r, n, [0.5, -0.6, 0.0, 0.95, 0.999][k % 5], **kw)
        if k % 3 == 2:
            x = normals(r, n, 3.0, 1.0)
        out.append(dict(op="fit", r1=short(x), r2=short(y)))
    for k in range(8 if tier == "quick" else 40):
        # one series (or both) with a variance that grows without end: its persistence is at the limit
        n = r.choice([60, 90, 150])
        x, y = pair(r, n, r.uniform(-.8, .8))
        rate = r.uniform(1.5, 4)
        grow = lambda v: [a * 10 ** (rate * i / n - rate / 2) for i, a in enumerate(v)]
        out.append(dict(op="fit", r1=short(grow(x) if k % 4 in (1, 3) else x), r2=short(grow(y) if k % 4 in (0, 2, 3) else y)))
    return out


def execute(case, mode):
    import numpy as np
    import frds.algorithms._mgarch as mg
    check_mode(mode)
    A = lambda v: np.array(v, dtype=float)
    if case["op"] == "ll":
        m = mg.GARCHModel_CCC(np.zeros(3), np.zeros(3))
        e1, s1, e2, s2 = A(case["e1"]), A(case["s1"]), A(case["e2"]), A(case["s2"])
        return dict(ll=m.loglikelihood(e1, s1, e2, s2, case["rho"]), swapped=m.loglikelihood(e2, s2, e1, s1, case["rho"]))
    r1, r2 = A(case["r1"]), A(case["r2"])
    m = mg.GARCHModel_CCC(r1, r2)
    if case["op"] == "model":
        q = lambda p: [p["mu"], p["omega"], p["alpha"], p["beta"]]
        G = mg.GARCHModel
        arg = lambda p, r: (G.backcast(r - p["mu"]), G.variance_bounds(r - p["mu"]))
        (b1, v1), (b2, v2) = arg(case["p1"], r1), arg(case["p2"], r2)
        m2 = mg.GARCHModel_CCC(r2, r1)
        return dict(ll=-m.loglikelihood_model([*q(case["p1"]), *q(case["p2"]), case["rho"]], b1, b2, v1, v2),
                    swapped=-m2.loglikelihood_model([*q(case["p2"]), *q(case["p1"]), case["rho"]], b2, b1, v2, v1))
    f = m.fit()
    u = lambda p: dict(mu=p.mu, omega=p.omega, alpha=p.alpha, gamma=0, beta=p.beta)
    if not m.estimation_success:
        return dict(success=False, ll=f.loglikelihood)
    return dict(success=True, ll=f.loglikelihood, rho=f.rho,
                p1=dict(mu=f.mu1, omega=f.omega1, alpha=f.alpha1, gamma=0, beta=f.beta1),
                p2=dict(mu=f.mu2, omega=f.omega2, alpha=f.alpha2, gamma=0, beta=f.beta2),
                u1=u(m.model1.parameters), u2=u(m.model2.parameters),
                z=[dict(resids=q.resids, sigma2=q.sigma2) for q in (m.model1, m.model2)])
