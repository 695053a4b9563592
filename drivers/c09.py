"""C09: DCC estimations and their likelihood."""
import functools

from drivers.gen import length, check_mode, rng, short, r6, pair, normals, as_float

MODES = ["ext", "pure"]
EXTS = ["utils_ext"]
SPEC = "DccFitTrace"
MC = {"quick": [("DccMCq", "DccMCq.cfg")], "thorough": [("DccMCq", "DccMCq.cfg"), ("DccMCq", "DccMCt.cfg")]}
HOWS = ["arrays", "models", "estimated", "mixed", "reused"]


def scenarios(seed, tier, mc):
    r = rng(seed, "C09")
    out = []
    r.shuffle(mc)
    for m in mc[:150 if tier == "quick" else 4000]:
        z1, z2 = as_float(m["z1"]), as_float(m["z2"])
        if float(m["b"]) == 0 and float(m["a"]) == 1:     # 0/0 at a zero residual
            continue
        out.append(dict(op="ll", a=float(m["a"]), b=float(m["b"]), e1=z1, s1=[1.0] * len(z1), e2=z2, s2=[1.0] * len(z2), l1=-1.5, l2=0.25))
    for k in range(60 if tier == "quick" else 500):
        n = length(k, r.choice([3, 10, 60, 120]), (300, 1000), 7, 30)
        rho = r.choice([0.0, 0.5, -0.7, 0.999, -0.9999])
        x, y = pair(r, n, rho)
        a = r.choice([0.0, r.uniform(0, 0.3), r.random()])
        b = r.choice([0.0, r.random() * (1 - a)])
        s = lambda v: short(r.uniform(0.2, 3) if k % 2 else 1.0 for _ in v)
        out.append(dict(op="ll", a=r6(a), b=r6(b), e1=short(x), s1=s(x), e2=short(y), s2=s(y), l1=r6(-100 * r.random()), l2=r6(-100 * r.random())))
    for k in range(14 if tier == "quick" else 100):
        n = length(k, 0, (400,)) or r.choice([40, 80, 150]) if tier == "quick" else r.choice([30, 60, 120, 250, 400])
        kw = [dict(), dict(alpha=0.05, gamma=0.2, beta=0.7, mu=0.1), dict(df=4), dict(omega=0.5, alpha=0.3, beta=0.3, mu=1.0)][k % 4]
        x, y = pair(r, n, [0.5, -0.6, 0.0, 0.95, 0.999, 0.3][k % 6], **kw)
        if k % 5 == 3:    # correlation changing over time
            h = n // 2
            x, y = x, [0.9 * u + 0.4 * v for u, v in zip(x[:h], y[:h])] + [-0.9 * u + 0.4 * v for u, v in zip(x[h:], y[h:])]
        for model in ("garch", "gjr"):
            how = HOWS[(k + (model == "gjr")) % len(HOWS)]
            zm = [[], [], [2], [1, 2]][k // 2 % 4]      # components that are models of returns without a mean
            out.append(dict(op="fit", model=model, how=how, zero_mean=[] if how == "arrays" else [2] * (2 in zm) if how == "mixed" else zm, r1=short(x), r2=short(y)))
    return out


def execute(case, mode):
    import numpy as np
    import frds.algorithms._garch as g
    import frds.algorithms._mgarch as mg
    check_mode(mode)
    A = lambda v: np.array(v, dtype=float)
    if case["op"] == "ll":
        ms = []
        for e, s, ll in ((case["e1"], case["s1"], case["l1"]), (case["e2"], case["s2"], case["l2"])):
            m = g.GARCHModel(A(e))
            m.resids, m.sigma2 = A(e), A(s)
            m.estimation_success = True
            m.parameters = g.GARCHModel.Parameters(0.0, 0.1, 0.1, 0.8, ll)
            ms.append(m)
        return dict(ll=-mg.GARCHModel_DCC(*ms).loglikelihood_model([case["a"], case["b"]]))
    U, D = dict(garch=(g.GARCHModel, mg.GARCHModel_DCC), gjr=(g.GJRGARCHModel, mg.GJRGARCHModel_DCC))[case["model"]]
    r1, r2 = A(case["r1"]), A(case["r2"])
    U = [None] + [functools.partial(U, zero_mean=i in case["zero_mean"]) for i in (1, 2)]
    if case["how"] == "arrays":
        d = D(r1, r2)
    else:
        m1, m2 = U[1](r1), U[2](r2)
        if case["how"] == "estimated":
            m2.fit(), m1.fit()
        if case["how"] == "reused":
            D(m2, m1).fit()
            D(m1, m2).loglikelihood_model([0.1, 0.2])
        d = D(r1, m2) if case["how"] == "mixed" else D(m1, m2)
    f = d.fit()
    P = lambda p: dict(mu=p.mu, omega=p.omega, alpha=p.alpha, gamma=getattr(p, "gamma", 0), beta=p.beta)
    us = []
    for i, r in ((1, r1), (2, r2)):
        m = U[i](r.copy())
        p = m.fit()
        ok = bool(m.estimation_success)
        us.append(dict(success=ok, p=P(p), ll=p.loglikelihood, resids=m.resids if ok else [], sigma2=m.sigma2 if ok else []))
    q = lambda i: dict(mu=getattr(f, f"mu{i}"), omega=getattr(f, f"omega{i}"), alpha=getattr(f, f"alpha{i}"),
                       gamma=getattr(f, f"gamma{i}", 0), beta=getattr(f, f"beta{i}"))
    return dict(success=bool(d.estimation_success), p1=q(1), p2=q(2), a=f.a, b=f.b, ll=f.loglikelihood, u=us,
                returned="same" if repr(f) == repr(d.parameters) else repr(f))
