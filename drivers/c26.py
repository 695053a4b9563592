"""C26: array layouts and types, with and without the extension."""
from drivers.gen import length, check_mode, rng, garch_series, pair

MODES = ["ext", "pure"]
EXTS = ["utils_ext", "measures_ext"]
MERGE = True
SPEC = "LayoutTrace"
MC = {"quick": [("Layout", "LayoutQ.cfg")], "thorough": [("Layout", "LayoutQ.cfg")]}
CASE_TIMEOUT = 300
SLOW = {"fit", "gjr_fit", "zero_mean_fit", "ccc_fit", "dcc_fit", "lrmes"}
PLAIN1 = dict(dtype="f8", steps=[1], order="C", readonly=False, unaligned=False)
PLAIN2 = dict(PLAIN1, steps=[1, 1])
ASSUMPTIONS = ["fits with different layouts are compared by their log-likelihood; types wider than double are not arguments"]


def scenarios(seed, tier, mc):
    r = rng(seed, "C26")
    r.shuffle(mc)
    by = {}
    for m in mc:
        by.setdefault(m["fn"], []).append(m["args"])
    out = []
    for fn in sorted(by):
        slow = fn in SLOW
        ncase = (3 if slow else 16) if tier == "quick" else (25 if slow else 400)
        nvar = 8 if slow else 24
        args = by[fn]
        for k in range(ncase):
            n = length(k, r.choice([2, 3, 9, 40, 80]), (600,)) if not slow else r.choice([200, 300])
            plans = [args[(k * nvar + j) % len(args)] for j in range(nvar)]
            if k % 2:      # several arguments at once
                pool = [a for p in plans for a in p if len(a["steps"]) == 1 and a != PLAIN1]
                plans = [[r.choice(pool) if len(a["steps"]) == 1 and pool and r.random() < .7 else a for a in p] for p in plans]
            plain = [PLAIN1 if len(a["steps"]) == 1 else PLAIN2 for a in args[0]]
            if fn in ("correlations", "dcc_loglikelihood"):      # of the models' own arrays: doubles, laid out as the returns were
                plans = [[dict(a, dtype="f8") for a in p] for p in plans]
            plans = [plain] + plans
            out.append(dict(fn=fn, n=n, calls=plans, data_seed=r.randrange(10 ** 6), params=[r.choice([.05, .5]), r.choice([.05, .2]), r.choice([0, .1]), r.choice([.3, .7])],
                            tol="1E-5" if slow else "1E-9", scale=1))
    return out


def values(case):
    """Integers of at most 7 bits per element, so that every type holds them."""
    import numpy as np
    g = np.random.default_rng(case["data_seed"])
    n, fn = case["n"], case["fn"]
    def resid(k):
        x = np.array(garch_series(rng(case["data_seed"], k), n, alpha=.15, beta=.75, omega=4.0), dtype=float)
        return np.clip(np.round(x * 2), -100, 100)
    var = lambda: g.integers(1, 60, n).astype(float)
    bounds = lambda: np.stack([g.integers(1, 3, n), g.integers(20, 120, n)], 1).astype(float)
    if fn in ("garch_variance", "gjr_variance"):
        return [resid(0), bounds()]
    if fn == "bounds_check":
        return [bounds()[0]]
    if fn == "simulation":
        return [g.integers(-3, 4, (min(n, 30), 2)).astype(float), np.array([[1.0, 0.0], [0.0, 1.0]])]
    if fn == "loglikelihood":
        return [resid(0), var()]
    if fn in ("ccc_loglikelihood", "correlations", "dcc_loglikelihood"):
        return [resid(0), var(), resid(1), var()]
    if fn == "lrmes":
        # raw returns in 1/1024: exact in half precision
        x, y = pair(rng(case["data_seed"], 2), n, .6, alpha=.12, beta=.8, omega=.1)
        return [np.round(np.array(v) * 12) / 1024 for v in (x, y)]
    if fn.endswith("fit") and fn[:3] in ("ccc", "dcc"):
        x, y = pair(rng(case["data_seed"], 3), n, .6, alpha=.12, beta=.8, omega=.1)
        return [np.clip(np.round(np.array(v) * 16), -100, 100) for v in (x, y)]
    return [resid(0)]


def laid_out(x, l):
    """The values of x in an array of the given layout."""
    import numpy as np
    dt = np.dtype("f8").newbyteorder() if l["dtype"] == "swapped" else np.dtype(l["dtype"])
    if dt.kind == "i" and not np.array_equal(x, np.round(x)):
        dt = np.dtype("f4")
    if l["steps"] == [0]:
        if (x != x[0]).any():
            l = dict(l, steps=[1])
        else:
            return np.broadcast_to(np.array(x[0], dtype=dt), x.shape)
    steps = l["steps"]
    shape = [abs(s) * (n - 1) + 1 for s, n in zip(steps, x.shape)]
    if l["order"] == "F":
        shape = shape[::-1]
    size = int(np.prod(shape))
    if l["unaligned"]:
        raw = np.full(size * dt.itemsize + 1, 77, dtype=np.uint8)
        buf = raw[1:].view(dt).reshape(shape)
    else:
        buf = np.full(shape, 99, dtype=dt)
    if l["order"] == "F":
        buf = buf.T
    view = buf[tuple(slice(None, None, s) for s in steps)]
    view[...] = x
    assert np.array_equal(view.astype(float), x), "values not representable"
    if l["readonly"]:
        view.flags.writeable = False
    return view


def compute(fn, a, p):
    import numpy as np
    import frds.algorithms._garch as g
    import frds.algorithms._mgarch as mg
    om, al, ga, be = p
    G, J = g.GARCHModel, g.GJRGARCHModel
    if fn == "ewma":
        return G.ewma(a[0], 2.5)
    if fn == "backcast":
        return [G.backcast(a[0])]
    if fn == "variance_bounds":
        return G.variance_bounds(a[0]).ravel()
    if fn == "bounds_check":
        return [G.bounds_check(v, a[0]) for v in (.5, 2.5, 300.3, float("inf"), np.float64(77.7))]
    if fn == "garch_variance":
        return G.compute_variance([om, al, be], a[0], 1.5, a[1])
    if fn == "gjr_variance":
        return J.compute_variance([om, al, ga, be], a[0], 1.5, a[1])
    if fn == "gjr_forecast":
        return J.forecast_variance(J.Parameters(0.0, om, al, ga, be), a[0], 1.5)
    if fn == "loglikelihood":
        return [G.loglikelihood(a[0], a[1])]
    if fn == "ccc_loglikelihood":
        m = mg.GARCHModel_CCC(np.ones(3), np.ones(3))
        return [m.loglikelihood(a[0], a[1], a[2], a[3], .3)]
    if fn in ("correlations", "dcc_loglikelihood"):
        ms = []
        for e, s in ((a[0], a[1]), (a[2], a[3])):
            m = G(np.ones(3))
            m.resids, m.sigma2, m.estimation_success = e, s, True
            m.parameters = G.Parameters(0.0, .1, .1, .8, 0.0)
            ms.append(m)
        d = mg.GARCHModel_DCC(*ms)
        return d.conditional_correlations(al, be) if fn == "correlations" else [d.loglikelihood_model([al, be])]
    if fn == "simulation":
        import frds.measures._long_run_mes as lm
        par = [.1, om, al, ga, be]
        if lm.USE_CPP_EXTENSION:
            r = lm.ext.simulation(a[0], .9, 4.0, 2.0, -1.0, 1.0, .05, .9, .4, a[1], *par, *par)
        else:
            m = lm.LongRunMarginalExpectedShortfall(np.array([.01, -.02, .03]), np.array([.02, -.01, .01]))
            m.firm_model.parameters = m.market_model.parameters = J.Parameters(*par)
            r = m.simulation(a[0], .9, 4.0, 2.0, -1.0, 1.0, .05, .9, .4, a[1])
        return [float(r[0]), float(r[1])]
    if fn == "lrmes":
        from frds.measures import LongRunMarginalExpectedShortfall as L
        return [L(a[0], a[1]).estimate(h=10, S=200, C=-.02)]
    m = {"fit": lambda: G(a[0]), "gjr_fit": lambda: J(a[0]), "zero_mean_fit": lambda: G(a[0], True),
         "ccc_fit": lambda: mg.GARCHModel_CCC(*a), "dcc_fit": lambda: mg.GARCHModel_DCC(*a)}[fn]()
    return [m.fit().loglikelihood]


def execute(case, mode):
    import numpy as np
    check_mode(mode)
    vals = values(case)
    results, ok = [], True
    for plan in case["calls"]:
        arrays = [laid_out(v, l) for v, l in zip(vals, plan)]
        try:
            r = dict(exc="", value=[float(x) for x in compute(case["fn"], arrays, case["params"])])
        except Exception as e:
            r = dict(exc=type(e).__name__, msg=str(e)[:100])
        results.append(r)
        ok &= all(np.array_equal(a.astype(float), v) for a, v in zip(arrays, vals))
    return dict(results=results, inputs_ok=bool(ok))
