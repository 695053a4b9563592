"""C27: histories of calls of all measures and algorithms on shared arguments."""
from drivers.gen import check_mode, rng, garch_series, pair

MODES = ["ext"]
EXTS = ["utils_ext", "measures_ext", "iforest_ext"]
SPEC = "PurityTrace"
MC = {"quick": [("Purity", "PurityQ.cfg")], "thorough": [("Purity", "PurityT.cfg")]}
FAULTS = [("Purity", "Purity_generator.cfg"), ("Purity", "Purity_memory.cfg")]
CASE_TIMEOUT = 300
ASSUMPTIONS = ["each operation is called with one set of arguments per history (several data sets are used)"]

# operation -> (arguments it is given, cost class)
CHEAP = ["ar", "cca", "mes", "mes_half", "ses", "ses_tarashev", "kyle", "bls", "bls_array", "z", "quoted", "effective", "realized", "impact",
         "bid_slope", "ask_slope", "bid_diff", "ask_diff", "depth", "ewma", "backcast", "variance_bounds", "bounds_check", "garch_variance",
         "gjr_variance", "gjr_forecast", "garch_loglikelihood", "ccc_loglikelihood", "correlations", "simulation", "pin_ll_eho", "pin_ll_lk",
         "payoff", "smooth", "yield", "merton", "dip", "dip_seeded", "iforest", "iforest_seeded", "single_cohort", "multi_cohort",
         "single_default", "multi_default", "single_solution", "single_lookup", "multi_lookup", "dataset", "bad_mes", "bad_dip", "bad_blocks"]
SLOW = ["garch", "garch_zero_mean", "gjr", "ccc", "dcc", "gjr_dcc", "lrmes", "lrmes_seeded", "srisk", "pin"]
KEEPABLE = {"ar", "mes", "ses", "dip", "dip_seeded", "pin_ll_eho", "pin_ll_lk", "garch", "garch_zero_mean", "gjr", "ccc", "dcc", "gjr_dcc", "lrmes", "lrmes_seeded", "srisk",
            "pin", "correlations", "cca", "mes_half", "ses_tarashev"}
FIT = set(SLOW)


def scenarios(seed, tier, mc):
    r = rng(seed, "C27")
    r.shuffle(mc)
    sets = 4 if tier == "quick" else 12
    out = []

    def history(pattern, ops):
        steps = []
        for s in pattern:
            op = ops[s["op"] - 1]
            kept = s["kept"] and op in KEEPABLE
            steps.append(dict(op=op, kept=kept, before=s["before"], after="none" if kept else s["after"]))
        return dict(steps=steps, data=r.randrange(sets))
    # every operation repeated, with every kind of neighbour
    n = 200 if tier == "quick" else 3000
    for k, m in enumerate(mc[:n]):
        ops = [CHEAP[k % len(CHEAP)]] + r.sample(CHEAP, 2)
        out.append(history(m["steps"], ops))
    long = lambda n, kinds: [dict(op=r.randrange(1, kinds + 1), kept=r.random() < .4, before=r.choice(["none", "none", "npseed", "draw", "refill"]),
                                  after=r.choice(["none", "scribble"])) for _ in range(n)]
    for k in range(60 if tier == "quick" else 800):
        out.append(history(long(14, 8), r.sample(CHEAP, 8)))
    for k in range(24 if tier == "quick" else 300):
        ops = [SLOW[k % len(SLOW)]] + r.sample(SLOW, 1) + r.sample(CHEAP, 3)
        out.append(history(long(7, 5), ops))
    return out


_data = {}
_alone = {}


def make(k):
    import numpy as np
    import pandas as pd
    g = np.random.default_rng(1000 + k)
    r = rng(k, "C27 data")
    D = {}
    w = [1, 3][k % 2]            # sizes
    D["r1"], D["r2"] = (np.array(v) for v in pair(r, 160 * w, .6, alpha=.1, beta=.8, omega=.1))
    D["s1"], D["s2"] = D["r1"] / 100, D["r2"] / 100
    D["R"] = g.normal(0, .02, (4, 60 * w))
    D["two"] = np.stack([D["s1"], D["s2"]], 1)
    D["W"], D["Dbt"] = np.array([100., 120.]), np.array([80., 300.])
    D["ret"], D["vol"] = g.normal(0, 0.01, 60 * w), g.normal(0, 1e5, 60 * w)
    D["roas"] = g.normal(.02, .01, 20 * w)
    D["mesv"], D["lvg"], D["sesv"] = g.uniform(-.1, .2, 9 * w), g.uniform(1, 20, 9 * w), g.uniform(-.5, .5, 9 * w)
    D["B"], D["S"] = g.poisson(30, 12 * w), g.poisson(25, 12 * w)
    D["mid"] = 100 + np.cumsum(g.normal(0, .05, 30 * w))
    D["bid"], D["ask"] = D["mid"] - g.uniform(.01, .05, 30 * w), D["mid"] + g.uniform(.01, .05, 30 * w)
    D["price"], D["later"] = D["mid"] + g.normal(0, .03, 30 * w), np.roll(D["mid"], -3)
    D["volume"], D["dir"] = g.integers(1, 500, 30 * w).astype(float), np.sign(g.normal(0, 1, 30 * w))
    D["bsz"], D["asz"] = g.integers(1, 100, (30 * w, 5)).astype(float), g.integers(1, 100, (30 * w, 5)).astype(float)
    D["bp"] = D["bid"][:, None] - np.arange(5) * .01 - g.uniform(0, .004, (30 * w, 5))
    D["ap"] = D["ask"][:, None] + np.arange(5) * .01 + g.uniform(0, .004, (30 * w, 5))
    D["e1"], D["e2"] = D["r1"] - D["r1"].mean(), D["r2"] - D["r2"].mean()
    D["v1"], D["v2"] = g.uniform(.5, 3, 160 * w), g.uniform(.5, 3, 160 * w)
    D["bounds"] = np.stack([np.full(160 * w, .2), np.full(160 * w, 50.)], 1)
    D["inn"], D["qbar"] = g.normal(0, 1, (22 * w, 2)), np.array([[1., .5], [.5, 1.]])
    D["opt"] = [g.uniform(80, 120, 5 * w), g.uniform(80, 120, 5 * w), np.full(5 * w, .02), g.uniform(.2, 2, 5 * w), g.uniform(.1, .5, 5 * w)]
    D["prob"] = np.array([.02, .05, .1])
    D["corr"] = np.array([[1., .3, .2], [.3, 1., .4], [.2, .4, 1.]])
    D["frame"] = pd.DataFrame(dict(a=g.normal(0, 1, 40 * w), b=g.integers(0, 5, 40 * w), c=g.choice(["x", "yy", "z"], 40 * w), d=g.normal(0, 1, 40 * w), e=np.arange(40 * w) % 3 == 1),
                              index=[f"i{j}" for j in range(40 * w)])
    D["exclude"] = ["d"]
    D["fs"], D["fcol"], D["shocks"], D["long"] = np.array([.2]), np.array([[.2]]), g.normal(0, 1, (14, 3)), g.normal(0, 1, (14, 6))
    D["param"] = [.01, 10, .66, 5, .63, .5, .66, .2, .005, .002, .5]
    D["grids"] = np.meshgrid([.2], [.2, .3], [.01], [.6, .7], indexing="ij")
    D["x"] = g.normal(0, 1, 24 * w)
    D["f"] = g.normal(0, .3, (2, 3))
    return D


def contents(D):
    import copy
    return copy.deepcopy(D)


def refill(D, values):
    """Puts the values into the very arrays, lists and frames of D."""
    import numpy as np
    import pandas as pd
    for key, new in values.items():
        for old, v in zip(D[key], new) if isinstance(D[key], list) and isinstance(D[key][0], np.ndarray) else [(D[key], new)]:
            if isinstance(old, np.ndarray):
                np.copyto(old, v)
            elif isinstance(old, pd.DataFrame):
                for col in v.columns:
                    old[col] = v[col].copy()
            elif isinstance(old, list):
                old[:] = v


def digest(D):
    import hashlib
    import numpy as np
    import pandas as pd

    def one(v):
        if isinstance(v, pd.DataFrame):
            return repr((list(v.columns), list(v.index), v.index.name, [str(t) for t in v.dtypes], v.to_numpy().tolist()))
        if isinstance(v, np.ndarray):
            return repr((v.shape, str(v.dtype), v.flags.writeable)) + v.tobytes().hex()
        if isinstance(v, (list, tuple)):
            return repr([one(x) for x in v])
        return repr(v)
    return hashlib.sha256("|".join(k + one(v) for k, v in sorted(D.items())).encode()).hexdigest()[:20]


def perform(op, D, kept, objects):
    """Calls one operation; returns the object the caller is given."""
    import numpy as np
    import frds.measures as M
    import frds.algorithms as A
    from frds.algorithms import _garch, _mgarch
    from frds.measures import spread, lob_slope, price_impact
    G, J = A.GARCHModel, A.GJRGARCHModel

    def obj(name, build):
        if not kept:
            return build()
        if name not in objects:
            objects[name] = build()
        return objects[name]

    def estimated(name, build, fields):
        m = obj(name, build)
        p = m.fit()
        return [getattr(p, f) for f in fields] + [np.array(m.sigma2)] if hasattr(m, "sigma2") and hasattr(m, "resids") else [getattr(p, f) for f in fields]
    om, al, ga, be = .1, .1, .05, .75
    five = [.1, om, al, ga, be]

    def models():
        out = []
        for e, v in ((D["e1"], D["v1"]), (D["e2"], D["v2"])):
            m = G(np.ones(3))
            m.resids, m.sigma2, m.estimation_success = e, v, True
            m.parameters = G.Parameters(0.0, .1, .1, .8, 0.0)
            out.append(m)
        return out
    if op == "ar": return obj("ar", lambda: M.AbsorptionRatio(D["R"])).estimate(.5)
    if op == "cca": return obj("cca", M.ContingentClaimAnalysis).estimate(100., .4, .02, 80., 1.5, 120.)
    if op == "mes": return obj("mes", lambda: M.MarginalExpectedShortfall(D["s1"], D["s2"])).estimate(.05)
    if op == "mes_half": return obj("mes", lambda: M.MarginalExpectedShortfall(D["s1"], D["s2"])).estimate(.5)
    if op == "ses": return obj("ses", lambda: M.SystemicExpectedShortfall(D["mesv"], D["lvg"], D["sesv"], .05, 4.)).estimate()
    if op == "ses_tarashev":
        try:
            return obj("ses", lambda: M.SystemicExpectedShortfall(D["mesv"], D["lvg"], D["sesv"], .05, 4.)).estimate("nothing")
        except Exception as e:
            raise ValueError(type(e).__name__)
    if op == "kyle": return M.kyle_lambda(D["ret"], D["vol"])
    if op == "bls": return M.blsprice(100., 95., .02, .5, .3, .01)
    if op == "bls_array": return M.blsprice(*D["opt"])
    if op == "z": return M.z_score(.02, .1, D["roas"])
    if op == "quoted": return spread.quoted_spread(D["bid"], D["ask"])
    if op == "effective": return spread.effective_spread(D["price"], D["mid"], D["volume"])
    if op == "realized": return spread.realized_spread(D["price"], D["later"], D["mid"], D["volume"], D["dir"])
    if op == "impact": return price_impact.simple_price_impact(D["price"], D["later"], D["mid"], D["volume"])
    if op == "bid_slope": return lob_slope.DGGW_bid_slope(D["bsz"], D["bp"][:, -1], D["mid"])
    if op == "ask_slope": return lob_slope.DGGW_ask_slope(D["asz"], D["ap"][:, -1], D["mid"])
    if op == "bid_diff": return lob_slope.DGGW_bid_side_slope_difference(D["bsz"], D["bp"])
    if op == "ask_diff": return lob_slope.DGGW_ask_side_slope_difference(D["asz"], D["ap"])
    if op == "depth": return lob_slope.DGGW_scaled_depth_difference(D["bsz"], D["asz"])
    if op == "ewma": return G.ewma(D["e1"], 1.2)
    if op == "backcast": return G.backcast(D["e1"])
    if op == "variance_bounds": return G.variance_bounds(D["e1"])
    if op == "bounds_check": return [G.bounds_check(v, D["bounds"][0]) for v in (.1, 1., 60., float("inf"))]
    if op == "garch_variance": return G.compute_variance([om, al, be], D["e1"], 1.5, D["bounds"])
    if op == "gjr_variance": return J.compute_variance([om, al, ga, be], D["e1"], 1.5, D["bounds"])
    if op == "gjr_forecast": return J.forecast_variance(J.Parameters(0.0, om, al, ga, be), D["e1"], 1.5)
    if op == "garch_loglikelihood": return G.loglikelihood(D["e1"], D["v1"])
    if op == "ccc_loglikelihood": return obj("cccll", lambda: _mgarch.GARCHModel_CCC(np.ones(3), np.ones(3))).loglikelihood(D["e1"], D["v1"], D["e2"], D["v2"], .3)
    if op == "correlations": return obj("corrs", lambda: A.GARCHModel_DCC(*models())).conditional_correlations(.05, .9)
    if op == "simulation":
        import frds.measures._long_run_mes as lm
        return lm.ext.simulation(D["inn"], -.02, 4., 2., -1., 1., .05, .9, .4, D["qbar"], *five, *five)
    if op in ("pin_ll_eho", "pin_ll_lk"):
        m = obj("pinll", lambda: M.PIN(D["B"], D["S"]))
        return (m.loglikelihood_EHO2010 if op == "pin_ll_eho" else m.loglikelihood_LK2011)(np.array([.4, .5, 30., 25., 20.]))
    if op == "dip": return obj("dip", lambda: M.DistressInsurancePremium(D["prob"], D["corr"])).estimate(.15, 0, 400, 30)
    if op == "dip_seeded": return obj("dip", lambda: M.DistressInsurancePremium(D["prob"], D["corr"])).estimate(.1, 9, 300, 20)
    if op == "iforest" or op == "iforest_seeded":
        from frds.algorithms.isolation_forest import anomaly_scores
        return anomaly_scores(D["frame"], 20, 16, D["exclude"]) if op == "iforest" else anomaly_scores(D["frame"], 15, 8, None, 7, "s")
    if op == "dataset":
        from frds.datasets import StockReturns
        return StockReturns.stocks_us.iloc[::400].copy() if not kept else StockReturns.stocks_us
    if op == "bad_mes": return M.MarginalExpectedShortfall(D["s1"], D["s2"]).estimate(1.5)
    if op == "bad_dip": return M.DistressInsurancePremium(D["prob"], D["corr"][:2]).estimate(.1)
    if op in ("payoff", "smooth", "yield", "merton", "single_cohort", "multi_cohort", "single_default", "multi_default", "single_solution",
              "single_lookup", "multi_lookup", "bad_blocks"):
        from frds.measures.modified_merton import (loan_payoff as lp, fftsmooth as fs, find_face_value_indiv as ff, merton_solution as ms,
                                                   mod_merton_computation as mc, mod_single_cohort_computation as sc, mod_single_cohort_solution as so,
                                                   mod_merton_create_lookup as ml, mod_single_merton_create_lookup as sl)
        P = D["param"]
        if op == "payoff": return lp.loan_payoff(.8, D["f"], .1, .5, .2, 5)
        if op == "smooth": return fs.fftsmooth(D["x"], 4)
        if op == "bad_blocks": return fs.fftsmooth(D["x"][:-1], 4)
        if op == "yield": return ff.find_face_value_indiv(.03, .8, .1, .2, 5, .01, .005)
        if op == "merton": return ms.merton_solution((1., .2), .3, .8, .01, .0, 5., .5)
        if op == "single_cohort": return sc.mod_single_cohort_computation(D["fs"], P, 2, 14, D["shocks"])
        if op == "multi_cohort": return mc.mod_merton_computation(D["fcol"], P, 2, 14, D["long"])
        if op == "single_default": return sc.mod_single_cohort_computation(D["fs"], P, 2, 14)
        if op == "multi_default": return mc.mod_merton_computation(D["fs"], P, 2, 14)
        if op == "single_solution": return so.mod_single_cohort_solution([.1, .7], P, 2, 14, .1, .4)
        f = ml.mod_merton_create_lookup if op == "multi_lookup" else sl.mod_single_merton_create_lookup
        xfs, xsig, xr, xF = D["grids"]
        return f(.005, .002, 10, 5, .6, .5, .66, xfs, xr, xF, xsig, 2, 14)
    uni = ("mu", "omega", "alpha", "beta", "loglikelihood")
    if op == "garch": return estimated("garch", lambda: G(D["r1"]), uni)
    if op == "garch_zero_mean": return estimated("garch0", lambda: G(D["r2"], True), uni)
    if op == "gjr": return estimated("gjr", lambda: J(D["r1"]), uni + ("gamma",))
    if op == "ccc": return estimated("ccc", lambda: A.GARCHModel_CCC(D["r1"], D["r2"]), ("rho", "loglikelihood"))
    if op == "dcc": return estimated("dcc", lambda: A.GARCHModel_DCC(G(D["r1"]), G(D["r2"])), ("a", "b", "loglikelihood"))
    if op == "gjr_dcc": return estimated("gjrdcc", lambda: A.GJRGARCHModel_DCC(J(D["r1"]), J(D["r2"])), ("a", "b", "loglikelihood"))
    lr = lambda: M.LRMES(D["s1"], D["s2"])
    if op == "lrmes": return obj("lrmes", lr).estimate(h=10, S=200, C=-.02)
    if op == "lrmes_seeded": return obj("lrmes", lr).estimate(h=5, S=300, C=-.02, random_seed=3)
    if op == "srisk": return obj("srisk", lambda: M.SRISK(D["two"], D["s2"], D["W"], D["Dbt"])).estimate(.08, 5, 100, -.02, 1)
    if op == "pin":
        p = obj("pin", lambda: M.PIN(D["B"], D["S"])).estimate("LK2011")
        return [p.alpha, p.delta, p.epsilon_b, p.epsilon_s, p.mu, p.loglikelihood, p.pin]
    raise LookupError(op)


def numbers(v):
    import numpy as np
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        return v.to_numpy(dtype=float).ravel().tolist()
    if isinstance(v, (list, tuple)):
        return [x for e in v for x in numbers(e)]
    return [float(x) for x in np.ravel(np.asarray(v))]


def scribble(v):
    import numpy as np
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        v.iloc[:, :] = -77.0
        v.values[:] = -78.0
    elif isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
        v[...] = -77.0
    elif isinstance(v, list):
        for e in v:
            scribble(e)
        v[:] = []
    elif isinstance(v, tuple):
        for e in v:
            scribble(e)


def outcome(op, D, kept, objects):
    try:
        v = perform(op, D, kept, objects)
        return v, dict(exc="", value=numbers(v))
    except LookupError:
        raise
    except Exception as e:
        return None, dict(exc=type(e).__name__, value=[])


def forked(work):
    """Runs work in a child of this process, which has not called anything yet."""
    import json
    import os
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(work(), f)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError(f"the process ended with status {status}")
    return json.loads(text)


def execute(case, mode):
    import random
    import numpy as np
    import frds.measures, frds.algorithms, frds.datasets      # noqa: imported, nothing called
    import frds.algorithms.isolation_forest
    check_mode(mode)
    k = case["data"]
    sets = [k, k + 100]
    for j in sets:
        if j not in _data:
            _data[j] = make(j)
        for op in {s["op"] for s in case["steps"]}:
            if (j, op) not in _alone and (j == k or any(s["before"] == "refill" for s in case["steps"])):
                _alone[j, op] = forked(lambda: outcome(op, _data[j], False, {})[1])

    def run():
        objects, steps = {}, []
        np.random.seed(5)
        random.seed(5)
        g = lambda: hash((repr(np.random.get_state()), repr(np.random.get_state()[1].tolist()), random.getstate())) % 10 ** 9
        D = _data[k]
        versions = [contents(_data[j]) for j in sets]
        start = [digest(_data[j]) for j in sets]
        now = 0
        for s in case["steps"]:
            if s["before"] == "npseed":
                np.random.seed(99)
                random.seed(99)
            elif s["before"] == "draw":
                np.random.rand(3)
                random.random()
            elif s["before"] == "refill":
                now = 1 - now
                refill(D, versions[now])
                objects.clear()          # (made from the arrays as they were)
            a = g()
            v, r = outcome(s["op"], D, s["kept"], objects)
            b = g()
            if s["after"] == "scribble":
                scribble(v)
            steps.append(dict(r, gbefore=a, gafter=b, args=digest(D)))
        return dict(args=start, steps=steps)
    res = forked(run)
    return dict(res, alone={op: [_alone[j, op] for j in sets if (j, op) in _alone] for op in {s["op"] for s in case["steps"]}},
                tol={s["op"]: "1E-6" if s["op"] in FIT else "1E-10" for s in case["steps"]})
