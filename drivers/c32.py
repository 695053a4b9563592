"""C32: forms of call."""
import ast
from drivers.gen import check_mode, rng

MODES = ["ext"]
EXTS = ["utils_ext", "measures_ext", "iforest_ext"]
SPEC = "CallFormsTrace"
MC = {"quick": [("CallForms", "CallFormsq.cfg")], "thorough": [("CallForms", "CallFormst.cfg")]}
CASE_TIMEOUT = 600
ENV = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
ASSUMPTIONS = ["SRISK is called with a stand-in for LRMES, which C11 and C12 cover",
               "an omitted default counts as checked where the evidence lists the parameter as one that matters"]
LAYOUTS = ["plain", "plain", "readonly", "strided", "reversed", "fortran", "int"]
FITS = {"new GARCHModel", "new GJRGARCHModel", "new GARCHModel_CCC", "new GARCHModel_DCC", "new GJRGARCHModel_DCC", "PIN.estimate",
        "LongRunMarginalExpectedShortfall.estimate", "new LongRunMarginalExpectedShortfall", "ContingentClaimAnalysis.estimate"}
# seconds a call takes decide how many are made
SLOW = {"new GARCHModel_DCC": 4, "new GJRGARCHModel_DCC": 3, "new GARCHModel_CCC": 4, "PIN.estimate": 5, "LongRunMarginalExpectedShortfall.estimate": 36,
        "new LongRunMarginalExpectedShortfall": 3, "DistressInsurancePremium.estimate": 40, "anomaly_scores": 120}


def scenarios(seed, tier, mc):
    r = rng(seed, "C32")
    forms = {}
    for m in mc:
        forms.setdefault(m["f"], []).append(m)
    out = []
    for f in sorted(forms):
        every = forms[f]
        r.shuffle(every)
        n = (SLOW.get(f, 300) if tier == "quick" else 8 * SLOW.get(f, 300))
        some = every[:n]
        if f == "DistressInsurancePremium.estimate":
            # the documented numbers of simulations take long: few calls use them
            cheap = [m for m in every if m["all"][2:] == ["300", "20"]]
            # those that leave them out
            some = cheap[:n] + [m for m in every if m["all"][2:] == ["500_000", "20"] and "n_simulated_returns" not in m["kw"] and len(m["pos"]) < 3][:3]
            some += [m for m in every if m["all"][2:] == ["300", "1_000"] and "n_simulations" not in m["kw"] and len(m["pos"]) < 4][:3]
        size = {True: 2, False: 60}[f in FITS] if f != "LongRunMarginalExpectedShortfall.estimate" else 12
        # forms with the same meaning next to each other
        some.sort(key=lambda m: repr(m["all"]))
        for k in range(0, len(some), size):
            calls, said = [], set()
            for m in some[k:k + size]:
                lay = r.choice(LAYOUTS) if tier == "quick" else m["layout"]
                calls.append(dict(pos=m["pos"], kw=m["kw"] or {}, layout=lay))
                if repr(m["all"]) not in said:
                    said.add(repr(m["all"]))
                    calls.append(dict(pos=m["all"], kw={}, layout="plain"))
            r.shuffle(calls)
            out.append(dict(f=f, calls=calls, data=r.randrange(3), tol="1E-5" if f in FITS else "1E-10"))
    return out


def lay_out(v, layout):
    import numpy as np
    if not isinstance(v, np.ndarray) or v.ndim == 0:
        return v
    if layout == "readonly":
        w = v.copy()
        w.setflags(write=False)
        return w
    if layout == "strided":
        return np.repeat(v, 2, axis=-1)[..., ::2]
    if layout == "reversed":
        return v[::-1].copy()[::-1]
    if layout == "fortran":
        return np.asfortranarray(v)
    if layout == "int" and np.all(v == np.floor(v)):
        return v.astype(np.int64)
    return v.copy()


def values(D):
    """The data of the required parameters."""
    import numpy as np
    o = [float(x[0]) for x in D["opt"]]
    fs = dict(ask_size="asz", bid_size="bsz", bid_price="bp", ask_price="ap", mid_point="mid")
    A = {
        "blsprice": dict(S=o[0], K=o[1], r=o[2], T=o[3], sigma=o[4]),
        "kyle_lambda": dict(returns=D["ret"], signed_dollar_volume=D["vol"]),
        "z_score": dict(roa=.02, capital_ratio=.1, past_roas=D["roas"]),
        "quoted_spread": dict(bid=D["bid"], ask=D["ask"]),
        "effective_spread": dict(price=D["price"], midpoint=D["mid"], volume=D["volume"]),
        "realized_spread": dict(price=D["price"], midpoint_later=D["later"], midpoint=D["mid"], volume=D["volume"]),
        "DGGW_ask_slope": dict(ask_size=D["asz"], ask_price_highest_level=D["ap"][:, -1], mid_point=D["mid"]),
        "DGGW_bid_slope": dict(bid_size=D["bsz"], bid_price_highest_level=D["bp"][:, -1], mid_point=D["mid"]),
        "DGGW_bid_side_slope_difference": dict(bid_size=D["bsz"], bid_price=D["bp"]),
        "DGGW_ask_side_slope_difference": dict(ask_size=D["asz"], ask_price=D["ap"]),
        "DGGW_scaled_depth_difference": dict(bid_size=D["bsz"], ask_size=D["asz"]),
        "new AbsorptionRatio": dict(asset_returns=D["R"]),
        "new MarginalExpectedShortfall": dict(firm_returns=D["s1"], market_returns=D["s2"]),
        "new SystemicExpectedShortfall": dict(mes_training_sample=D["mesv"], lvg_training_sample=D["lvg"], ses_training_sample=D["sesv"], mes_firm=.05, lvg_firm=4.),
        "new DistressInsurancePremium": dict(default_prob=D["prob"], correlations=D["corr"]),
        "ContingentClaimAnalysis.estimate": dict(equity=100., volatility=.4, risk_free_rate=.02, default_barrier=80., time_to_maturity=1.5, cds_spread=120.),
        "new LongRunMarginalExpectedShortfall": dict(firm_returns=D["s1"], market_returns=D["s2"]),
        "new SRISK": dict(firm_returns=D["two"], market_returns=D["s2"], W=D["W"], D=D["Dbt"]),
        "new PIN": dict(B=D["B"].astype(float), S=D["S"].astype(float)),
        "new GARCHModel": dict(returns=D["r1"] + .5),
        "new GJRGARCHModel": dict(returns=D["r1"] + .5),
        "GARCHModel.loglikelihood_model": dict(params=[.3, .1, .1, .8], backcast=1.5, var_bounds=D["bounds"]),
        "GARCHModel.loglikelihood": dict(resids=D["e1"], sigma2=D["v1"]),
        "GARCHModel.compute_variance": dict(params=[.1, .1, .8], resids=D["e1"], backcast=1.5, var_bounds=D["bounds"]),
        "GJRGARCHModel.compute_variance": dict(params=[.1, .1, .05, .75], resids=D["e1"], backcast=1.5, var_bounds=D["bounds"]),
        "GJRGARCHModel.forecast_variance": dict(params=None, resids=D["e1"], initial_variance=1.5),
        "GARCHModel.variance_bounds": dict(resids=D["e1"]),
        "GARCHModel.bounds_check": dict(sigma2=60., var_bounds=D["bounds"][0]),
        "GARCHModel.backcast": dict(resids=D["e1"]),
        "GARCHModel.ewma": dict(resids=D["e1"], initial_value=1.2),
        "GARCHModel_CCC.loglikelihood": dict(resids1=D["e1"], sigma2_1=D["v1"], resids2=D["e2"], sigma2_2=D["v2"], rho=.3),
        "GARCHModel_DCC.conditional_correlations": dict(a=.05, b=.9),
        "anomaly_scores": dict(data=D["many"]),
        "mod_merton_computation": dict(fs=D["fcol"], param=D["param"], N=2, Nsim2=14),
        "mod_single_cohort_computation": dict(fs=D["fs"], param=D["param"], N=2, Nsim2=14),
        "mod_single_cohort_solution": dict(b=[.1, .7], param=D["param"], N=2, Nsim2=14, E=.1, sigE=.4),
        "loan_payoff": dict(F=.8, f=D["f"], ival=.1, rho=.5, sig=.2, T=5),
        "find_face_value_indiv": dict(mu=.03, F=.8, ival=.1, sig=.2, T=5, r=.01, d=.005),
        "merton_solution": dict(x=(1., .2), E=.3, D=.8, r=.01, d=.002, T=5., sigE=.5)}
    A["simple_price_impact"] = A["realized_spread"]
    for k in ("new GARCHModel_CCC", "new GARCHModel_DCC", "new GJRGARCHModel_DCC"):
        A[k] = dict(returns1=D["r1"], returns2=D["r2"])
    return A


def target(f, D, A):
    """The callable, and the object whose results it gives."""
    import importlib
    import numpy as np
    import frds.measures as M
    import frds.algorithms as G
    from frds.measures import spread, lob_slope, price_impact
    from frds.algorithms.isolation_forest import anomaly_scores
    if f == "anomaly_scores":
        return anomaly_scores
    for mod in (M, spread, lob_slope, price_impact):
        if "." not in f and " " not in f and callable(getattr(mod, f, None)):
            return getattr(mod, f)
    if f.startswith(("mod_", "loan_", "find_", "merton_")):
        return getattr(importlib.import_module("frds.measures.modified_merton." + f), f)
    build = lambda name: getattr(M, name, None) or getattr(G, name)
    data = lambda name: [v.copy() if isinstance(v, np.ndarray) else v for v in A["new " + name].values()]
    if f.startswith("new "):
        name = f[4:]
        then = dict(
            AbsorptionRatio=lambda o: o.estimate(.5), MarginalExpectedShortfall=lambda o: o.estimate(.1), SystemicExpectedShortfall=lambda o: o.estimate(),
            DistressInsurancePremium=lambda o: o.estimate(.15, 0, 300, 20), LongRunMarginalExpectedShortfall=lambda o: o.estimate(5, 300, -.02, 3),
            SRISK=lambda o: o.estimate(.08, 5, 300, -.02, 3), PIN=lambda o: [o.loglikelihood_EHO2010(np.array([.4, .5, 30., 25., 20.])), o.loglikelihood_LK2011(np.array([.3, .5, 30., 22., 20.]))])
        fit = lambda o: [v for _, v in sorted(vars(o.fit()).items())]
        return lambda *a, **k: then.get(name, fit)(build(name)(*a, **k))
    name, method = f.split(".")
    if name == "ContingentClaimAnalysis":
        return M.ContingentClaimAnalysis().estimate
    if name in ("GARCHModel", "GJRGARCHModel"):
        m = build(name)(D["r1"] + .5)
        if method == "loglikelihood_model":
            m.fit()
        return getattr(m, method)
    if name == "GARCHModel_CCC":
        return G.GARCHModel_CCC(D["r1"], D["r2"]).loglikelihood
    if name == "GARCHModel_DCC":
        m = []
        for e, v in ((D["e1"], D["v1"]), (D["e2"], D["v2"])):
            g = G.GARCHModel(np.ones(3))
            g.resids, g.sigma2, g.estimation_success = e, v, True
            g.parameters = G.GARCHModel.Parameters(0.0, .1, .1, .8, 0.0)
            m.append(g)
        return G.GARCHModel_DCC(*m).conditional_correlations
    return lambda *a, **k: getattr(build(name)(*data(name)), method)(*a, **k)


_made = {}


def make(k):
    import numpy as np
    import pandas as pd
    from drivers import c27
    if k not in _made:
        D = c27.make(20 + k)
        g = np.random.default_rng(k)
        # more rows than the documented tree size
        D["many"] = pd.DataFrame(dict(a=g.normal(0, 1, 400), b=g.integers(0, 5, 400), c=g.choice(["x", "yy", "z"], 400), d=g.normal(0, 1, 400)))
        D["R"] = g.normal(0, .02, (43, 90)) + g.normal(0, .02, 90)
        # returns for which the documented decline of the market happens
        D["s1"], D["s2"] = 4 * D["s1"], 4 * D["s2"]
        D["two"] = np.stack([D["s1"], D["s2"]], 1)
        _made[k] = D
    return _made[k]


def flatten(v):
    import dataclasses
    import numpy as np
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        return v.to_numpy(dtype=float).ravel().tolist(), repr((list(v.columns), list(v.index)))
    if dataclasses.is_dataclass(v):
        v = [x for _, x in sorted(vars(v).items())]
    if isinstance(v, (list, tuple)):
        parts = [flatten(x) for x in v]
        return [x for p in parts for x in p[0]], "".join(p[1] for p in parts)
    return [float(x) for x in np.ravel(np.asarray(v))], ""


def execute(case, mode):
    import numpy as np
    import frds.measures as M
    import frds.algorithms as G
    check_mode(mode)
    f = case["f"]
    D = make(case["data"])
    A = values(D)
    A["GJRGARCHModel.forecast_variance"]["params"] = G.GJRGARCHModel.Parameters(0.0, .1, .1, .05, .75)
    names = list(A.get(f, {}))

    def fake(self, h=22, S=10_000, C=-0.1, random_seed=42):
        return float(np.mean(self.firm_returns[:7])) + h / 100 + S / 1e5 - C + random_seed / 1000
    L = M.LongRunMarginalExpectedShortfall
    real = L.estimate
    if "SRISK" in f:
        L.estimate = fake
    try:
        results = []
        for c in case["calls"]:
            def value(name, text):
                v = A[f][name] if text == "@" else D[text[1:]] if text.startswith("@") else ast.literal_eval(text)
                return lay_out(v, c["layout"])
            pos = [value(names[k] if k < len(names) else None, t) for k, t in enumerate(c["pos"])]
            kw = {n: value(n, t) for n, t in c["kw"].items()}
            try:
                v, text = flatten(target(f, D, A)(*pos, **kw))
                results.append(dict(exc="", text=text, value=v))
            except Exception as e:
                results.append(dict(exc=type(e).__name__, text="", value=[]))
        return dict(results=results)
    finally:
        L.estimate = real
