"""C34: estimation when the optimiser fails.  The optimiser is replaced by one that fails on purpose."""
import contextlib
import sys

from drivers.gen import check_mode, garch_series, normals, pair, r6, rng, short

MODES = ["ext", "pure"]
EXTS = ["utils_ext", "measures_ext"]
SPEC = "EstimationTrace"
MC = {"quick": [("Estimation", "EstimationQ1.cfg"), ("Estimation", "EstimationQ2.cfg"), ("Multistart", "MultistartQ.cfg"), ("Multistart", "MultistartT.cfg")],
      "thorough": [("Estimation", "EstimationT1.cfg"), ("Estimation", "EstimationT2.cfg"), ("Multistart", "MultistartQ.cfg"), ("Multistart", "MultistartT.cfg")]}
FAULTS = [("MultistartFaults", "MultistartFaults_keeps.cfg"),
          ("MultistartFaults", "MultistartFaults_latest.cfg"),
          ("EstimationFaults", "EstimationFaults_again.cfg"),
          ("EstimationFaults", "EstimationFaults_parts.cfg")]
ASSUMPTIONS = ["failures are injected where the code runs scipy.optimize.minimize"]


def scenarios(seed, tier, mc):
    r = rng(seed, "C34")
    out = []
    quick = tier == "quick"
    data = [tuple(map(short, pair(r, n, rho, mu=mu))) for n, rho, mu in [(30, .3, 0.0), (40, -.4, .2), (55, .7, 0.0), (35, .5, -.1)][:2 if quick else 4]]
    for k, m in enumerate(r.sample(mc, len(mc))):
        if "pin" in m:
            if quick and k % 5:
                continue
            T = r.choice([8, 20])
            out.append(dict(op="pin", methods=[r.choice(["LK2011", "EHO2010"]) for _ in m["pin"]], T=T,
                            B=[r.choice([15, 25]) + r.randrange(12) + (20 if r.random() < .3 else 0) for _ in range(T)],
                            S=[r.choice([18, 22]) + r.randrange(9) for _ in range(T)], plans=m["pin"]))
            continue
        kind = "ccc" if m["onestep"] else r.choice(["dcc", "gjrdcc"])
        if not quick and k % 3 == 0:
            continue
        x, y = r.choice(data)
        out.append(dict(op="pair", kind=kind, x=x, y=y, ops=m["ops"], plan=m["runs"]))
    # a part, or the second stage, that never succeeds
    for k in range(24 if quick else 120):
        x, y = r.choice(data)
        out.append(dict(op="pair", kind=["ccc", "dcc", "gjrdcc"][k % 3], x=x, y=y,
                        ops=[r.choice(["first", "second", "joint"]) for _ in range(2)] + ["joint"], plan=[],
                        never=[["first"], ["second"], ["first", "second"], ["joint"]][k // 3 % 4]))
    for k in range(32 if quick else 160):
        x, y = r.choice(data)
        plan = [r.choice(["ok", "ok", "fail"]) for _ in range(r.choice([1, 3, 4, 5]))]
        never = [[], [], ["uni"], ["joint"]][k % 4]
        out.append(dict(op="measure", kind=["lrmes", "srisk"][k // 4 % 2], x=[r6(v / 100) for v in x], y=[r6(v / 100) for v in y],
                        plan=plan, never=never, calls=3 if k % 2 else 2))
    odd = [[1.0] * 30, [0.0] * 30, [1e-12] * 30, [1e200 * (-1) ** i for i in range(30)], [0.0] * 29 + [5.0],
           [1.0, -1.0] * 15, [float("nan")] + normals(r, 29), normals(r, 29) + [float("inf")], [1e-150 * (-1) ** i for i in range(30)]]
    for k, s in enumerate(odd):
        for kind in ("garch", "gjr", "ccc", "dcc", "gjrdcc"):
            out.append(dict(op="odd", kind=kind, x=s, y=short(garch_series(r, 30)), swap=k % 2 == 1))
    for k in range(10 if quick else 100):
        B, S = [([0] * 6, [0] * 6), ([0] * 6, [5, 3, 8, 2, 9, 4]), ([3000, 2, 1, 900, 4], [1, 2, 1, 1, 5000]), ([5], [0]),
                ([1e308, 1e308], [1e308, 1.0]), ([float("nan"), 3.0], [2.0, 4.0]), ([7] * 5, [7] * 5), ([-5.0, 3.0], [2.0, 1.0]),
                ([900] * 4, [20000] * 4), ([0, 0, 9], [9, 0, 0])][k % 10]
        out.append(dict(op="pin", methods=[["LK2011", "EHO2010"][k * 7 // 10 % 2]], B=B, S=S, T=len(B), plans=[[["ok", 1]]], odd=True))
    return out


@contextlib.contextmanager
def optimiser(stand_in):
    import scipy.optimize
    real = scipy.optimize.minimize
    places = [(scipy.optimize, "minimize")]
    for name, mod in list(sys.modules.items()):
        if name.startswith("frds") and mod is not None:
            places += [(mod, a) for a, v in list(vars(mod).items()) if v is real]
    try:
        for mod, a in places:
            setattr(mod, a, lambda fun, x0, *p, **k: stand_in(real, fun, x0, *p, **k))
        yield
    finally:
        for mod, a in places:
            setattr(mod, a, real)


class Faults:
    """Runs the real optimiser and then spoils what it reports, as planned."""

    def __init__(self, plan=(), never=(), names=None, joint=0):
        self.plan, self.never, self.names, self.joint = list(plan), never, names or {}, joint
        self.log, self.nested = [], False

    def name(self, x0):
        if len(x0) == self.joint:
            return "joint"
        return self.names.get(tuple(x0), "uni" if self.names.get("uni") else "unknown")

    def __call__(self, real, fun, x0, *p, **k):
        import numpy as np
        x0 = [float(v) for v in x0]
        who, args = self.name(x0), k.get("args", p[0] if p else ())
        opt = real(fun, x0, *p, **k)
        start = np.nan
        if np.isfinite(opt.fun) and who != "joint" or len(x0) > 2 and np.isfinite(opt.fun):
            low = [-np.inf if b[0] is None else b[0] for b in k["bounds"]]
            top = [np.inf if b[1] is None else b[1] for b in k["bounds"]]
            start = float(fun(np.clip(x0, low, top), *args))
        what = self.plan.pop(0) if self.plan and np.isfinite(opt.fun) else "ok"
        if who in self.never or ("uni" in self.never and who != "joint"):
            what = "fail"
        if what == "above":
            worse = np.array(opt.x)
            for i in ([1] if len(x0) < 9 else [1, 5]):
                worse[i] = worse[i] * 30 + 5
            at = float(fun(worse, *args))
            if np.isfinite(at) and at > start + .05 * (1 + abs(start)):
                opt.x, opt.fun, opt.success = worse, at, True
            else:
                what = "fail"
        if what == "fail":
            opt.success = False
        if not opt.success or not np.isfinite(opt.fun):
            end = "fail"
        elif what == "above" or opt.fun > start + 1e-3 * (1 + abs(start)):
            end = "above"
        else:
            end = "unsure" if opt.fun > start else "ok"
        self.log.append(dict(who=who, end=end, injected=what, x=[float(v) for v in opt.x], fun=float(opt.fun), x0=x0))
        return opt


def models(case):
    import numpy as np
    import frds.algorithms._garch as g
    import frds.algorithms._mgarch as mg
    x, y = np.array(case["x"], dtype=float), np.array(case["y"], dtype=float)
    if case.get("swap"):
        x, y = y, x
    kind = case["kind"]
    if kind == "ccc":
        m = mg.GARCHModel_CCC(x, y)
        return dict(first=m.model1, second=m.model2, joint=m)
    U, J = (g.GARCHModel, mg.GARCHModel_DCC) if kind == "dcc" else (g.GJRGARCHModel, mg.GJRGARCHModel_DCC)
    a, b = U(x), U(y)
    return dict(first=a, second=b, joint=J(a, b))


def estimates(o, m, kind):
    p = m.parameters
    if o != "joint":
        v = [p.mu, p.omega, p.alpha] + ([p.gamma] if hasattr(p, "gamma") else []) + [p.beta]
    elif kind == "ccc":
        v = [getattr(p, a + i) for i in "12" for a in ("mu", "omega", "alpha", "beta")] + [p.rho]
    else:
        v = [p.a, p.b]
    return dict(est=bool(m.estimation_success), par=[float(t) for t in v], ll=float(p.loglikelihood))


_fresh = {}


def names(case):
    """Which part an optimiser's starting values belong to; and the estimates without failures."""
    key = repr((case["kind"], case["x"], case["y"]))
    if key in _fresh:
        return _fresh[key]
    ms, starts = models(case), {}
    for o in ("first", "second"):
        f = Faults()
        with optimiser(f):
            ms[o].fit()
        if f.log:
            starts[tuple(f.log[0]["x0"])] = o
    ms["joint"].fit()
    _fresh[key] = starts if len(starts) == 2 else {}, {o: estimates(o, m, case["kind"]) for o, m in ms.items()}
    return _fresh[key]


def do_pair(case):
    starts, fresh = names(case)
    ms = models(case)
    f = Faults(case["plan"], case.get("never", ()), starts, 9 if case["kind"] == "ccc" else 2)
    events = []
    with optimiser(f):
        for op in case["ops"]:
            f.log = []
            exc = ""
            try:
                ms[op].fit()
            except Exception as e:
                exc = type(e).__name__ + " " + str(e)[:60]
            events.append(dict(op=op, exc=exc, runs=f.log, state={o: estimates(o, m, case["kind"]) for o, m in ms.items()}))
    return dict(fresh=fresh, events=events)


def do_measure(case):
    import numpy as np
    from frds.measures import SRISK, LongRunMarginalExpectedShortfall as L
    x, y = np.array(case["x"]), np.array(case["y"])
    args = (3, 20, -.01, 7)
    if case["kind"] == "lrmes":
        obj, call = L(x, y), lambda o: o.estimate(*args)
        want = L(x, y).estimate(*args)
    else:
        mk = lambda: SRISK(np.array([x, y[::-1].copy()]).T.copy(), y, np.array([4.0, 9.0]), np.array([30.0, 70.0]))
        obj, call = mk(), lambda o: o.estimate(.08, *args)
        want = call(mk())
    f = Faults(case["plan"], case["never"], dict(uni=True), 2)
    events = []
    with optimiser(f):
        for _ in range(case["calls"]):
            f.log = []
            try:
                e = dict(exc="", value=np.atleast_1d(call(obj)))
            except Exception as err:
                e = dict(exc=type(err).__name__, value=[])
            e["est"] = bool(obj.dcc_model.estimation_success) if case["kind"] == "lrmes" else False
            e["runs"] = [dict(who=c["who"], end=c["end"]) for c in f.log]
            events.append(e)
    return dict(want=np.atleast_1d(want), events=events)


def do_pin(case):
    import numpy as np
    from frds.measures import PIN
    m = PIN(np.array(case["B"]), np.array(case["S"]))
    state = dict(k=0, plan=[["ok", 1]], log=[])

    def stand_in(real, fun, x0, *p, **k):
        end, level = state["plan"][state["k"] % len(state["plan"])]
        state["k"] += 1
        if state["k"] > 3 * len(state["plan"]) and not case.get("odd"):     # all later starts fail
            from scipy.optimize import OptimizeResult
            state["log"].append(dict(ok=False, fun=-1e9, x=[0.0] * 5))
            return OptimizeResult(success=False, fun=-1e9, x=np.zeros(5))
        # a few iterations of the real optimiser, more at better levels
        opt = real(fun, x0, *p, options=dict(maxiter=15 if case.get("odd") else max(1, 8 - 2 * level)), **k)
        if not case.get("odd"):
            opt.success = end == "ok"
            if level == -1:
                opt.fun = [np.nan, -np.inf, np.inf][state["k"] % 3]
            elif end == "fail":
                opt.fun = opt.fun - 1e3      # a failure looks better than any success
        state["log"].append(dict(ok=bool(opt.success), fun=float(opt.fun), x=[float(v) for v in opt.x]))
        return opt
    events = []
    with optimiser(stand_in):
        for plan, method in zip(case["plans"], case["methods"]):
            state.update(k=0, plan=plan, log=[])
            exc = ""
            try:
                p = m.estimate(method)
            except Exception as e:
                exc, p = type(e).__name__, m.parameters
            events.append(dict(exc=exc, est=bool(m.estimation_success), par=[p.alpha, p.delta, p.epsilon_b, p.epsilon_s, p.mu],
                               ll=p.loglikelihood, pin=p.pin, runs=state["log"]))
    return dict(events=events)


def do_odd(case):
    import numpy as np
    import frds.algorithms._garch as g
    if case["kind"] in ("garch", "gjr"):
        ms = dict(first=(g.GARCHModel if case["kind"] == "garch" else g.GJRGARCHModel)(np.array(case["x"])))
        last = "first"
    else:
        ms, last = models(case), "joint"
    exc = ""
    try:
        ms[last].fit()
    except Exception as e:
        exc = type(e).__name__
    return dict(failed=exc, events=[dict(o=o, **estimates(o, m, case["kind"]), var=m.sigma2 if o != "joint" else [1.0]) for o, m in ms.items()])


def execute(case, mode):
    check_mode(mode)
    return dict(pair=do_pair, measure=do_measure, pin=do_pin, odd=do_odd)[case["op"]](case)
