"""C33: the type of the numbers."""
import math
from drivers.gen import history, length, rng, r6, run_calls

MODES = ["ext"]
EXTS = ["iforest_ext"]
SPEC = "NumberTypeTrace"
MC = {"quick": [("Machine", "MachineQ.cfg")], "thorough": [("Machine", "MachineT.cfg")]}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["numbers are whole and below 2**52, so that doubles hold them; single precision is held to single precision"]
INTS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]
# where the measures add, subtract, multiply or negate elements of their arguments
SITES = {"quoted": [("sum", "bid", "ask"), ("difference", "ask", "bid")],
         "effective": [("difference", "price", "mid"), ("product", "volume", "price")],
         "realized": [("difference", "price", "later"), ("product", "volume", "price")],
         "impact": [("difference", "later", "mid"), ("product", "volume", "price")],
         "bid_slope": [("difference", "highest", "mid"), ("sum", "size", "size")],
         "ask_slope": [("difference", "highest", "mid"), ("sum", "size", "size")],
         "bid_diff": [("difference", "size", "size"), ("difference", "price", "price")],
         "ask_diff": [("difference", "size", "size"), ("difference", "price", "price")],
         "depth": [("difference", "ask", "bid"), ("sum", "ask", "bid")],
         "kyle": [("product", "sdv", "sdv"), ("product", "returns", "sdv")],
         "z_score": [("difference", "past", "past"), ("sum", "past", "past")],
         "mes": [("difference", "market", "market"), ("sum", "firm", "firm")],
         "srisk": [("sum", "D", "W")],
         "pin": [("negation", "B", "B"), ("negation", "S", "S")]}
FREE = ["pin_eho", "option", "ses", "absorption", "dip", "payoff", "smooth", "yield", "cca", "forest"]
ARGS = {"quoted": ["bid", "ask"], "effective": ["price", "mid", "volume", "dir"], "realized": ["price", "later", "mid", "volume", "dir"],
        "impact": ["price", "later", "mid", "volume", "dir"], "bid_slope": ["size", "highest", "mid"], "ask_slope": ["size", "highest", "mid"],
        "bid_diff": ["size", "price"], "ask_diff": ["size", "price"], "depth": ["bid", "ask"], "kyle": ["returns", "sdv"], "z_score": ["past"],
        "mes": ["firm", "market"], "srisk": ["W", "D"], "pin": ["B", "S"], "pin_eho": ["B", "S"], "option": ["S", "K", "T"], "ses": ["mes", "lvg", "ses"],
        "absorption": ["R"], "dip": ["corr"], "payoff": ["F", "f"], "smooth": ["x"], "yield": ["F", "T"], "cca": ["equity", "barrier", "T", "spread"], "forest": ["x", "y"]}
POSITIVE = {"bid", "ask", "price", "mid", "later", "highest", "W", "S", "K", "T"}
NONNEGATIVE = {"volume", "size", "D", "B"}


def span(t):
    if t == "f4":
        return -2 ** 24, 2 ** 24
    if t == "f8":
        return -2 ** 52, 2 ** 52
    bits = 8 * int(t[1])
    lo, hi = (0, 2 ** bits - 1) if t[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    return max(lo, -2 ** 52), min(hi, 2 ** 52)


def named(t, name):
    lo, hi = span(t)
    return {"lo": lo, "lo+1": lo + 1, "zero": 0, "one": 1, "two": 2, "half": hi // 2 + 1, "hi-1": hi - 1, "hi": hi}[name]


def flat(v):
    return [x for r in v for x in r] if v and isinstance(v[0], list) else v


def allowed(fn, arg, v):
    if fn == "depth":
        return max(0, v)
    if arg in POSITIVE:
        return max(1, v)
    return max(0, v) if arg in NONNEGATIVE or fn in ("pin", "pin_eho") else v


def number(r, fn, arg, t):
    lo, hi = span(t)
    if arg == "dir":
        return r.choice([1, -1, 0]) if lo < 0 else r.choice([0, 1])
    if fn == "mes":
        hi, lo = min(hi, 2 ** 40), max(lo, -2 ** 40)
    v = r.choice([r.randint(lo, hi), r.randint(lo // 2, hi // 2), int(2 ** r.uniform(0, math.log2(hi))), r.randint(0, min(100, hi))])
    if lo < 0 and r.random() < .3:
        v = max(lo, -v)
    return allowed(fn, arg, v)


def data(r, fn, types, k):
    """Arguments whose numbers fit the types."""
    n = length(k, r.choice([2, 3, 5, 12]), (300,), first=11, every=97)
    levels = r.choice([5, 5, 6])
    a = {}
    for arg in ARGS[fn]:
        t = types[arg]
        v = lambda: number(r, fn, arg, t)
        if arg == "size" or (arg == "price" and fn.endswith("diff")) or fn == "depth":
            a[arg] = [[v() for _ in range(levels)] for _ in range(n)]
        else:
            a[arg] = [v() for _ in range(n)]
    return a


def place(r, fn, a, site, x, y):
    """Puts the operands of a kernel where the measure would combine them."""
    _, p, q = site
    rows = isinstance(a[p][0], list)
    i = r.randrange(len(a[p]))
    if rows:
        j, l = r.choice([(4, 2), (2, 0)]) if fn.endswith("diff") else (r.randrange(len(a[p][0])), r.randrange(len(a[q][0])))
        if fn == "depth":      # depths are sums over the levels
            a[p][i], a[q][i] = [0] * len(a[p][0]), [0] * len(a[p][0])
        a[p][i][j] = allowed(fn, p, x)
        if p != q or j != l:
            a[q][i][l] = allowed(fn, q, y)
    else:
        a[p][i] = allowed(fn, p, x)
        a[q][i if p != q else (i + 1) % len(a[q])] = allowed(fn, q, y)


def repair(fn, a):
    """Within the domain: no zero denominators."""
    if fn.endswith("slope"):
        for i in range(len(a["mid"])):
            if a["mid"][i] == a["highest"][i]:
                a["mid"][i] += 1 if a["mid"][i] < 100 else -1
    if fn.endswith("diff"):
        for row in a["price"]:
            while len({row[0], row[2], row[4]}) < 3:
                for j in (0, 2, 4):
                    row[j] = 1 + (row[j] + j) % 101
    if fn == "depth":
        for b, s in zip(a["bid"], a["ask"]):
            if sum(b) + sum(s) == 0:
                b[0] = 1
    if fn == "kyle" and not any(a["sdv"]):
        a["sdv"][0] = 1
    if fn == "z_score" and len(set(a["past"])) == 1:
        a["past"][0] = a["past"][0] + (1 if a["past"][0] < 100 else -1)


def holds(t, arg, values):
    lo, hi = span(t)
    return all(lo <= v <= hi for v in values)


def options(r, fn, a):
    o = dict(scale=0.0)
    if fn in ("quoted", "effective", "realized", "impact"):
        o.update(pct=r.random() < .6, directed=r.random() < .6)
    if fn == "z_score":
        a.update(roa=float(r.randint(-20, 20)), capital=float(r.randint(1, 20)))
    if fn == "mes":
        o["q"] = r.choice([.25, .5, .125, 1.0, .75])
    if fn == "srisk":
        o.update(k=r.choice([.08, .05]), lrmes=[r6(r.uniform(-.1, .8)) for _ in a["W"]])
    if fn.startswith("pin"):
        mean = lambda v: max(1.0, sum(v) / len(v))
        o["p"] = dict(alpha=r6(r.uniform(.1, .9)), delta=r6(r.uniform(.1, .9)), eb=r6(mean(a["B"])), es=r6(mean(a["S"])), mu=r6(mean(a["B"]) * r.uniform(.2, 2)))
    if fn == "option":
        o.update(r=.03, sigma=.4, q=.01)
    if fn == "absorption":
        o["scale"] = 1.0
    return o


def free(r, fn):
    n = r.choice([3, 6, 20])
    ints = lambda lo, hi, m=n: [r.randint(lo, hi) for _ in range(m)]
    if fn == "pin_eho":
        return dict(B=ints(0, 100), S=ints(0, 100))
    if fn == "option":
        s = r.choice([100, 120, 30000, 10 ** 7])
        return dict(S=ints(s // 2, s), K=ints(s // 2, s), T=ints(1, 9))
    if fn == "ses":
        h = r.choice([100, 120, 30000])
        return dict(mes=ints(-h, h, n + 3), lvg=ints(1, h, n + 3), ses=ints(-h, h, n + 3))
    if fn == "absorption":
        h = r.choice([100, 127, 32767, 2 ** 31 - 1])
        return dict(R=[ints(-h, h, n) for _ in range(r.choice([2, 5, 9]))])
    if fn == "dip":
        m = r.choice([2, 3, 5])
        return dict(corr=[[int(i == j) for j in range(m)] for i in range(m)])
    if fn == "payoff":
        return dict(F=ints(1, 4), f=ints(-2, 2))
    if fn == "smooth":
        return dict(x=ints(-100, 127, r.choice([8, 12, 40])))
    if fn == "yield":
        return dict(F=r.randint(1, 2), T=r.randint(1, 9))
    if fn == "cca":
        e = r.choice([60, 100, 120])
        return dict(equity=e, barrier=r.randint(e // 2, e), T=r.randint(1, 3), spread=r.randint(20, 127))
    return dict(x=ints(-9, 9, 30), y=ints(0, 200, 30))


def scenarios(seed, tier, mc):
    r = rng(seed, "C33")
    r.shuffle(mc)
    out = []
    by = {}
    for m in mc:
        by.setdefault(m["kernel"], []).append(m)

    def add(fn, a, first, kernel):
        values = {arg: flat(a[arg]) if isinstance(a[arg], list) else [a[arg]] for arg in ARGS[fn]}
        fits = {arg: [t for t in INTS + ["f4"] if holds(t, arg, values[arg])] for arg in ARGS[fn]}
        opt = options(r, fn, a)
        plans = [{arg: "f8" for arg in ARGS[fn]}]
        if first:
            plans.append({arg: first[arg] if first[arg] in fits[arg] else "i8" for arg in ARGS[fn]})
        for _ in range(4):
            t = r.choice(INTS)
            plans.append({arg: t if t in fits[arg] else r.choice(fits[arg] + ["f8"]) for arg in ARGS[fn]})
        plans += [{arg: r.choice(fits[arg] + ["f8"]) for arg in ARGS[fn]} for _ in range(2)]
        if fn == "z_score" or fn == "kyle":     # least squares and deviations of single precision are of single precision
            plans = [p for p in plans if "f4" not in p.values() or max(map(abs, flat(list(values.values())))) < 1000]
        plans.append(plans[-1])
        g = lambda v: [g(x) for x in v] if isinstance(v, list) else float(v)
        out.append(dict(fn=fn, kernel=kernel, a={k: g(v) for k, v in a.items()}, opt=opt, calls=history([dict(types=p) for p in plans])))

    k = 0
    for fn in sorted(SITES):
        for site in SITES[fn]:
            pool = by.get(site[0], [])
            for i in range(24 if tier == "quick" else 260):
                k += 1
                m = pool[(i * 7 + k) % len(pool)]
                widths = sorted({m["x"]["t"]["w"], m["y"]["t"]["w"]})
                to = dict(zip(widths, sorted(r.sample([1, 2, 4, 8], len(widths)))))
                typ = lambda o: ("i" if o["t"]["signed"] else "u") + str(to[o["t"]["w"]])
                tx, ty = typ(m["x"]), typ(m["y"])
                types = {arg: r.choice([tx, ty]) for arg in ARGS[fn]}
                if "dir" in types:
                    types["dir"] = r.choice(["i1", "i4", "i8"])
                types[site[1]] = tx
                if site[2] != site[1]:
                    types[site[2]] = ty
                a = data(r, fn, types, k)
                x, y = named(tx, m["x"]["n"]), named(types[site[2]], m["y"]["n"])
                if fn == "mes":     # quantiles between whole numbers are then not rounded to one
                    x, y = (max(-2 ** 45, min(2 ** 45, v)) for v in (x, y))
                place(r, fn, a, site, x, y)
                repair(fn, a)
                add(fn, a, types, site[0])
    for fn in FREE:
        for i in range(6 if tier == "quick" else 60):
            add(fn, free(r, fn), None, "none")
    return out


def execute(case, mode):
    import numpy as np
    import pandas as pd
    import frds.measures as M
    from frds.measures import spread as sp, lob_slope as lob, price_impact as pi
    fn, a, o = case["fn"], case["a"], case["opt"]

    def call(c):
        v = {k: (np.array(x).astype(c["types"][k]) if isinstance(x, list) else np.dtype(c["types"][k]).type(x) if k in c["types"] else x) for k, x in a.items()}
        for k, x in v.items():
            assert np.array_equal(np.asarray(x).astype(float), np.asarray(a[k])), "numbers do not fit"
        if fn == "quoted":
            return sp.quoted_spread(v["bid"], v["ask"], o["pct"])
        d = v["dir"] if o.get("directed") else None
        if fn == "effective":
            return sp.effective_spread(v["price"], v["mid"], v["volume"], d, o["pct"])
        if fn in ("realized", "impact"):
            return (sp.realized_spread if fn == "realized" else pi.simple_price_impact)(v["price"], v["later"], v["mid"], v["volume"], d, o["pct"])
        if fn in ("bid_slope", "ask_slope"):
            return (lob.DGGW_bid_slope if fn == "bid_slope" else lob.DGGW_ask_slope)(v["size"], v["highest"], v["mid"])
        if fn in ("bid_diff", "ask_diff"):
            return (lob.DGGW_bid_side_slope_difference if fn == "bid_diff" else lob.DGGW_ask_side_slope_difference)(v["size"], v["price"])
        if fn == "depth":
            return lob.DGGW_scaled_depth_difference(v["bid"], v["ask"])
        if fn == "kyle":
            return M.kyle_lambda(v["returns"], v["sdv"])
        if fn == "z_score":
            return M.z_score(v["roa"], v["capital"], v["past"])
        if fn == "mes":
            return M.MarginalExpectedShortfall(v["firm"], v["market"]).estimate(o["q"])
        if fn == "srisk":
            L = M.LongRunMarginalExpectedShortfall
            init, est, left = L.__init__, L.estimate, list(o["lrmes"])
            L.__init__, L.estimate = (lambda self, f, m: None), (lambda self, *x: left.pop(0))
            try:
                n = len(v["W"])
                return M.SRISK(np.zeros((3, n)), np.zeros(3), v["W"], v["D"]).estimate(o["k"])
            finally:
                L.__init__, L.estimate = init, est
        if fn.startswith("pin"):
            p = o["p"]
            m = M.PIN(v["B"], v["S"])
            return -(m.loglikelihood_LK2011 if fn == "pin" else m.loglikelihood_EHO2010)(np.array([p["alpha"], p["delta"], p["eb"], p["es"], p["mu"]]))
        if fn == "option":
            return np.concatenate(M.blsprice(v["S"], v["K"], o["r"], v["T"], o["sigma"], o["q"]))
        if fn == "ses":
            return M.SystemicExpectedShortfall(v["mes"], v["lvg"], v["ses"], 20.0, 30.0).estimate()
        if fn == "absorption":
            return M.AbsorptionRatio(v["R"]).estimate(.4)
        if fn == "dip":
            return M.DistressInsurancePremium(np.full(len(v["corr"]), .25), v["corr"]).estimate(.1, 3, 300, 20)
        from frds.measures.modified_merton import loan_payoff as lp, fftsmooth as ff, find_face_value_indiv as fv
        if fn == "payoff":
            return lp.loan_payoff(v["F"], v["f"], .1, .5, .2, 5)
        if fn == "smooth":
            return ff.fftsmooth(v["x"], 4)
        if fn == "yield":
            return fv.find_face_value_indiv(.03, v["F"], .1, .2, v["T"], .01, .005)
        if fn == "cca":
            return M.ContingentClaimAnalysis.estimate(v["equity"], .4, .02, v["barrier"], v["T"], v["spread"])
        from frds.algorithms.isolation_forest import anomaly_scores
        return anomaly_scores(pd.DataFrame(dict(x=v["x"], y=v["y"])), forest_size=20, tree_size=8)["AnomalyScore"].to_numpy()
    return run_calls(case["calls"], lambda c: dict(value=[float(x) for x in np.ravel(call(c))]))
