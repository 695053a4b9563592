"""C22: order-book slopes and depth differences."""
from drivers.gen import length, rng, r6, history, run_calls, as_float

MODES = ["ext"]
EXTS = []
SPEC = "BookTrace"
MC = {"quick": [("BookMC", "BookMCq.cfg")], "thorough": [("BookMC", "BookMCq.cfg"), ("BookMC", "BookMCt.cfg")]}
ALL = ["bid_slope", "ask_slope", "bid_diff", "ask_diff", "depth"]


def scenarios(seed, tier, mc):
    r = rng(seed, "C22")
    r.shuffle(mc)
    out = []

    def calls(fns):
        fns = fns[:]
        r.shuffle(fns)
        return history([dict(fn=f) for f in fns] + [dict(fn=r.choice(fns), before=r.choice(["npseed", "draw"]))])
    pb, pa = [9., 8., 7., 6., 4.], [11., 12., 13., 13.5, 14.]
    for m in mc[:400 if tier == "quick" else 8000]:
        n = len(m["bid"])
        out.append(dict(bid=as_float(m["bid"]), ask=as_float(m["ask"]), bidp=[pb] * n, askp=[pa] * n, mid=[10.] * n, calls=calls(ALL)))
    nan = float("nan")
    for k in range(400 if tier == "quick" else 6000):
        n, lv = length(k, r.choice([1, 2, 5, 30, 100]), (300, 800)), r.choice([5, 5, 5, 10, 2, 3])
        tick = 10 ** r.uniform(-3, 1)
        bid, ask, bidp, askp, mid = [], [], [], [], []
        for _ in range(n):
            c = 10 ** r.uniform(0, 4) + 60 * tick
            steps = [[0.5 * tick * r.randrange(1, 4) for _ in range(lv)] for _ in range(2)]
            acc = [[sum(s[:i + 1]) for i in range(lv)] for s in steps]
            bidp.append([c - x for x in acc[0]])
            askp.append([c + x for x in acc[1]])
            mid.append(c)
            for side in (bid, ask):
                side.append([r6(r.choice([r.randrange(1, 500), 10 ** r.uniform(-1, 5), 100])) for _ in range(lv)])
        if k % 6 == 1:      # sizes in other units
            u = r.choice([1e-6, 1e-12, 1e9])
            bid, ask = ([[v * u for v in q] for q in s] for s in (bid, ask))
        if k % 11 == 3:
            (bid if r.random() < .5 else ask)[0][:] = [0.0] * lv
        if k % 11 == 5:
            bid = [[0.0] * lv for _ in range(n)]
        for a in (bid, ask, bidp, askp, [mid]):
            if r.random() < .3:
                for _ in range(r.choice([1, 1, n])):
                    row = r.choice(a)
                    row[r.randrange(len(row))] = nan
        if k % 23 == 0:
            bid[:] = [[nan] * lv for _ in range(n)]
        fns = ALL if lv >= 5 else ["bid_slope", "ask_slope", "depth"]
        if k % 9 == 4:
            # a stale midpoint below the bids: the distance is what counts
            j = r.randrange(n)
            mid[j] = bidp[j][-1] - 0.5 * tick * r.randrange(1, 5)
            fns = [f for f in fns if f != "ask_slope"]
        out.append(dict(bid=bid, ask=ask, bidp=bidp, askp=askp, mid=mid, calls=calls(fns)))
    return out


def execute(case, mode):
    import random
    import warnings
    import numpy as np
    from frds.measures import lob_slope as L
    warnings.simplefilter("ignore")
    a = {k: np.array(case[k]) for k in ("bid", "ask", "bidp", "askp", "mid")}
    p = list(range(len(a["mid"])))
    random.Random(len(p)).shuffle(p)
    b = {k: v[p].copy() for k, v in a.items()}

    def call(fn, a):
        if fn == "bid_slope":
            return float(L.DGGW_bid_slope(a["bid"], a["bidp"][:, -1], a["mid"]))
        if fn == "ask_slope":
            return float(L.DGGW_ask_slope(a["ask"], a["askp"][:, -1], a["mid"]))
        if fn == "bid_diff":
            return float(L.DGGW_bid_side_slope_difference(a["bid"], a["bidp"]))
        if fn == "ask_diff":
            return float(L.DGGW_ask_side_slope_difference(a["ask"], a["askp"]))
        return float(L.DGGW_scaled_depth_difference(a["bid"], a["ask"]))
    swap = dict(a, bid=a["ask"], ask=a["bid"])
    return run_calls(case["calls"], lambda c: dict(value=call(c["fn"], a), permuted=call(c["fn"], b),
                                                   swapped=call("depth", swap) if c["fn"] == "depth" else 0.0), list(a.values()))
