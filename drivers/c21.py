"""C21: spreads and price impact."""
from drivers.gen import length, rng, r6, history, run_calls, as_float

MODES = ["ext"]
EXTS = []
SPEC = "SpreadTrace"
MC = {"quick": [("SpreadMC", "SpreadMCq.cfg")], "thorough": [("SpreadMC", "SpreadMCt.cfg")]}
KINDS = [dict(fn=f, pct=p, directed=d) for f in ("effective", "realized", "impact") for p in (True, False) for d in (True, False)] \
    + [dict(fn="quoted", pct=p, directed=False) for p in (True, False)]


def scenarios(seed, tier, mc):
    r = rng(seed, "C21")
    r.shuffle(mc)
    out = []

    def calls():
        ks = KINDS[:]
        r.shuffle(ks)
        return history(ks + [dict(r.choice(ks), before=r.choice(["npseed", "draw"]))])
    for m in mc[:500 if tier == "quick" else 10000]:
        m = {k: as_float(v) for k, v in m.items()}
        out.append(dict(m, bid=m["price"], ask=[a + b for a, b in zip(m["price"], m["volume"])], factor=4.0, calls=calls()))
    for k in range(250 if tier == "quick" else 5000):
        n = length(k, r.choice([1, 2, 3, 10, 50]), (300, 1000))
        base, vol = 10 ** r.uniform(-3, 5), 10 ** r.uniform(-5, -.3)
        at = lambda: r6(base * (1 + vol * r.uniform(-1, 1)))
        price, mid, later, bid = ([at() for _ in range(n)] for _ in range(4))
        ask = [r6(b * (1 + vol * r.uniform(-.1, 1))) for b in bid]
        v = [float(r.choice([0, 1, 100, r.randrange(1, 10000), r6(10 ** r.uniform(-2, 7))])) for _ in range(n)]
        if k % 5 == 0:
            v = [0.0] * n
            if k % 10 == 0:          # missing midpoints are skipped in simple means
                for a in (mid, later):
                    for _ in range(r.choice([0, 1, n])):
                        a[r.randrange(n)] = float("nan")
        if k % 7 == 0:
            price[r.randrange(n)] = mid[0]
        if k % 9 == 0:
            later = mid[:]
        d = [float(r.choice([-1, 1, 1, -1, 0])) for _ in range(n)]
        out.append(dict(bid=bid, ask=ask, price=price, mid=mid, later=later, volume=v, dir=d, factor=r.choice([.5, 100.0, 1e-6, 3.0, 1e-25, 1e25]), calls=calls()))
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures import spread, price_impact
    a = {k: np.array(case[k]) for k in ("bid", "ask", "price", "mid", "later", "volume", "dir")}

    def call(c, volume):
        d = a["dir"] if c["directed"] else None
        if c["fn"] == "quoted":
            return float(spread.quoted_spread(a["bid"], a["ask"], pct_spread=c["pct"]))
        if c["fn"] == "effective":
            return float(spread.effective_spread(a["price"], a["mid"], volume, d, c["pct"]))
        f = spread.realized_spread if c["fn"] == "realized" else price_impact.simple_price_impact
        return float(f(a["price"], a["later"], a["mid"], volume, d, c["pct"]))
    scaled = a["volume"] * case["factor"]
    return run_calls(case["calls"], lambda c: dict(value=call(c, a["volume"]), scaled=call(c, scaled)), list(a.values()) + [scaled])
