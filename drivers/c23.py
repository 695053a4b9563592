"""C23: Kyle's lambda and the Z-score."""
from drivers.gen import length, rng, r6, normals, short, history, run_calls, as_float

MODES = ["ext"]
EXTS = []
SPEC = "RatioTrace"
MC = {"quick": [("RatioMC", "RatioMCq.cfg")], "thorough": [("RatioMC", "RatioMCt.cfg")]}


def scenarios(seed, tier, mc):
    r = rng(seed, "C23")
    r.shuffle(mc)
    out = []
    kyle = dict(fn="kyle", roa=0.0, capital=0.0)

    def z(past):
        if max(past) - min(past) <= 1e-6 * max(map(abs, past)):   # no spread to divide by
            return []
        s = max(map(abs, past))
        return [dict(fn="z", roa=r6(s * r.uniform(-1, 1)), capital=r6(r.random() * r.choice([1, s])))]
    for m in mc[:600 if tier == "quick" else 10000]:
        y = as_float(m["y"])
        out.append(dict(returns=y, sdv=as_float(m["x"]), past=y, calls=history([kyle] + z(y) + [dict(kyle, before="npseed")])))
    for k in range(800 if tier == "quick" else 10000):
        n = length(k, r.choice([1, 2, 3, 10, 60, 250]))
        y, x = short(normals(r, n, 10 ** r.uniform(-4, 1))), short(normals(r, n, 10 ** r.uniform(-3, 11), r.choice([0, 0, 1e6])))
        past = short(normals(r, max(2, n), 10 ** r.uniform(r.choice([-4, -9]), 1), r.choice([0, .1, -.5])))
        if k % 5 == 0:
            x = [float(round(v)) or 1.0 for v in x]
        if k % 6 == 0:
            x[r.randrange(n)] *= 1e4
        if k % 7 == 0:
            y = [0.0] * n
        calls = [kyle] + z(past) + z(past)
        r.shuffle(calls)
        out.append(dict(returns=y, sdv=x, past=past, calls=history(calls + [dict(r.choice(calls), before=r.choice(["npseed", "draw"]))])))
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures import kyle_lambda, z_score
    a = {k: np.array(case[k]) for k in ("returns", "sdv", "past")}
    return run_calls(case["calls"], lambda c: dict(value=float(kyle_lambda(a["returns"], a["sdv"]) if c["fn"] == "kyle"
                                                               else z_score(c["roa"], c["capital"], a["past"]))), list(a.values()))
