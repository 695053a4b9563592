"""C16: distress insurance premium."""
from drivers.gen import rng, r6, normals, history, run_calls, as_float

MODES = ["ext"]
EXTS = []
SPEC = "DipTrace"
MC = {"quick": [("DipMC", "DipMCq.cfg"), ("Calls", "CallsQ.cfg")], "thorough": [("DipMC", "DipMCt.cfg"), ("Calls", "CallsT.cfg")]}
ASSUMPTIONS = ["draws whose comparison floating point cannot decide are not judged"]


def near(r, p, corr, c):
    """Probabilities whose default points are next to a simulated return."""
    import numpy as np
    from statistics import NormalDist
    z = np.random.RandomState(c["seed"]).normal(0, 1, size=(c["nret"], len(p))) @ np.linalg.cholesky(np.array(corr)).T
    q = [NormalDist().cdf(float(z[r.randrange(len(z)), i])) + r.choice([-1, 1]) * r.choice([1e-8, 1e-6]) for i in range(len(p))]
    return [float("%.12g" % x) if 1e-4 < x < .9999 else y for x, y in zip(q, p)]


def scenarios(seed, tier, mc):
    r = rng(seed, "C16")
    hist = [m["hist"] for m in mc if "hist" in m]
    models = [m for m in mc if "p" in m]
    r.shuffle(hist)
    r.shuffle(models)
    out = []

    def calls(k, pct, nb):
        base = dict(pct=pct, seed=r.choice([0, 1, 42, 2**31 - 1]), nret=r.choice([1, 5, 20, 30]), nloss=r.choice([1, 3, 8]))
        if nb > 3:
            base.update(nret=20, nloss=3)
        kinds = [base, dict(base, pct=r.choice([0, 1, 7, 15, 28, 29, 57, 58, 75, 99, 100])),
                 dict(base, seed=base["seed"] + 1) if k % 2 else dict(base, pct=r.choice([10, 15, 15.5, 20.75]))]
        return history(kinds, hist[k % len(hist)])
    for k, m in enumerate(models[:200 if tier == "quick" else 3000]):
        p = as_float(m["p"])
        rho = float(m["rho"])
        if rho < 0 and len(p) > 2:
            rho = -.2
        corr = [[1.0 if i == j else rho for j in range(len(p))] for i in range(len(p))]
        out.append(dict(prob=p, corr=corr, calls=calls(k, float(m["pct"]), len(p))))
    for k in range(100 if tier == "quick" else 1500):
        nb = r.choice([1, 2, 3, 4, 6, 10])
        f = [r.uniform(-.95, .95) for _ in range(nb)]
        corr = [[1.0 if i == j else r6(f[i] * f[j]) for j in range(nb)] for i in range(nb)]
        p = [r6(r.choice([r.random(), 10 ** r.uniform(-4, -1)])) for _ in range(nb)]
        cs = calls(k, r.choice([15.0, 0.0, 5.0, 40.0, 15.5, 12.25, .5, 33.375]), nb)
        out.append(dict(prob=near(r, p, corr, cs[0]) if k % 3 == 0 else p, corr=corr, calls=cs))
    # systems in which many banks default together; samples longer than the rest
    for k in range(12 if tier == "quick" else 120):
        nb = r.choice([5, 7, 8, 9, 12, 15])
        f = [r.choice([.9, .99, .6])] * nb
        corr = [[1.0 if i == j else r6(f[i] * f[j]) for j in range(nb)] for i in range(nb)]
        base = dict(pct=r.choice([15.0, 40.0]), seed=r.randrange(2**31), nret=r.choice([6, 9]), nloss=r.choice([2, 5]))
        out.append(dict(prob=[r6(r.uniform(.3, .95)) for _ in range(nb)], corr=corr, calls=history([base, dict(base, pct=r.choice([50.0, 62.5]))])))
    for k in range(4 if tier == "quick" else 40):
        base = dict(pct=r.choice([15.0, 5.0]), seed=r.randrange(2**31), nret=r.choice([257, 400, 1100]), nloss=r.choice([40, 130, 600]))
        out.append(dict(prob=[r6(r.uniform(.01, .9)) for _ in range(2)], corr=[[1.0, .3], [.3, 1.0]], calls=history([base])))
    # thresholds that are a whole number of the system's slots, but not of one bank's
    for k in range(6 if tier == "quick" else 60):
        nb = r.choice([3, 6, 7, 9])
        base = dict(seed=r.randrange(2**31), nret=r.choice([5, 9]), nloss=r.choice([20, 40]))
        pcts = [100 * r.choice(range(1, 60 * nb)) / (100 * nb) for _ in range(3)]
        out.append(dict(prob=[r6(r.uniform(.4, .95)) for _ in range(nb)], corr=[[1.0 if i == j else .5 for j in range(nb)] for i in range(nb)],
                        calls=history([dict(base, pct=p) for p in pcts])))
    # thresholds at and just above levels that losses are likely to be at
    for k in range(16 if tier == "quick" else 160):
        nb = [1, 2, 3, 2][k % 4]
        base = dict(seed=r.randrange(2**31), nret=r.choice([5, 9]), nloss=r.choice([150, 300]))
        pcts = [r.choice([55.0, 56.0, 57.0, 58.0, 28.0, 29.0]), round(r.uniform(20, 60), 2), r.choice([55.01, 28.004, 33.34, 45.505])]
        out.append(dict(prob=[r6(r.uniform(.4, .9)) for _ in range(nb)], corr=[[1.0 if i == j else .25 for j in range(nb)] for i in range(nb)],
                        calls=history([dict(base, pct=p) for p in pcts])))
    # distress that hardly ever happens: one default, one loss that large
    for k in range(8 if tier == "quick" else 80):
        nb = r.choice([1, 1, 2])
        base = dict(seed=r.randrange(2**31), nret=r.choice([257, 400, 1100]), nloss=r.choice([150, 300, 600]))
        pcts = [r.choice([94.0, 95.5, 96.5, 90.0]), r.choice([97.0, 92.0])] if nb == 1 else [r.choice([85.0, 80.5]), 75.0]
        out.append(dict(prob=[r6(r.uniform(1.2, 2.5) / base["nret"]) if i == 0 else .4 for i in range(nb)],
                        corr=[[1.0 if i == j else .25 for j in range(nb)] for i in range(nb)], calls=history([dict(base, pct=p) for p in pcts])))
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures import DistressInsurancePremium as Dip
    p, corr = np.array(case["prob"]), np.array(case["corr"])
    d = Dip(p, corr)
    res = run_calls(case["calls"], lambda c: dict(value=float(d.estimate(c["pct"] / 100, c["seed"], c["nret"], c["nloss"]))), [p, corr])
    keys, draws, which = [], [], []
    for c in case["calls"]:
        key = (c["seed"], c["nret"], c["nloss"])
        if key not in keys:
            keys.append(key)
            g = np.random.RandomState(c["seed"])
            z = g.normal(0, 1, size=(c["nret"], len(p)))
            lgd = [np.sum(g.triangular(0.1, 0.55, 1, size=(b + 1, c["nloss"])), axis=0) for b in range(len(p))]
            draws.append(dict(z=z, lgd=lgd))
        which.append(keys.index(key) + 1)
    return dict(res, draws=draws, which=which)
