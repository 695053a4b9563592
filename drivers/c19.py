"""C19: PIN likelihoods."""
from drivers.gen import length, rng, r6

MODES = ["ext"]
EXTS = []
SPEC = "PinLLTrace"
MC = {"quick": [("PinMC", "PinMCq.cfg")], "thorough": [("PinMC", "PinMCt.cfg")]}


def counts(r, n, lam):
    return [max(0, int(round(r.gauss(lam, lam ** .5 * r.choice([1, 1, 3]))))) for _ in range(n)]


def scenarios(seed, tier, mc):
    r = rng(seed, "C19")
    r.shuffle(mc)
    out = [dict(p={k: float(v) for k, v in m["p"].items()}, B=m["B"], S=m["S"], kind="int") for m in mc[:1500 if tier == "quick" else 10000]]
    for k in range(400 if tier == "quick" else 6000):
        n = length(k, r.choice([1, 2, 5, 20, 60]), (250, 1000))
        lam = 10 ** r.uniform(-1, 4.5)
        B, S = counts(r, n, lam), counts(r, n, lam * r.choice([1, .3, 2]))
        p = dict(alpha=r6(r.uniform(.001, .999)), delta=r6(r.uniform(.001, .999)), eb=r6(lam * 10 ** r.uniform(-1, .3)),
                 es=r6(lam * 10 ** r.uniform(-1, .3)), mu=r6(lam * 10 ** r.uniform(-2, .5)))
        out.append(dict(p=p, B=B, S=S, kind=["int", "float"][k % 2]))
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures import PIN
    B, S = (np.array(case[f], dtype=np.int64 if case["kind"] == "int" else float) for f in ("B", "S"))
    m = PIN(B, S)
    p = np.array([case["p"][f] for f in ("alpha", "delta", "eb", "es", "mu")])
    return dict(eho=-float(m.loglikelihood_EHO2010(p)), lk=-float(m.loglikelihood_LK2011(p)))
