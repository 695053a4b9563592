"""C28: building blocks of the modified Merton model."""
from drivers.gen import rng, r6, normals, short, history, run_calls, real

MODES = ["ext"]
EXTS = []
SPEC = "MertonTrace"
MC = {"quick": [("ModMertonMC", "ModMertonMCq.cfg")], "thorough": [("ModMertonMC", "ModMertonMCt.cfg")]}


def payoff(r, F, ival, rho, sig, T):
    n = r.choice([1, 3, 6])
    return dict(fn="payoff", F=[F] if r.random() < .5 or n == 1 else [r6(F * r.uniform(.3, 2)) for _ in range(n)],
                f=short(normals(r, n, max(.05, sig * T ** .5), r.choice([0, 0, -.5, 1]))), ival=ival, rho=rho, sig=sig, T=T,
                shape=r.choice(["1d", "col", "3d"]) if n > 1 else r.choice(["scalar", "1d"]))


def merton(r, A, s, D, rr, d, T):
    E = r6(max(1e-3, A) * r.uniform(.02, .6))
    return dict(fn="merton", A=A, s=s, E=E, D=D, r=rr, d=d, T=T, sE=r6(r.uniform(.05, 1.5)), form=r.choice(["tuple", "array"]))


def yields(r, F, ival, sig, T, rr, d):
    return dict(fn="yield", mu=r6(rr + r.uniform(-.02, .1)), F=F, ival=ival, sig=sig, T=T, r=rr, d=d)


def smooth(r, big):
    n = 2 * r.randrange(2, 200 if big else 30)
    w = 2 * r.randrange(1, max(2, min(n // 2, 30)))
    if r.random() < .2:
        w = n - 2 if n <= 60 else w
    kind = r.randrange(5)
    x = {0: lambda: [r6(r.gauss(0, 1))] * n,
         1: lambda: [r6(.25 + k * .125) for k in range(n)],
         2: lambda: short(sorted(normals(r, n))),
         3: lambda: [0.0 if k % 3 else 1.0 for k in range(n)],
         4: lambda: short(normals(r, n, 10 ** r.uniform(-3, 3)))}[kind]()
    return dict(fn="smooth", x=x, w=min(w, n - 2))


def scenarios(seed, tier, mc):
    r = rng(seed, "C28")
    r.shuffle(mc)
    out = []

    def add(calls):
        calls = list(calls)
        r.shuffle(calls)
        out.append(dict(calls=history(calls + [dict(r.choice(calls), before=r.choice(["npseed", "draw"]))])))
    for m in mc[:300 if tier == "quick" else 4000]:
        F, x, rho, sig, T, rr = (float(m[k]) for k in ("F", "x", "rho", "sig", "T", "r"))
        add([payoff(r, F, x, rho, sig, T), yields(r, F, x, sig, T, rr, .005), merton(r, 2.718281828 ** x, sig, F, rr, 0.0, T), smooth(r, False)])
    for k in range(400 if tier == "quick" else 6000):
        F, x = r6(r.choice([r.uniform(.1, 2), 10 ** r.uniform(-3, 4)])), r6(r.gauss(0, .6))
        if r.random() < .3:                      # amounts far from one
            x = r6(x + __import__("math").log(F))
        rho = r.choice([0.0, r6(r.random()), .99, 1.0 if k % 4 == 0 else .5])
        sig, T = r6(r.choice([r.uniform(.02, .8), r.uniform(.1, .3)])), r.choice([.25, 1.0, 5.0, 10.0, 7, r6(r.uniform(.1, 30))])
        rr, d = r6(r.uniform(-.02, .1)), r.choice([0.0, .005, r6(r.uniform(0, .05))])
        A = r6(F * r.uniform(.3, 3))
        A, s = r.choice([(A, sig), (A, sig), (A, sig), (-A, sig), (A, -sig), (-A, -sig), (0.0, sig), (A, 0.0), (0.0, 0.0), (-A, 0.0), (0.0, -sig)])
        add([payoff(r, F, x, rho, sig, T), yields(r, r6(2.718281828 ** x * r.uniform(.1, 3)), x, max(.05, sig), T, rr, d),
             merton(r, A, s, F, rr, d, T), smooth(r, tier != "quick" or k % 10 == 0)])
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures.modified_merton.loan_payoff import loan_payoff
    from frds.measures.modified_merton.fftsmooth import fftsmooth
    from frds.measures.modified_merton.find_face_value_indiv import find_face_value_indiv
    from frds.measures.modified_merton.merton_solution import merton_solution
    calls = case["calls"]
    shape = dict([("1d", lambda v: v), ("col", lambda v: v.reshape(-1, 1)), ("3d", lambda v: v.reshape(1, 3, -1))])
    arrays = {}
    for i, c in enumerate(calls):
        for key in ("F", "f", "x"):
            if isinstance(c.get(key), list):
                a = np.array(c[key])
                arrays[c["same"], key] = arrays.get((c["same"], key), shape.get(c.get("shape"), shape["1d"])(a) if a.size > 1 else a)

    def call(c):
        a = {k: arrays.get((c["same"], k), v) for k, v in c.items()}
        if c["fn"] == "payoff":
            F = a["F"] if len(c["F"]) > 1 else c["F"][0]
            f = a["f"] if c["shape"] != "scalar" else c["f"][0]
            v = loan_payoff(F, f, a["ival"], a["rho"], a["sig"], a["T"])
            if np.shape(v) != np.shape(f):
                return dict(value=[])
        elif c["fn"] == "smooth":
            v = fftsmooth(a["x"], a["w"])
        elif c["fn"] == "yield":
            v = find_face_value_indiv(*[a[k] for k in ("mu", "F", "ival", "sig", "T", "r", "d")])
        else:
            x = (a["A"], a["s"])
            v = merton_solution(x if c["form"] == "tuple" else np.array(x), *[a[k] for k in ("E", "D", "r", "d", "T", "sE")])
        return dict(value=np.ravel(real(v)).tolist())
    return run_calls(calls, call, list(arrays.values()))
