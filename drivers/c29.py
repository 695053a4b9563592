"""C29: valuations of the modified Merton model."""
import math
from drivers.gen import rng, r6, normals, short, real

MODES = ["ext"]
EXTS = []
SPEC = "BankTrace"
MC = {"quick": [("ModMertonMC", "ModMertonMCq.cfg")], "thorough": [("ModMertonMC", "ModMertonMCt.cfg")]}
KEYS = ("r", "T", "bookF", "H", "D", "rho", "ltv", "sig", "d", "y", "g")
# debt maturities in steps whose quotient is not exact in floating point
ODD = [(11, 15, 11), (13, 15, 13), (7, 29, 7)]


def paths(r, m, steps):
    w = [short(normals(r, steps)) for _ in range(m)]
    if r.random() < .2:
        w[1] = w[0]                              # equal paths: ties
    return w


def size(r, G, big):
    """Number of paths: 3 G m cells, a twentieth of them an even number."""
    ok = [m for m in range(4, 120) if (3 * G * m) % 2 == 0 and (3 * G * m) // 20 in ((2,) if not big and G < 5 else (2, 4, 6))]
    return r.choice(ok)


def par(r, T, H, sig=None, rho=None, ltv=None, rr=None):
    bookF = r6(r.choice([.6, .7, r.uniform(.4, 1.2)]))
    rr = r6(r.choice([.01, r.uniform(-.01, .06)])) if rr is None else rr
    d = r.choice([0.0, .005, r6(r.uniform(0, .03))])
    # the loan must be worth what was lent at some face value: depreciation is less than the collateral
    ltv = r6(min(r.uniform(.4, .95) if ltv is None else ltv, .9 * math.exp(-d * T)))
    return dict(r=rr, T=T, bookF=bookF, H=H, D=r6(bookF * r.choice([.95, 1.0, r.uniform(.6, 1.3)]) * math.exp(rr * H)),
                rho=r6(r.choice([.5, r.uniform(.05, .95)])) if rho is None else rho,
                ltv=ltv, sig=r6(r.uniform(.08, .5)) if sig is None else sig,
                d=d, y=r.choice([0.0, .002, r6(r.uniform(0, .02))]),
                g=r.choice([0.0, .5, 1.0]))


def scenarios(seed, tier, mc):
    r = rng(seed, "C29")
    r.shuffle(mc)
    out = []
    n = 70 if tier == "quick" else 700
    for k in range(n + (8 if tier == "quick" else 40)):
        kind = ["multi", "multi", "single"][k % 3] if k < n else ["multi", "single"][(k - n) % 2]
        N = r.choice([1, 2, 3, 3, 4]) if tier == "quick" else r.choice([1, 2, 3, 5, 6])
        T = r.choice([N, 2 * N, 10, 5.0, 1.0])
        HN = r.randrange(0, N) if kind == "multi" else r.randrange(1, N + 1)
        H = HN * T / N
        if r.random() < .5 and H == int(H):
            H = int(H)
        if abs(H * N / T - HN) > 0:
            T, H = N, HN
        fs = [r6(r.gauss(0, .7)) for _ in range(r.choice([1, 1, 2, 3]) if k < n else r.choice([2, 5, 6]))]
        if r.random() < .3:
            fs[0] = 0.0
        fn = "computation"
        w = "given"
        m = mc[k % len(mc)] if mc else {}
        p = par(r, T, H, *[float(m[x]) for x in ("sig", "rho", "ltv", "r")] if m and k % 2 else [])
        if k % 9 == 4:
            # other units: a bank a thousand times smaller or larger
            unit = r.choice([1e-3, 1e-2, 1e3])
            p.update(bookF=p["bookF"] * unit, D=p["D"] * unit)
        if k % 8 == 6:
            p["rho"] = r.choice([.99, .97, .01])
        if k % 13 == 2:
            # a factor far in its tail, with volatile and correlated collateral
            fs[-1] = r.choice([-3.0, -2.5, -4.0])
            p.update(sig=r6(r.uniform(.5, .8)), rho=r6(r.uniform(.6, .95)))
        G = len(fs)
        msz = size(r, G, k % 5 == 0)
        if k % 7 == 3:
            w = "default"
        if k % 10 == 5 and k < n:
            fn = "lookup"
        elif k % 11 == 6 and k < n:
            fn, kind, w = "solution", "single", "default"
            fs = fs[:1]
            msz = size(r, 1, False)
            H = H or T
            p["H"] = H
        vals = [dict(p=p, N=N, fs=fs, kind=kind)]
        grid = {}
        if k >= n:
            # full grids and more factor values, for either kind
            fn = ["lookup", "computation"][(k - n) // 2 % 2]
        if fn == "lookup":
            w = "default"
            p["g"] = 0.0
            shape = [2, r.choice([1, 2]) if k < n else 2, r.choice([1, 2]) if k < n else 2]
            sig = sorted({p["sig"], r6(p["sig"] * 1.3)})
            cells = [(s, rr, f) for s in sig for rr in [p["r"], r6(p["r"] + .01)][:shape[1]] for f in [p["bookF"], r6(p["bookF"] * 1.2)][:shape[2]]]
            if r.random() < .5:
                # not a mesh: every cell has a volatility, a rate and a face value of its own
                cells = [(r6(s * r.uniform(.8, 1.2)), r6(rr + r.uniform(-.01, .02)), r6(f * r.uniform(.8, 1.3))) for s, rr, f in cells]
            grid = dict(shape=shape, sig=[x[0] for x in cells], r=[x[1] for x in cells], F=[x[2] for x in cells], bookD=r6(p["D"]))
            vals = [dict(p=dict(p, sig=s, r=rr, bookF=f, D=grid["bookD"] * math.exp(rr * H)), N=N, fs=fs, kind=kind) for s, rr, f in cells]
        case = dict(fn=fn, w=w, kind=kind, vals=vals, m=msz, grid=grid, form=r.choice(["list", "array", "short"]), col=r.random() < .5,
                    seed=r.choice([1, 1, 7]) if fn == "computation" else 1, E=r6(r.uniform(.01, .3)), sE=r6(r.uniform(.1, 1)))
        if w == "given":
            case["shocks"] = paths(r, msz, 3 * N if kind == "multi" else r.choice([N, N, 3 * N]))
        out.append(case)
    for T, N, H in ODD if tier != "quick" else ODD[:1]:
        case = dict(fn="computation", w="given", kind="single", vals=[dict(p=par(r, T, H), N=N, fs=[.1], kind="single")], m=14, grid={}, form="list",
                    col=False, seed=1, E=.1, sE=.3, shocks=paths(r, 14, N))
        out.append(case)
    return out


NAMES = ("Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "mu", "F", "sigLt")


def execute(case, mode):
    import random
    import numpy as np
    from scipy.stats import norm
    from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
    from frds.measures.modified_merton.mod_single_cohort_computation import mod_single_cohort_computation
    from frds.measures.modified_merton.mod_single_cohort_solution import mod_single_cohort_solution
    from frds.measures.modified_merton.mod_merton_create_lookup import mod_merton_create_lookup
    from frds.measures.modified_merton.mod_single_merton_create_lookup import mod_single_merton_create_lookup
    q = case["vals"][0]
    p, N, m = q["p"], q["N"], case["m"]
    multi = case["kind"] == "multi"
    fs = np.array(q["fs"])
    if case["col"] and multi:
        fs = fs.reshape(-1, 1)
    param = [p[k] for k in KEYS]
    if case["fn"] == "solution":
        param[2] = 1.25 * p["bookF"]             # the face value sought is the one in b
    if case["form"] == "short" and p["g"] == 0:
        param = param[:10]
    elif case["form"] == "array":
        param = np.array(param, dtype=float)
    # the shocks drawn when none are given
    steps = 3 * N if multi or case["fn"] == "lookup" else N
    w = np.array(case["shocks"]) if case["w"] == "given" else norm.ppf(np.random.RandomState(case["seed"]).rand(steps, m)).T
    watch = [fs, param, w]
    copies = [np.array(x, copy=True) for x in watch]
    np.random.seed(3)
    random.seed(3)
    g0 = (repr(np.random.get_state()), random.getstate())
    flat = lambda a: real(a).ravel(order="F").tolist()

    def one():
        if case["fn"] == "computation":
            f = mod_merton_computation if multi else mod_single_cohort_computation
            if case["w"] == "given":
                r = f(fs, param, N, m, w)
            else:
                r = f(fs, param, N, m, random_seed=case["seed"]) if case["seed"] != 1 else f(fs, param, N, m)
            return [{k: flat(x) if k not in ("mu", "F") else float(x) for k, x in zip(NAMES, r)}]
        if case["fn"] == "solution":
            err = mod_single_cohort_solution([float(fs.ravel()[0]), p["bookF"]], param, N, m, case["E"], case["sE"])
            e = np.ravel(real(err))
            return [dict(Et=[case["E"] - float(e[0])], sigEt=[case["sE"] - float(e[1])])]
        g = case["grid"]
        f = mod_merton_create_lookup if multi else mod_single_merton_create_lookup
        shape = tuple(g["shape"])
        xsig, xr, xF = [np.repeat(np.array(g[n], dtype=float).reshape((1,) + shape), fs.size, axis=0) for n in ("sig", "r", "F")]
        xfs = np.broadcast_to(fs.reshape(-1, 1, 1, 1), (fs.size,) + shape).copy()
        t = f(p["d"], p["y"], p["T"], p["H"], g["bookD"], p["rho"], p["ltv"], xfs, xr, xF, xsig, N, m)
        cells = list(np.ndindex(*shape))
        return [{n: flat(x[:, j, k, l]) for n, x in zip(("Lt", "Bt", "Et", "mFt", "mdef", "sigEt"), t)} for j, k, l in cells]
    vals = one()
    again = repr(one()) == repr(vals)
    return dict(vals=vals, w=w.tolist(), again=again, inputs_ok=all(bool(np.array_equal(np.array(x), y)) for x, y in zip(watch, copies)),
                global_ok=g0 == (repr(np.random.get_state()), random.getstate()))
