"""C18: contingent claim analysis."""
import math
from drivers.gen import rng, r6, history, run_calls

MODES = ["ext"]
EXTS = []
SPEC = "CcaTrace"
MC = {"quick": [("CcaMC", "CcaMCq.cfg")], "thorough": [("CcaMC", "CcaMCt.cfg")]}
ASSUMPTIONS = ["inputs on which the documented root search (MINPACK hybrid method from equity and its volatility) does not converge are judged on the netting only"]


def phi(x):
    return math.erfc(-x / math.sqrt(2)) / 2


def firm(V, sigma, B, r, T, spread):
    """Equity data of a firm; the specification checks that they are those of V and sigma."""
    d1 = (math.log(V / B) + (r + sigma ** 2 / 2) * T) / (sigma * math.sqrt(T))
    d2 = d1 - sigma * math.sqrt(T)
    E = V * phi(d1) - B * math.exp(-r * T) * phi(d2)
    if E < 1e-6 * V:
        return None
    return dict(V=V, sigma=sigma, B=B, r=r, T=T, spread=spread, E=E, vol=V * sigma * phi(d1) / E)


def scenarios(seed, tier, mc):
    r = rng(seed, "C18")
    firms = [firm(*(float(m[f]) for f in ("V", "sigma", "B", "r", "T", "spread"))) for m in mc]
    for k in range(800 if tier == "quick" else 12000):
        B = 10 ** r.uniform(-1, 4)
        firms.append(firm(r6(B * r.choice([r.uniform(.6, 1.3), r.uniform(1, 6)])), r6(r.uniform(.02, 1) if k % 5 else r.uniform(1, 2.5)), r6(B), r6(r.uniform(-.02, .1)),
                          r6(r.choice([1, r.uniform(.1, 10)])), r6(r.choice([0, 10 ** r.uniform(0, 3.5)]))))
    firms = [f for f in firms if f]
    r.shuffle(firms)
    out = []
    for i in range(0, len(firms), 3):
        calls = firms[i:i + 3]
        out.append(dict(calls=history(calls + calls[:1])))
    return out


def converges(c):
    """Whether MINPACK's hybrid method solves the two equations from the documented start."""
    from scipy.optimize import fsolve
    from scipy.stats import norm
    E, vol, r, B, T = (c[k] for k in ("E", "vol", "r", "B", "T"))

    def eqs(x):
        V, s = x[0] ** 2, x[1] ** 2
        d1 = (math.log(V / B) + (r + s * s / 2) * T) / (s * math.sqrt(T))
        return (E - V * norm.cdf(d1) + B * math.exp(-r * T) * norm.cdf(d1 - s * math.sqrt(T)), E * vol - V * s * norm.cdf(d1))
    try:
        x, info, ier, _ = fsolve(eqs, (E, vol), full_output=True)
    except (ValueError, ZeroDivisionError, OverflowError):
        return False
    return bool(ier == 1 and abs(info["fvec"][0]) < 1e-8 * E and abs(info["fvec"][1]) < 1e-8 * E * vol)


def execute(case, mode):
    from frds.measures import ContingentClaimAnalysis as C

    def call(c):
        ok = converges(c)
        try:
            put, contribution = C().estimate(c["E"], c["vol"], c["r"], c["B"], c["T"], c["spread"])
        except Exception as e:
            return dict(exc=type(e).__name__, converges=ok)
        return dict(put=float(put), contribution=float(contribution), converges=ok)
    return run_calls(case["calls"], call)
