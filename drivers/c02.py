"""C02: GJR-GARCH conditional variances and forecasts."""
import importlib

import drivers.c01 as c01
from drivers.gen import rng

MODES, EXTS, SPEC = c01.MODES, c01.EXTS, c01.SPEC
MC = {"quick": [("C02MCq", "C02MCq.cfg")], "thorough": [("C02MCt", "C02MCt.cfg")]}
ASSUMPTIONS = c01.ASSUMPTIONS


def scenarios(seed, tier, mc):
    c01.MODEL, c01.GAMMA = "gjr", True
    out = c01.scenarios(seed, tier, mc)
    r = rng(seed, "C02")
    # forecasts over the same residuals
    for k in range(len(out)):
        s = out[k]
        if s["kind"] == "path" and r.random() < 0.25:
            out.append(dict(s, kind="forecast", bounds=[]))
    return out


def execute(case, mode):
    import numpy as np
    import frds.algorithms._garch as g
    if case["kind"] == "forecast":
        p = g.GJRGARCHModel.Parameters(mu=0.5, omega=case["omega"], alpha=case["alpha"], gamma=case["gamma"], beta=case["beta"], loglikelihood=1.0)
        return dict(sigma2=g.GJRGARCHModel.forecast_variance(p, np.array(case["resids"], dtype=float), case["backcast"]))
    c01.MODEL = "gjr"
    return c01.execute(case, mode)
