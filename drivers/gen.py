"""Input generation shared by the drivers (standard library only, seeded)."""
import math
import random


def rng(seed, *what):
    return random.Random("|".join(map(str, (seed,) + what)))


def normals(r, n, sd=1.0, mu=0.0):
    return [r.gauss(mu, sd) for _ in range(n)]


def garch_series(r, n, omega=0.05, alpha=0.1, gamma=0.0, beta=0.85, mu=0.0, df=None):
    """Returns with volatility clustering."""
    s = omega / max(1e-3, 1 - alpha - gamma / 2 - beta)
    out = []
    for _ in range(n):
        z = r.gauss(0, 1)
        if df:
            z *= math.sqrt(df / r.gammavariate(df / 2, 2))
        e = math.sqrt(s) * z
        out.append(mu + e)
        s = omega + (alpha + (gamma if e < 0 else 0)) * e * e + beta * s
    return out


def pair(r, n, rho=0.5, **kw):
    a = garch_series(r, n, **kw)
    b = garch_series(r, n, **kw)
    return a, [rho * x + math.sqrt(1 - rho * rho) * y for x, y in zip(a, b)]


def r6(x):
    """A short decimal, so that replays are readable."""
    return float("%.6g" % x)


def short(xs):
    return [r6(x) for x in xs]


def real(v):
    """Results that must be real numbers."""
    import numpy as np
    if np.iscomplexobj(v):
        raise TypeError("a complex result")
    return np.asarray(v, dtype=float)


def as_float(x):
    return float(x) if isinstance(x, (str, int, float)) else [as_float(v) for v in x]


def check_mode(mode, ext="frds.algorithms.utils.utils_ext"):
    """The tree under test has the extension exactly when it should."""
    import importlib.util
    if (importlib.util.find_spec(ext) is not None) != (mode == "ext"):
        raise RuntimeError("wrong scratch tree")


def length(k, n, longs=(300, 1000, 2600), first=7, every=29):
    """n, except in a few cases, which are as long as years of daily data."""
    i, rest = divmod(k - first, every)
    return longs[i] if rest == 0 and 0 <= i < len(longs) else n


def history(calls, hist=None):
    """Calls with `before` and `same` filled in; hist: <<kind, disturbance>> from Calls.tla."""
    if hist is not None:
        calls = [dict(calls[op - 1], before=d) for op, d in hist]
    out = []
    for c in calls:
        c = dict(c, before=c.get("before", "none"))
        key = {k: v for k, v in c.items() if k not in ("before", "same")}
        same = next((i for i, o in enumerate(out) if {k: v for k, v in o.items() if k not in ("before", "same")} == key), len(out))
        out.append(dict(c, same=same + 1))
    return out


def run_calls(calls, fn, watch=()):
    """Executes a history of calls; fn(call) returns a dict.  watch: arrays that must not change."""
    import random
    import numpy as np
    results, g_ok = [], True
    copies = [np.array(w, copy=True) for w in watch]
    np.random.seed(5)
    random.seed(5)
    for c in calls:
        if c["before"] == "npseed":
            np.random.seed(99)
            random.seed(99)
        if c["before"] == "draw":
            np.random.rand(3)
            random.random()
        g = (repr(np.random.get_state()), random.getstate())
        try:
            r = dict(exc="")
            r.update(fn(c))
        except Exception as e:
            r = dict(exc=type(e).__name__, msg=str(e)[:100])
        results.append(r)
        g_ok &= g == (repr(np.random.get_state()), random.getstate())
    same = lambda a, b: a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return dict(results=results, global_ok=bool(g_ok), inputs_ok=all(bool(same(np.asarray(w), k)) for w, k in zip(watch, copies)))
