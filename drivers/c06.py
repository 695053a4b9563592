"""C06: histories of calls on shared models."""
import hashlib

from drivers.gen import check_mode, rng, short, pair

MODES = ["ext", "pure"]
EXTS = ["utils_ext"]
SPEC = "LifecycleTrace"
MC = {"quick": [("LifecycleMC", "LifecycleA.cfg"), ("LifecycleMC", "LifecycleB.cfg", ["-simulate", "num=250", "-depth", "11", "-seed", "7"])],
      "thorough": [("LifecycleMC", "LifecycleAt.cfg"), ("LifecycleMC", "LifecycleB.cfg", ["-simulate", "num=1500", "-depth", "11", "-seed", "7"])]}


def scenarios(seed, tier, mc):
    r = rng(seed, "C06")
    data = []
    for k in range(3):
        x, y = pair(r, 30, r.choice([-0.4, 0.3, 0.8]), mu=r.choice([0.0, 0.2]))
        data.append((short(x), short(y)))
    return [dict(hist=m["hist"], early=k % 4 == 0, zero_mean=bool(k % 3 == 1), x=data[k % 3][0], y=data[k % 3][1]) for k, m in enumerate(mc)]


def digest(*xs):
    h = hashlib.md5()
    for x in xs:
        h.update(repr(x.tolist() if hasattr(x, "tolist") else x).encode())
    return h.hexdigest()[:12]


def build(case):
    import numpy as np
    import frds.algorithms._garch as g
    import frds.algorithms._mgarch as mg
    x, y = np.array(case["x"]), np.array(case["y"])
    o = {}
    mk = dict(
        u1=lambda: g.GARCHModel(x), u2=lambda: g.GARCHModel(y, zero_mean=case["zero_mean"]), v1=lambda: g.GJRGARCHModel(x), v2=lambda: g.GJRGARCHModel(y, zero_mean=case["zero_mean"]),
        d12=lambda: mg.GARCHModel_DCC(get("u1"), get("u2")), d21=lambda: mg.GARCHModel_DCC(get("u2"), get("u1")),
        da=lambda: mg.GARCHModel_DCC(x, get("u2")), j12=lambda: mg.GJRGARCHModel_DCC(get("v1"), get("v2")),
        cc=lambda: mg.GARCHModel_CCC(x, y))

    def get(n):
        if n not in o:
            o[n] = mk[n]()
        return o[n]
    def new(n):
        o.pop(n, None)
        return get(n)
    get.new = new
    return o, get


def call(get, op, n):
    m = get.new(n) if op == "new" else get(n)
    if op == "new":
        return "none"
    if op == "fit":
        return digest(m.fit())
    if op == "corr":
        return digest(m.conditional_correlations(0.05, 0.9)) if hasattr(m, "conditional_correlations") else "none"
    if op == "prep":
        return digest(m.preparation())
    import numpy as np
    if n in ("u1", "u2", "v1", "v2"):
        p = [0.1, 0.3, 0.1, 0.5] if n[0] == "u" else [0.1, 0.3, 0.1, 0.05, 0.5]
        if m.zero_mean:
            p = p[1:]
        e = m.returns - (0 if m.zero_mean else 0.1)
        return digest(m.loglikelihood_model(p, m.backcast(e), m.variance_bounds(e), **(dict(zero_mean=True) if m.zero_mean else {})))
    if n == "cc":
        return digest(m.loglikelihood_model([0.1, 0.2, 0.1, 0.6, 0.0, 0.3, 0.1, 0.5, 0.2], 0.0, 0.0, None, None))
    return digest(m.loglikelihood_model([0.1, 0.8]))


def state(m):
    p = m.parameters
    if not m.estimation_success:
        # the univariate part of a bivariate model may be in place already; its own estimates may not
        vals = [p.loglikelihood] + ([p.a, p.b] if hasattr(p, "a") else [getattr(p, "mu", p.loglikelihood)])
        return dict(est=False, digest="blank" if all(v != v for v in vals) else "estimates")
    return dict(est=True, digest=digest(p, *((m.resids, m.sigma2) if hasattr(m, "resids") else ())))


_refs = {}


def reference(case):
    key = digest(case["x"], case["y"], case["zero_mean"])
    if key not in _refs:
        ref, ret = {}, {"fit": {}, "corr": {}, "ll": {}, "prep": {}}
        for n in ("u1", "u2", "v1", "v2", "d12", "d21", "da", "j12", "cc"):
            _, get = build(case)
            ret["fit"][n] = call(get, "fit", n)
            ref[n] = state(get(n))["digest"]
            assert get(n).estimation_success
            for op in ("corr", "ll", "prep"):
                if (op == "corr" and n == "cc") or (op == "prep" and n[0] not in "uv"):
                    continue
                _, get = build(case)
                if op == "ll" and n[0] in "dj":
                    for part in (get(n).model1, get(n).model2):
                        part.fit()
                ret[op][n] = call(get, op, n)
        ret["corr"]["cc"] = "none"
        ret["new"] = dict.fromkeys(ref, "none")
        _refs[key] = (ref, ret)
    return _refs[key]


def execute(case, mode):
    import frds.algorithms._garch as g
    check_mode(mode)
    ref, ret = reference(case)
    o, get = build(case)
    if case["early"]:
        for _, n in case["hist"]:
            get(n)
    events = []
    for op, n in case["hist"]:
        if op == "ll" and n == "da":
            get(n).model1.fit()      # its first component is private
        r = call(get, op, n)
        events.append(dict(ret=r, state={k: state(m) for k, m in o.items()}))
    return dict(ref=ref, refret=ret, events=events)
