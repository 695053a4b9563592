"""C15: systemic expected shortfall."""
from drivers.gen import length, rng, r6, normals, history, run_calls, as_float

MODES = ["ext"]
EXTS = []
SPEC = "SesTrace"
MC = {"quick": [("SesMCq", "SesMCq.cfg")], "thorough": [("SesMCq", "SesMCt.cfg")]}
ASSUMPTIONS = ["training samples determine the coefficients (no near-collinear regressors, b + c does not cancel)"]


def scenarios(seed, tier, mc):
    r = rng(seed, "C15")
    r.shuffle(mc)
    out = []

    def calls():
        c = [dict(version="BFLV2012", mes=r6(r.uniform(-.1, .2)), lvg=r6(r.choice([1, 10, 30]) * r.random())) for _ in range(2)]
        x = dict(c[0], version=r.choice(["APPR2017", "BFVL2012", "bflv2012", "", "other"]))
        if r.random() < .3:
            c[1] = dict(c[1], **r.choice([dict(mes=0.0), dict(lvg=0.0), dict(mes=0.0, lvg=0.0), dict(mes=-c[1]["mes"])]))
        return history([c[0], c[1], x, c[0]])
    for m in mc[:800 if tier == "quick" else 6000]:
        out.append(dict(mes=as_float(m["mes"]), lvg=as_float(m["lvg"]), ses=as_float(m["ses"]), calls=calls()))
    for k in range(400 if tier == "quick" else 5000):
        n = length(k, r.choice([3, 4, 5, 20, 100]))
        s1, s2, s3 = (10 ** r.uniform(r.choice([-3, -7]), 3) if k % 3 == 0 else 1 for _ in range(3))
        mes = [s1 * v for v in normals(r, n, .02, r.choice([0, .03]))]
        lvg = [s2 * abs(v) for v in normals(r, n, 5, r.choice([0, 12]))]
        b, c = r.uniform(-3, 3), r.uniform(-3, 3)
        ses = [s3 * (r.gauss(0, r.choice([0, .1, 1])) + b * x + c * y + .2) for x, y in zip(mes, lvg)]
        out.append(dict(mes=[r6(v) for v in mes], lvg=[r6(v) for v in lvg], ses=[r6(v) for v in ses], calls=calls()))
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures import SystemicExpectedShortfall as S
    a = [np.array(case[f]) for f in ("mes", "lvg", "ses")]
    call = lambda ses: (lambda c: dict(value=float(S(a[0], a[1], ses, c["mes"], c["lvg"]).estimate(c["version"]))))
    res = run_calls(case["calls"], call(a[2]), a)
    ok = lambda f: [f(c)["value"] if c["version"] == "BFLV2012" else 0 for c in case["calls"]]
    return dict(res, shifted=ok(call(a[2] + float(np.ptp(a[2])))), scaled=ok(call(a[2] * 4)))
