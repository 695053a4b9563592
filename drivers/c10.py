"""C10: simulation paths of the long-run MES."""
from drivers.gen import length, check_mode, rng, r6, normals

MODES = ["ext", "pure"]
EXTS = ["utils_ext", "measures_ext"]
SPEC = "PathTrace"
MC = {"quick": [("LrmesMC", "LrmesMCq.cfg")], "thorough": [("LrmesMC", "LrmesMCt.cfg")]}


def P(mu, om, al, ga, be):
    return dict(mu=mu, omega=om, alpha=al, gamma=ga, beta=be)


def S0(fv, mv, fe, me, rho):
    return dict(fv=fv, mv=mv, fe=fe, me=me, rho=rho)


# the configurations of LrmesMC.tla
CONFIGS = [dict(pf=P(.1, .5, .1, .2, .6), pm=P(-.2, .3, .05, .3, .5), a=.05, b=.9, qbar=.5, s0=S0(4., 2., -1., 1., .4), C=-.01),
           dict(pf=P(0., 1., 0., 0., 0.), pm=P(0., 4., 0., 0., 0.), a=0., b=0., qbar=-.8, s0=S0(1., 1., 0., 0., -.8), C=0.),
           dict(pf=P(0., .5, .3, .4, .5), pm=P(0., .5, .2, 1., .3), a=.6, b=.4, qbar=.1, s0=S0(9., .25, 6., -1., .9), C=-.03),
           dict(pf=P(1., 2., .2, 0., .1), pm=P(.5, 1., .4, .2, .4), a=.5, b=0., qbar=.3, s0=S0(1., 1., 1., -2., .3), C=.02)]


def near(r, case, share):
    """The market's return shows in the event only: put the threshold next to it."""
    if r.random() < share and case["inn"]:
        p, v, e, total = case["pm"], case["s0"]["mv"], case["s0"]["me"], 0.0
        for _, y in case["inn"]:
            v = p["omega"] + (p["alpha"] + (p["gamma"] if e < 0 else 0)) * e * e + p["beta"] * v
            e = v ** .5 * y
            total += p["mu"] + e
        if abs(total) < 100:
            case = dict(case, C=float("%.12g" % (2.718281828459045 ** (total / 100) - 1 + r.choice([-1, 1]) * r.choice([1e-7, 1e-6, 1e-4]))))
    return case


def scenarios(seed, tier, mc):
    r = rng(seed, "C10")
    out = []
    if tier == "thorough" and len(mc) > 20000:
        r.shuffle(mc)
        mc = mc[:20000]
    for m in mc:
        inn = [[float(x), float(y)] for x, y in m["inn"]]
        out.append(near(r, dict(CONFIGS[m["k"] - 1], inn=inn), .3))
    for k in range(250 if tier == "quick" else 3000):
        p = lambda: P(r6(r.gauss(0, .2)), r6(r.uniform(.01, 2)), r6(r.uniform(0, .3)), r6(r.choice([0, r.uniform(0, .4)])), r6(r.uniform(0, .6)))
        a = r6(r.choice([0.0, r.uniform(0, .3)]))
        b = r6(r.choice([0.0, r.uniform(0, .6), .99 - a]))
        # firms that move with the market
        hi = r.choice([-1, 1]) * r.choice([.9995, .99999, .999]) if k % 8 == 3 else None
        h = length(k, r.choice([0, 1, 2, 5, 22, 60]), (252, 600, 1000))
        sd = r.choice([1, 1, 3])
        out.append(near(r, dict(pf=p(), pm=p(), a=a, b=b, qbar=hi or r6(r.uniform(-.9, .9)),
                        s0=S0(r6(r.uniform(.1, 9)), r6(r.uniform(.1, 9)), r6(r.gauss(0, 2)), r6(r.gauss(0, 2)), hi or r6(r.uniform(-.9, .9))),
                        C=r.choice([-.1, -.02, 0.0, -.2, .05, -.5]), inn=[[r6(u), r6(v)] for u, v in zip(normals(r, h, sd), normals(r, h, sd, -.3))]), .6))
    return out


def execute(case, mode):
    import numpy as np
    from frds.algorithms import GJRGARCHModel
    import frds.measures._long_run_mes as lm
    check_mode(mode, "frds.measures.measures_ext")
    pf, pm, s0 = case["pf"], case["pm"], case["s0"]
    inn = np.array(case["inn"], dtype=float).reshape(-1, 2)
    qbar = np.array([[1.0, case["qbar"]], [case["qbar"], 1.0]])
    inn0, q0 = inn.copy(), qbar.copy()
    if mode == "ext":
        f = lambda p: [p["mu"], p["omega"], p["alpha"], p["gamma"], p["beta"]]
        ret, ev = lm.ext.simulation(inn, case["C"], s0["fv"], s0["mv"], s0["fe"], s0["me"], case["a"], case["b"], s0["rho"], qbar, *f(pf), *f(pm))
    else:
        m = lm.LongRunMarginalExpectedShortfall(np.array([.01, -.02, .03]), np.array([.02, -.01, .01]))
        m.firm_model.parameters = GJRGARCHModel.Parameters(**pf)
        m.market_model.parameters = GJRGARCHModel.Parameters(**pm)
        ret, ev = m.simulation(inn, case["C"], s0["fv"], s0["mv"], s0["fe"], s0["me"], case["a"], case["b"], s0["rho"], qbar)
    assert np.array_equal(inn, inn0) and np.array_equal(qbar, q0), "arguments modified"
    return dict(ret=ret, event=bool(ev))
