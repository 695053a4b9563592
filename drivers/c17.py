"""C17: European option prices."""
from drivers.gen import rng, r6, history, run_calls

MODES = ["ext"]
EXTS = []
SPEC = "OptionTrace"
MC = {"quick": [("OptionMC", "OptionMCq.cfg")], "thorough": [("OptionMC", "OptionMCt.cfg")]}
ARGS = ["S", "K", "r", "T", "sigma", "q"]


def scenarios(seed, tier, mc):
    r = rng(seed, "C17")
    r.shuffle(mc)
    opts = [{a: float(m[a]) for a in ARGS} for m in mc[:500 if tier == "quick" else 8000]]
    for k in range(600 if tier == "quick" else 20000):
        S = 10 ** r.uniform(-3, 5)
        o = dict(S=r6(S), K=r6(S * 10 ** r.choice([0, r.uniform(-.1, .1), r.uniform(-2, 2)])), r=r6(r.choice([0, r.uniform(-.05, .3)])),
                 T=r6(10 ** r.uniform(-3, 1.7)), sigma=r6(10 ** r.uniform(-2, .5)), q=r6(r.choice([0, r.uniform(-.02, .1)])))
        if k % 10 == 0:
            o["K"], o["q"] = o["S"], o["r"]
        if k % 8 == 3:
            # about to expire, nearly without interest, paying out more than it is worth, volatile beyond measure
            o.update(r.choice([dict(T=r.choice([1e-6, 1e-4, .0005, r6(1 / 365)])), dict(r=r.choice([5e-5, -2e-5, 1e-7])),
                               dict(q=r.choice([-.8, 1.5])), dict(sigma=r6(r.uniform(3, 9))), dict(T=r6(r.uniform(50, 120)), q=0.0)]))
            if r.random() < .5:
                o["K"] = r6(o["S"] * r.choice([1, 1.001, .99]))
        opts.append(o)
    r.shuffle(opts)
    out, i = [], 0
    while i < len(opts):
        calls = []
        for form in r.sample(["scalar", "scalar", "array", "mixed", "list"], 2):
            n = 1 if form == "scalar" else 120 if len(out) in (40, 60, 80) else r.choice([1, 2, 5])
            o = opts[i:i + n]
            i += n
            if not o:
                break
            if form == "mixed":      # only spot and strike vary
                o = [dict(o[0], S=x["S"], K=x["K"]) for x in o]
            calls.append(dict(form=form, o=o))
        if calls:
            out.append(dict(calls=history(calls + calls[:1])))
    return out


def execute(case, mode):
    import numpy as np
    from frds.measures import blsprice
    watch = []

    def call(c):
        n = len(c["o"])
        if c["form"] == "scalar":
            o = c["o"][0]
            a, b = blsprice(o["S"], o["K"], o["r"], o["T"], o["sigma"], o["q"]) if o["q"] or len(str(o["S"])) % 2 else blsprice(o["S"], o["K"], o["r"], o["T"], o["sigma"])
        else:
            arr = lambda f: np.array([o[f] for o in c["o"]])
            if c["form"] == "mixed":
                args = [arr("S"), arr("K")] + [c["o"][0][f] for f in ARGS[2:]]
            else:
                args = [arr(f) for f in ARGS]
            copies = [np.copy(x) for x in args]
            a, b = blsprice(*args)
            watch.append(all(np.array_equal(x, y) for x, y in zip(args, copies)))
        return dict(call=np.atleast_1d(a), put=np.atleast_1d(b))
    res = run_calls(case["calls"], call)
    return dict(res, inputs_ok=all(bool(w) for w in watch))
