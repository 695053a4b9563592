"""C24: isolation forest: trees and scores."""
from drivers.gen import length, rng, r6
from drivers import iforest

MODES = ["ext"]
EXTS = ["iforest_ext"]
SPEC = "IForestTrace"
MC = {"quick": [("IForestMC", "IForestMCq.cfg")], "thorough": [("IForestMC", "IForestMCq.cfg"), ("IForestMC", "IForestMCt.cfg")]}
ASSUMPTIONS = ["string columns hold ASCII text; columns of other types (booleans, dates) are not attributes"]


def text(r, kind, long=False):
    a = {"few": "ab", "codes": "A0Z19", "case": "aAbB", "high": "~!z "}[kind]
    stem = {"few": "Corporation Holdings No. ", "codes": "US00000000"}.get(kind, "") if long else ""      # names that differ late
    return [ord(ch) for ch in stem + "".join(r.choice(a) for _ in range(r.choice([1, 1, 2, 3, 8])))]


def scenarios(seed, tier, mc):
    r = rng(seed, "C24")
    r.shuffle(mc)
    out = []
    for m in mc[:300 if tier == "quick" else 6000]:
        n = len(m["num"][0])
        out.append(dict(num=[[float(v) for v in a] for a in m["num"]], chars=m["chars"], order=r.choice(["ns", "sn"]), index=list(range(n)),
                        treeSize=r.choice([1, 2, 3, 4, 8]), forestSize=r.choice([1, 3, 6]), seed=r.choice([1, 2, 1021]), name="AnomalyScore"))
    for k in range(130 if tier == "quick" else 2500):
        n = length(k, r.choice([1, 2, 5, 12, 30, 60]), (150, 300, 520))
        nn, nc = r.choice([(1, 0), (3, 0), (2, 2), (0, 2), (1, 1), (0, 1), (5, 3)])
        num = []
        for _ in range(nn):
            kind = r.choice(["wide", "ties", "missing", "missing", "const", "extreme", "int"])
            col = [r6(r.gauss(0, 1) * 10 ** r.uniform(-2, 3)) for _ in range(n)]
            if kind == "ties":
                col = [float(r.randrange(3)) for _ in range(n)]
            if kind == "int":
                col = [float(r.randrange(-50, 50)) for _ in range(n)]
            if kind == "const":
                col = [2.5] * n
            if kind == "extreme":
                col[r.randrange(n)] = r.choice([1e300, -1e300, 1e-300, -0.0])
                for _ in range(r.choice([0, 1, n // 3])):
                    col[r.randrange(n)] = r.choice([1, 1, -1]) * float("inf")
            if kind == "missing":
                for _ in range(r.choice([1, n // 2 + 1, n])):
                    col[r.randrange(n)] = float("nan")
            num.append(col)
        chars = [[text(r, kind, long) for _ in range(n)] for kind, long in ((r.choice(["few", "codes", "case", "high"]), r.random() < .4) for _ in range(nc))]
        order = ["n"] * nn + ["s"] * nc + ["x"] * r.choice([0, 0, 1]) + (["b"] * r.choice([0, 1]) + ["t"] * r.choice([0, 1]) if k % 3 == 1 else [])
        r.shuffle(order)
        if n > 2 and k % 3 == 0:      # rows that are equal in every attribute
            i, j = r.sample(range(n), 2)
            for a in num + chars:
                a[j] = a[i]
        index = list(range(n)) if k % 2 else r.choice([[f"id{i}" for i in range(n)][::-1], [i * 3 % 7 for i in range(n)]])
        types = ["int32" if all(abs(v) < 1e6 and v == int(v) for v in col) and r.random() < .6 else
                 "float32" if r.random() < .1 and all(v == 0 or 1e-30 < abs(v) < 1e30 or v != v or abs(v) == float("inf") for v in col) else "float64" for col in num]
        if "float32" in types:
            import struct
            num = [[struct.unpack("f", struct.pack("f", v))[0] for v in c] if t == "float32" else c for c, t in zip(num, types)]
        labels = r.sample(r.choice([range(20), ["zeta", "Alpha", "m", "beta", "a b", "x1", "x0", "Size", "id", "ROA", "_k", "9", "gamma"]]), len(order))
        out.append(dict(num=num, chars=chars, order=order, labels=labels, types=types, index=index, treeSize=r.choice([1, 2, 3, 4, 7, 8, 16, 33, 256]),
                        forestSize=r.choice([1, 2, 5, 9, 20]), seed=r.choice([0, 1, 5, 1021, 10 ** 6, -3]), name=r.choice(["AnomalyScore", "score"])))
    return out


def execute(case, mode):
    d = iforest.frame(case)
    before = d.copy(deep=True)
    r, t = iforest.call(case, d, **({} if case["name"] == "AnomalyScore" else dict(name=case["name"])))
    col = r.iloc[:, 0]
    return dict(scores=[float(v) for v in col], index=list(r.index), columns=list(r.columns),
                trees=[iforest.nodes(x) for x in t["trees"]], untouched=bool(d.equals(before) and (d.dtypes == before.dtypes).all()))
