"""C25: isolation forests under different processors, schedules and histories."""
import hashlib
import json
import os
import subprocess
import sys
from drivers.gen import length, rng, r6
from drivers import iforest
from drivers.c24 import text

MODES = ["ext"]
EXTS = ["iforest_ext", "utils_ext", "measures_ext"]
PRELOAD = "hc.c"
SPEC = "ForestTrace"
MC = {"quick": [("Workers", "Workersq.cfg")], "thorough": [("Workers", "Workerst.cfg")]}
FAULTS = [("WorkersFaults", "WorkersFaults_remainder.cfg"),
          ("WorkersFaults", "WorkersFaults_overlap.cfg"),
          ("WorkersFaults", "WorkersFaults_join.cfg")]
BEFORE = ["none", "none", "other", "draw", "fail", "garch", "same"]
ASSUMPTIONS = ["the number of processors is what std::thread::hardware_concurrency reports; schedules are those reached by delaying threads"]


def data(r, n, nn, nc):
    num = [[r6(r.gauss(0, 1)) if r.random() > .1 else float("nan") for _ in range(n)] for _ in range(nn)]
    chars = [[text(r, "few") for _ in range(n)] for _ in range(nc)]
    return dict(num=num, chars=chars, order=["n"] * nn + ["s"] * nc, index=list(range(n)))


def scenarios(seed, tier, mc):
    r = rng(seed, "C25")
    r.shuffle(mc)
    out = []

    def runs(ws):
        rs = [dict(workers=1, delay=0, before="none")]
        rs += [dict(workers=w, delay=r.randrange(1, 10 ** 6), before=r.choice(BEFORE)) for w in ws]
        return rs
    def case(n, f, ws, **kw):
        nn, nc = r.choice([(1, 0), (2, 1), (0, 1), (3, 2)])
        return dict(data(r, n, nn, nc), n=n, forestSize=f, treeSize=r.choice([1, 2, 4, 8, 64]), seed=r.choice([1, 7, 1021, 0, -2]), runs=runs(ws), **kw)
    for m in mc[:150 if tier == "quick" else 10000]:
        out.append(case(m["rows"], m["forest"], [m["workers"], m["workers"], r.choice([2, 3, 8])]))
    for k in range(40 if tier == "quick" else 600):
        n, f = length(k, r.choice([1, 2, 7, 8, 9, 23, 64, 101]), (400, 1100), 9, 14), length(k, r.choice([1, 3, 8, 15, 16, 33, 100]), (260,), 13)
        c = case(n, f, [r.choice([2, 3, 4, 5, 6, 7, 8, 16, 40, 128]) for _ in range(3)] + [0] * (k % 4 == 0))
        if k % 5 == 0:
            c["runs"].append(dict(workers=r.choice([1, 3, 8]), delay=0, before="process"))
        out.append(c)
    return out


def one(case):
    d = iforest.frame(case)
    s, t = iforest.call(case, d)
    return dict(events=[dict(what=w, index=i) for w, i, _ in t["events"]], scores=[float(v) for v in s.iloc[:, 0]],
                trees=hashlib.sha256(json.dumps(t["trees"]).encode()).hexdigest()[:16])


def execute(case, mode):
    import random
    import numpy as np
    import pandas as pd
    res = []
    for run in case["runs"]:
        os.environ["FAKE_HC"], os.environ["FAKE_DELAY"] = str(run["workers"]), str(run["delay"])
        b = run["before"]
        if b == "process":
            env = dict(os.environ)
            p = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__)], input=json.dumps(case), capture_output=True, text=True, env=env)
            if p.returncode:
                raise RuntimeError("another process failed: " + p.stderr[-150:])
            res.append(json.loads(p.stdout))
            continue
        if b in ("other", "fail"):
            rr = random.Random(run["delay"])
            oc = dict(data(rr, rr.choice([1, 5, 30]), 2, 1), forestSize=rr.choice([1, 20]), treeSize=rr.choice([1, 5, 300]), seed=rr.choice([1, 3]))
            from frds.algorithms.isolation_forest import anomaly_scores
            try:
                anomaly_scores(iforest.frame(oc) if b == "other" else pd.DataFrame({"s": ["\u00e9"]}), oc["forestSize"], oc["treeSize"])
            except UnicodeEncodeError:
                pass
        elif b == "draw":
            np.random.rand(5)
            random.random()
            np.random.seed(run["delay"])
        elif b == "garch":
            from frds.algorithms import GARCHModel
            GARCHModel.compute_variance([.1, .1, .8], np.ones(9), 1.0, np.array([[1e-6, 1e6]] * 9))
        elif b == "same":
            one(case)
        res.append(one(case))
    return dict(runs=res)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from lib.runner import enc
    print(json.dumps(enc(one(json.load(sys.stdin)))))
