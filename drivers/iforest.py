"""Runs the isolation forest with the trace hook (used by C24, C25)."""
import json
import os


def frame(case):
    import pandas as pd
    cols, nn, nc = {}, 0, 0
    labels = case.get("labels") or [f"c{j}" for j in range(len(case["order"]))]
    rows = range(len(case["index"]))
    for kind, label in zip(case["order"], labels):     # column order of the frame: numeric and string columns may be mixed
        if kind == "n":
            cols[label] = pd.Series(case["num"][nn], dtype=case["types"][nn] if "types" in case else "float64")
            nn += 1
        elif kind == "s":
            cols[label] = pd.Series(["".join(map(chr, v)) for v in case["chars"][nc]], dtype=object)
            nc += 1
        elif kind == "b":      # columns that are neither numbers nor strings
            cols[label] = pd.Series([i % 3 == 1 for i in rows], dtype=bool)
        elif kind == "t":
            cols[label] = pd.Series(pd.to_datetime([f"2020-01-{1 + 5 * i % 28:02d}" for i in rows]))
        else:
            cols[f"out{label}"] = pd.Series([float((7 * i) % 5) for i in rows])
    d = pd.DataFrame(cols)
    d.index = pd.Index(case["index"])
    return d


def nodes(x):
    if x is None:
        raise ValueError("a tree is missing")
    if "obs" in x:
        return x
    x = dict(x, l=nodes(x["l"]), r=nodes(x["r"]))
    if "value" in x:
        x["value"] = float("nan") if x["value"] is None else float(x["value"])
    return x


def call(case, data, **kw):
    from frds.algorithms.isolation_forest import anomaly_scores
    path = os.path.join(os.environ["FRDS_SCRATCH"], f"hook-{os.getpid()}.json")
    if os.path.exists(path):
        os.unlink(path)
    os.environ["FRDS_VERIF_TRACE"] = path
    try:
        exclude = [c for c in data.columns if str(c).startswith("out")]
        r = anomaly_scores(data, forest_size=case["forestSize"], tree_size=case["treeSize"], random_seed=case["seed"],
                           **(dict(exclude_cols=exclude) if exclude else {}), **kw)
    finally:
        del os.environ["FRDS_VERIF_TRACE"]
    text = open(path).read().replace(":inf", ":Infinity").replace(":-inf", ":-Infinity")
    t = json.loads(text)
    return r, t


def as_data(m):
    return [[float(v) for v in a] for a in m["num"]], m["chars"]
