"""C30: the sample dataset."""
from drivers.gen import rng

MODES = ["ext"]
EXTS = []
SPEC = "DatasetTrace"
MC = {"quick": [("Dataset", "DatasetQ.cfg")], "thorough": [("Dataset", "DatasetT.cfg")]}
FAULTS = [("DatasetFaults", "DatasetFaults.cfg")]

ACCESS = ["access", "access", "instance", "threads", "elsewhere", "again"]
HOW = dict(values=["values", "iloc", "column", "drop rows", "drop column", "new column", "new row", "multiply", "sort", "fill", "view"],
           index=["index.values", "index name", "index assigned", "reset index"],
           columns=["columns.values", "rename", "columns name", "columns assigned", "attrs"])


def scenarios(seed, tier, mc):
    r = rng(seed, "C30")
    r.shuffle(mc)
    out = [dict(kind="content", ops=[])]
    for m in mc[:250 if tier == "quick" else 2500]:
        ops = []
        for what, k, part in m["hist"]:
            if what == "access":
                ops.append(dict(what=r.choice(ACCESS), frame=0, how=""))
            else:
                ops.append(dict(what="modify", frame=k, how=r.choice(HOW[part])))
        out.append(dict(kind="history", ops=ops + [dict(what=r.choice(ACCESS), frame=0, how="")]))
    return out


def modify(f, how):
    import numpy as np
    import pandas as pd
    if f.shape[0] < 5 or f.shape[1] < 2 or f.index.nlevels > 1:
        return
    col = f.columns[0]
    if how == "values":
        f.values[1, 1] = 9.0
    elif how == "iloc":
        f.iloc[0, 0] = 5.0
    elif how == "column":
        f[col] = 0.0
    elif how == "drop rows":
        f.drop(f.index[:3], inplace=True)
    elif how == "drop column":
        f.drop(columns=[col], inplace=True)
    elif how == "new column":
        f["extra"] = 1.0
    elif how == "new row":
        f.loc[f.index[-1] if f.index.dtype.kind != "M" else pd.Timestamp("2030-01-01")] = 0.0
    elif how == "multiply":
        f *= 100
    elif how == "sort":
        f.sort_values(col, inplace=True)
    elif how == "fill":
        f.where(f > 0, 0.0, inplace=True)
    elif how == "view":
        f[col].to_numpy(copy=False)[:] = 3.0
    elif how == "index.values":
        if f.index.dtype.kind == "M":
            f.index.values[0] = np.datetime64("1999-01-01")
    elif how == "index name":
        f.index.name = "when"
    elif how == "index assigned":
        f.index = range(len(f))
    elif how == "reset index":
        f.reset_index(drop=True, inplace=True)
    elif how == "columns.values":
        f.columns.values[0] = "changed"
    elif how == "rename":
        f.rename(columns={col: "x"}, inplace=True)
    elif how == "columns name":
        f.columns.name = "ticker"
    elif how == "columns assigned":
        f.columns = [f"c{k}" for k in range(f.shape[1])]
    elif how == "attrs":
        f.attrs["seen"] = True


def execute(case, mode):
    import csv
    import hashlib
    import io
    import os
    import sys
    import threading
    import zipfile
    import numpy as np
    for m in [m for m in sys.modules if m.startswith("frds.datasets")]:
        del sys.modules[m]
    import frds.datasets as ds
    path = os.path.join(os.path.dirname(ds.__file__), "stocks_us.csv.zip")
    with zipfile.ZipFile(path) as z:
        rows = list(csv.reader(io.TextIOWrapper(z.open(z.namelist()[0]), "utf-8")))
    head, rows = rows[0][1:], rows[1:]
    days = [int(np.datetime64(r[0][:10], "D").astype(int)) for r in rows]
    day = lambda f: np.asarray(f.index.values.astype("datetime64[D]").astype(int)).tolist()

    def digest(names, days, name, table, fmt):
        return hashlib.sha256(repr((list(names), name, days, [[fmt % v for v in r] for r in table])).encode()).hexdigest()

    def look(f):
        g = [str(c) for c in f.columns], day(f), str(f.index.name), f.to_numpy().tolist()
        extra = repr((f.columns.name, sorted(f.attrs), [str(t) for t in f.dtypes]))
        return digest(*g, "%.9g"), digest(*g, "%r") + extra
    if case["kind"] == "content":
        f = ds.StockReturns.stocks_us
        return dict(days=day(f), columns=[str(c) for c in f.columns], rows=[f[c].tolist() for c in f.columns], archive_days=days,
                    archive=[[float(r[1 + head.index(str(c))]) for r in rows] if str(c) in head else [] for c in f.columns])
    frames, seen, exact = [], [], []
    here = os.getcwd()
    for op in case["ops"]:
        if op["what"] == "modify":
            try:
                modify(frames[op["frame"] - 1], op["how"])
            except (ValueError, KeyError, TypeError):      # pandas refuses: nothing changed
                pass
            continue
        if op["what"] == "instance":
            f = type(ds.StockReturns)().stocks_us
        elif op["what"] == "again":
            ds.StockReturns.stocks_us
            f = ds.StockReturns.stocks_us
        elif op["what"] == "elsewhere":
            os.chdir("/")
            try:
                f = ds.StockReturns.stocks_us
            finally:
                os.chdir(here)
        elif op["what"] == "threads":
            got = []
            go = threading.Barrier(4)
            def work():
                go.wait()
                got.append(ds.StockReturns.stocks_us)
            ts = [threading.Thread(target=work) for _ in range(4)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            looks = {look(g) for g in got}
            f = got[0] if len(looks) == 1 and len(got) == 4 else None
            if f is None:
                return dict(archive="", seen=["threads disagree"], exact=[])
        else:
            f = ds.StockReturns.stocks_us
        frames.append(f)
        a, b = look(f)
        seen.append(a)
        exact.append(b)
    return dict(archive=digest(head, days, "Date", [[float(v) for v in r[1:]] for r in rows], "%.9g"), seen=seen, exact=exact)
