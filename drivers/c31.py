"""C31: the simulation of Nagel and Purnanandam (2020)."""
from drivers.gen import rng

MODES = ["ext"]
EXTS = []
SPEC = "SimulationTrace"
MC = {"quick": [("SimulationMC", "SimulationMCq.cfg")], "thorough": [("SimulationMC", "SimulationMCt.cfg")]}
BATCH = 1
CASE_TIMEOUT = 800
ENV = {"MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
ASSUMPTIONS = ["the cubic interpolation of the lookup tables is scipy's griddata",
               "figures are read as matplotlib artists at the moment they are saved"]
# numbers of paths for which the smoothing windows are even
SIZES = [24, 30, 36, 40, 64, 70, 76, 80]


def scenarios(seed, tier, mc):
    r = rng(seed, "C31")
    m = mc[0]
    num = lambda v: [float(x) for x in v]
    p = {k: (int(float(v)) if k in ("T", "H") else float(v)) for k, v in m["p"].items()}
    model = lambda q: dict(T=int(float(q["T"])), rho=float(q["rho"]), sig=float(q["sig"]))
    base = dict(p=p, N=m["N"], fs=num(m["fs"]), tableFs=num(m["tableFs"]), tableF=num(m["tableF"]), debt=float(m["debt"]),
                single=model(m["single"]), borrower=model(m["borrower"]))
    out = []
    a = r.sample(SIZES[:4], 4)
    # histories of calls: the same again after another, another place
    for sizes, direcs, files in ([(a[:1] + a[1:2] + a[:1], ["abs", "cwd", "abs"], False), (a[2:3] + a[2:3], ["cwd", "rel"], True), ([r.choice(SIZES[4:])], ["slash"], False)]
                                 + ([] if tier == "quick" else [([n], [r.choice(["abs", "cwd", "rel"])], False) for n in SIZES + [104, 120, 144, 160, 200, 400]])):
        out.append(dict(base, calls=[dict(Nsim=n, direc=d) for n, d in zip(sizes, direcs)], files=files))
    return out


def execute(case, mode):
    import contextlib
    import io
    import os
    import random
    import re
    import tempfile
    import warnings
    import numpy as np
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.colors
    import matplotlib.figure
    import matplotlib.pyplot as plt
    from scipy.interpolate import griddata
    from frds.measures.modified_merton import mod_merton_simulation as sim
    from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
    from frds.measures.modified_merton.mod_single_merton_create_lookup import mod_single_merton_create_lookup
    keys = ("r", "T", "bookF", "H", "D", "rho", "ltv", "sig", "d", "y", "g")
    names = ("Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "mu", "F", "sigLt")
    rgba = lambda c: tuple(round(float(x), 6) for x in np.ravel(matplotlib.colors.to_rgba_array(c))[:4])
    xy = lambda a: [[float(x) for x in v] for v in np.ma.filled(np.ma.asarray(a, dtype=float), np.nan).T]

    def artists(ax):
        """Points and lines of a panel, labelled as its legend does."""
        legend = {}
        if ax.get_legend() is not None:
            handles = getattr(ax.get_legend(), "legend_handles", None) or ax.get_legend().legendHandles
            for h, t in zip(handles, ax.get_legend().get_texts()):
                legend.setdefault(key(h), []).append(t.get_text())
        every = [(a, "points", a.get_offsets()) for a in ax.collections] + [(a, "line", a.get_xydata()) for a in ax.lines]
        count = {}
        for a, _, _ in every:
            count[key(a)] = count.get(key(a), 0) + 1
        out = []
        for a, kind, data in every:
            x, y = xy(data)
            named = legend.get(key(a), [])
            out.append(dict(kind=kind, label=named[0] if len(named) == 1 and count[key(a)] == 1 else "", x=x, y=y))
        return out

    def key(a):
        if hasattr(a, "get_offsets"):
            f = a.get_facecolor()
            return ("points",) + rgba(f if len(f) else a.get_edgecolor())
        return ("line",) + rgba(a.get_color())

    top = tempfile.mkdtemp(prefix="c31-")
    home = os.getcwd()
    os.chdir(top)
    real = matplotlib.figure.Figure.savefig
    saved = []

    def savefig(self, fname, *a, **k):
        saved.append(dict(path=os.path.relpath(os.path.abspath(os.fspath(fname)), top), panels=[artists(ax) for ax in self.axes]))
        if case["files"]:
            real(self, fname, *a, **k)
    matplotlib.figure.Figure.savefig = savefig

    def one(i, c):
        where = {"abs": os.path.join(top, "d%d" % i), "rel": "d%d" % i, "slash": os.path.join(top, "d%d" % i) + "/", "cwd": None}[c["direc"]]
        here = os.path.join(top, "w%d" % i)
        os.mkdir(here)
        os.chdir(here)
        if where:
            os.mkdir(where)
        del saved[:]
        np.random.seed(3)
        random.seed(3)
        g0 = (repr(np.random.get_state()), random.getstate(), repr(warnings.filters))
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            if where is None:
                v = sim.simulate(c["Nsim"])
            else:
                v = sim.simulate(c["Nsim"], where)
        g1 = (repr(np.random.get_state()), random.getstate(), repr(warnings.filters))
        plt.close("all")
        root = os.path.relpath(os.path.abspath(where) if where else here, top)
        table = []
        for line in text.getvalue().splitlines():
            g = re.match(r"\s*(\S.*?)\s+([-+.\w]+)\s+([-+.\w]+)\s+([-+.\w]+)\s*$", line)
            try:
                table.append(dict(name=g.group(1), values=[float(g.group(k)) for k in (2, 3, 4)]))
            except (AttributeError, ValueError):
                pass
        files = []
        for f in saved:
            data = b""
            if case["files"] and os.path.exists(os.path.join(top, f["path"])):
                data = open(os.path.join(top, f["path"]), "rb").read()
            files.append(dict(f, path=os.path.relpath(f["path"], root), pdf=data.startswith(b"%PDF") and len(data) > 1000))
        os.chdir(top)
        return dict(table=table, figures=files, rng_ok=g0[:2] == g1[:2], warn_ok=g0[2] == g1[2])

    def reference(n):
        """The valuation and the lookup tables with the documented parameters."""
        p = case["p"]
        fs = np.array(case["fs"]).reshape(-1, 1)
        v = dict(zip(names, mod_merton_computation(fs, [p[k] for k in keys], case["N"], n)))
        K = len(case["fs"])
        out = {k: [float(x) for x in np.ravel(v[k])] for k in ("Lt", "Bt", "Et", "sigEt", "mFt", "mdef", "sigLt")}
        for k in ("LH", "BH", "EH", "FH", "face"):
            a = np.asarray(v[k], dtype=float).reshape(n, -1)
            out[k] = [[float(x) for x in a[:, j]] for j in range(K)]
        for which in ("single", "borrower"):
            q = case[which]
            xfs, xsig, xr, xF = np.meshgrid(case["tableFs"], q["sig"], p["r"], case["tableF"], indexing="ij")
            L, B, E, F, mdef, vol = mod_single_merton_create_lookup(p["d"], p["y"], q["T"], p["H"], case["debt"], q["rho"], p["ltv"], xfs, xr, xF, xsig,
                                                                    case["N"], n)
            out[which] = [float(x) for x in griddata((E.ravel(), vol.ravel()), mdef.ravel(), (np.ravel(v["Et"]), np.ravel(v["sigEt"])), method="cubic")]
        return out
    try:
        runs = [one(i, c) for i, c in enumerate(case["calls"])]
        shown = lambda u: repr((u["table"], [(f["path"], f["panels"]) for f in u["figures"]]))
        sizes = [c["Nsim"] for c in case["calls"]]
        refs = []
        again = True
        for i, n in enumerate(sizes):
            if n in sizes[:i]:
                k = sizes.index(n)
                again = again and shown(runs[i]) == shown(runs[k])
                # the same pictures need not be judged twice
                runs[i]["same"] = k + 1
                refs.append({})
                for f in runs[i]["figures"]:
                    f["panels"] = []
            else:
                runs[i]["same"] = i + 1
                refs.append(reference(n))
        return dict(runs=runs, refs=refs, again=again)
    finally:
        matplotlib.figure.Figure.savefig = real
        os.chdir(home)
        import shutil
        shutil.rmtree(top)
