"""Shared machinery of the checks: scratch builds of /repo, running the real code
in isolated processes, running TLC, verdicts, known findings and evidence.

No frds formula lives here: what the code should do is decided by the TLA+
specifications in /verif/spec, evaluated by TLC.
"""
import glob
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
from decimal import Decimal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FRDS_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
SPEC = os.path.join(VERIF, "spec")
NCPU = min(8, os.cpu_count() or 1)
HOOK = "FRDS_VERIF_TRACE"

ENV = dict(
    OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
    PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
)


class Broken(Exception):
    """The machinery could not decide: neither a pass nor a violation."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------
# scratch copies of the code under test

SOURCES = {
    "utils_ext": ("frds/algorithms/utils", "utils_module.cpp"),
    "iforest_ext": ("frds/algorithms/isolation_forest", "iforest_module.cpp"),
    "measures_ext": ("frds/measures", "measures_module.cpp"),
}


class Scratch:
    """A private directory with an `ext` tree (extensions built from /repo's
    working tree) and a `pure` tree (no extensions: the Python fallback)."""

    def __init__(self, exts, modes):
        self.dir = tempfile.mkdtemp(prefix="frds-verif-")
        self.trees = {}
        for mode in modes:
            dst = os.path.join(self.dir, mode)
            shutil.copytree(
                os.path.join(REPO, "src"), dst,
                ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.egg-info", "*.o"),
            )
            self.trees[mode] = dst
        if "ext" in modes and exts:
            with ThreadPoolExecutor(len(exts)) as pool:
                list(pool.map(self._build, exts))

    def _build(self, ext):
        folder, src = SOURCES[ext]
        folder = os.path.join(self.trees["ext"], folder)
        so = ext + sysconfig_suffix()
        inc = numpy_include()
        cmd = ["g++", "-fno-strict-overflow", "-DNDEBUG", "-O2", "-w", "-fPIC", "-shared", "-std=c++17",
               "-I" + inc[0], "-I" + inc[1], src, "-o", so, "-lpthread"]
        r = subprocess.run(cmd, cwd=folder, capture_output=True, text=True)
        if r.returncode:
            raise Broken(f"building {ext} failed:\n{r.stderr[-2000:]}")

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


_inc = None


def numpy_include():
    global _inc
    if _inc is None:
        r = subprocess.run(
            [PY, "-c", "import numpy,sysconfig;print(sysconfig.get_paths()['include']);print(numpy.get_include());"
                       "print(sysconfig.get_config_var('EXT_SUFFIX'))"],
            capture_output=True, text=True, check=True)
        _inc = r.stdout.split()
    return _inc


def sysconfig_suffix():
    return numpy_include()[2]


# --------------------------------------------------------------------------
# inputs as the specification reads them: floats are exact decimal strings

def encode(x):
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2**31 else str(x)
    if isinstance(x, float):
        if x != x:
            return "NaN"
        if x in (float("inf"), float("-inf")):
            return "Infinity" if x > 0 else "-Infinity"
        return "0" if x == 0 else str(Decimal(x))
    if x is None:
        return "None"
    if isinstance(x, dict):
        return {k: encode(v) for k, v in x.items()}
    return [encode(v) for v in x]


# --------------------------------------------------------------------------
# running the real code: one JSON line per case, in worker processes that may
# crash or hang without taking the check down

def execute(driver_name, cases, scratch, mode, extra_env=None, timeout=120, procs=NCPU, tag=""):
    """Runs driver.execute(case, mode) for every case; returns the outputs in order."""
    outs = [None] * len(cases)
    chunks = [list(range(k, len(cases), procs)) for k in range(procs)]
    chunks = [c for c in chunks if c]

    def work(kidx):
        k, idx = kidx
        todo = list(idx)
        while todo:
            inp = os.path.join(scratch.dir, f"in-{tag}{mode}-{k}.json")
            out = os.path.join(scratch.dir, f"out-{tag}{mode}-{k}.jsonl")
            with open(inp, "w") as f:
                json.dump([cases[i] for i in todo], f)
            open(out, "w").close()
            env = {k_: v for k_, v in os.environ.items() if not k_.startswith(("PYTHON", "LD_PRELOAD"))}
            env.update(ENV)
            env["PYTHONPATH"] = os.pathsep.join([scratch.trees[mode], VERIF])
            env["FRDS_SCRATCH"] = scratch.dir
            env.update(extra_env or {})
            p = subprocess.Popen([PY, os.path.join(VERIF, "lib", "runner.py"), driver_name, mode, inp, out],
                                 env=env, cwd=scratch.dir, stdout=subprocess.DEVNULL,
                                 stderr=open(os.path.join(scratch.dir, f"err-{tag}{mode}-{k}.txt"), "w"),
                                 start_new_session=True)
            last, seen, hung = time.time(), -1, False
            while p.poll() is None:
                time.sleep(0.02)
                n = os.path.getsize(out)
                if n != seen:
                    seen, last = n, time.time()
                elif time.time() - last > timeout:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            done = 0
            with open(out) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    outs[todo[done]] = json.loads(line)
                    done += 1
            if done == len(todo):
                return
            if p.returncode == 3:
                raise Broken("driver failed to start:\n" + open(os.path.join(scratch.dir, f"err-{tag}{mode}-{k}.txt")).read()[-3000:])
            outs[todo[done]] = {"exc": "TIMEOUT" if hung else "CRASH", "msg": f"exit {p.returncode}"}
            todo = todo[done + 1:]

    with ThreadPoolExecutor(len(chunks) or 1) as pool:
        list(pool.map(work, enumerate(chunks)))
    return outs


# --------------------------------------------------------------------------
# TLC

def num_classes():
    src = os.path.join(VERIF, "java", "Num.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(VERIF, ".cache", "cls-" + h)
    if not os.path.exists(os.path.join(d, "ok")):
        tmp = tempfile.mkdtemp(prefix="frds-cls-")
        r = subprocess.run(["javac", "-nowarn", "-cp", f"{TLA}/tla2tools.jar", "-d", tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise Broken("javac: " + r.stderr[-2000:])
        open(os.path.join(tmp, "ok"), "w").close()
        os.makedirs(os.path.dirname(d), exist_ok=True)
        try:
            shutil.copytree(tmp, d, dirs_exist_ok=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out or (
            "Running Random Simulation" in out and "Error:" not in out and rc == 0)
        if not m:
            m = re.findall(r"(\d+) states checked", out)      # simulation
            self.generated = self.distinct = int(m[-1]) if m else 0

    def tuples(self, tag):
        """The values the specification printed as JSON, one per line."""
        if not hasattr(self, "printed"):
            self.printed = []
            for line in self.out.splitlines():
                if line.startswith('"FRDS '):
                    self.printed.append(json.loads(re.sub(r"\\(.)", r"\1", line[6:-1])))
        return [t for t in self.printed if t[0] == tag]


def tlc(module, cfg, scratch_dir, env=None, workers=NCPU, heap="8g", timeout=800, args=(), check=True):
    meta = tempfile.mkdtemp(prefix="meta-", dir=scratch_dir)
    if not os.path.isabs(cfg):
        cfg = os.path.join(SPEC, cfg)
    cmd = ["java", f"-Xmx{heap}", "-Xss256m", "-XX:+UseParallelGC",
           "-cp", f"{num_classes()}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
           "-config", cfg, *args, os.path.join(SPEC, module + ".tla")]
    e = {k: v for k, v in os.environ.items() if k not in ("JAVA_TOOL_OPTIONS",)}
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC on {module} exceeded {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(l for l in r.stdout.splitlines() if not l.startswith(("Loading ", "Semantic processing", "Linting of", "Parsing file")))
    res = TLCResult(out, r.returncode, time.time() - t0)
    if check and not res.ok:
        raise Broken(f"TLC on {module} ({os.path.basename(cfg)}) did not complete:\n" + out[-4000:] + r.stderr[-1000:])
    return res


# --------------------------------------------------------------------------
# known findings

def known_findings(prop):
    res = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith(("#", "fixed:")):
                continue
            k = json.loads(line)
            if k["property"] == prop:
                res.append(k)
    return res


# --------------------------------------------------------------------------
# one check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.driver = importlib.import_module("drivers." + prop.lower())
        self.t0 = time.time()
        self.mc_states = self.mc_trans = 0
        self.mc_runs = []
        self.tags = {}

    def run(self, replay=None):
        d = self.driver
        modes = list(getattr(d, "MODES", ["ext"]))
        scratch = Scratch(getattr(d, "EXTS", []), modes)
        try:
            if hasattr(d, "run"):
                return d.run(self, scratch)
            mc = [] if replay else self.model_check(scratch)
            if replay:
                cases = json.load(open(replay))["cases"]
                cases = [c["in"] for c in cases]
            else:
                cases = d.scenarios(self.seed, self.tier, mc)
            traces = self.record(cases, scratch, modes)
            return self.validate(traces, scratch)
        finally:
            if not os.environ.get("FRDS_KEEP"):
                scratch.remove()
            else:
                log("kept", scratch.dir)

    def model_check(self, scratch):
        """Exhaustive runs of the design models; returns the scenarios they emit."""
        scen = []
        for module, cfg, *rest in getattr(self.driver, "MC", {}).get(self.tier, []) or getattr(self.driver, "MC", {}).get("quick", []):
            args = list(rest[0]) if rest else []
            if "-seed" in args:
                args[args.index("-seed") + 1] = str(self.seed + int(args[args.index("-seed") + 1]))
            r = tlc(module, cfg, scratch.dir, args=args, workers=1 if args else NCPU)
            self.mc_states += r.distinct
            self.mc_trans += r.generated
            # an order that depends on the seed only, not on how TLC's workers explored
            found = sorted((t[1] for t in r.tuples("SCEN")), key=lambda v: json.dumps(v, sort_keys=True))
            random.Random(self.seed).shuffle(found)
            scen += found
            self.mc_runs.append(dict(module=module, cfg=cfg, distinct=r.distinct, generated=r.generated,
                                     scenarios=len(found), wall_s=round(r.wall, 1)))
        # faulty designs, which the same laws must reject
        for module, cfg in getattr(self.driver, "FAULTS", []):
            r = tlc(module, cfg, scratch.dir, check=False)
            law = re.search(r"(Invariant (\w+) is violated|(?:Temporal|Action) property|Temporal properties were violated)", r.out)
            if not law:
                raise Broken(f"TLC on {module} ({cfg}) does not reject a faulty design:\n" + r.out[-2000:])
            self.mc_runs.append(dict(module=module, cfg=cfg, rejected=law.group(2) or "a temporal property", wall_s=round(r.wall, 1)))
        return scen

    def record(self, cases, scratch, modes):
        d = self.driver
        traces = []
        extra = dict(getattr(d, "ENV", {}))
        if getattr(d, "PRELOAD", None):
            so = os.path.join(scratch.dir, "preload.so")
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "lib", d.PRELOAD), "-ldl", "-lpthread"], check=True)
            extra["LD_PRELOAD"] = so
        with ThreadPoolExecutor(len(modes)) as pool:
            outs = list(pool.map(lambda m: execute(d.__name__, cases, scratch, m, extra_env=extra, timeout=getattr(d, "CASE_TIMEOUT", 120),
                                                   procs=max(1, NCPU // len(modes))), modes))
        for ci, c in enumerate(cases):
            if getattr(d, "MERGE", False):
                traces.append(dict(mode="+".join(modes), **{"in": c}, out={m: outs[mi][ci] for mi, m in enumerate(modes)}))
            else:
                for mi, m in enumerate(modes):
                    o = outs[mi][ci]
                    if o is not None and o.get("exc") == "SKIP":
                        continue
                    traces.append(dict(mode=m, **{"in": c}, out=o))
        for k, t in enumerate(traces):
            t["id"] = k + 1
            t["raw"] = t["in"]
            t["in"] = encode(t["in"])
        return traces

    def validate(self, traces, scratch):
        d = self.driver
        fails = {}
        self.val = dict(states=0, transitions=0)
        done = {}
        size = getattr(d, "BATCH", 4000)
        for b in range(0, len(traces), size):
            batch = traces[b:b + size]
            path = os.path.join(scratch.dir, "trace.json")
            with open(path, "w") as f:
                pass
            self.consume(d, scratch, path, [(b + k + 1, t) for k, t in enumerate(batch)], done, fails)
        missing = [t["id"] for t in traces if t["id"] not in done]
        if missing:
            raise Broken(f"{len(missing)} traces were not consumed by the specification, first {missing[:5]}")
        return self.verdict(traces, fails)

    def consume(self, d, scratch, path, batch, done, fails):
        """Validates one batch.  An observation outside the types of the specification
        (TLC cannot evaluate a clause on it) is a violation of its own; the other
        executions of the batch are still validated."""
        broken = 0
        while batch:
            with open(path, "w") as f:
                json.dump([dict(id=k + 1, mode=t["mode"], **{"in": t["in"]}, out=t["out"]) for k, (_, t) in enumerate(batch)], f)
            r = tlc(d.SPEC, d.SPEC + ".cfg", scratch.dir, env={"FRDS_TRACE": path}, heap=getattr(d, "HEAP", "8g"), check=False)
            self.val["states"] += r.distinct
            self.val["transitions"] += r.generated
            for t in r.tuples("DONE"):
                tid = batch[t[1] - 1][0]
                if tid not in done:
                    done[tid] = t[2]
                    for tag in t[2]:
                        self.tags[tag] = self.tags.get(tag, 0) + 1
            for t in r.tuples("FAIL"):
                fl = fails.setdefault(batch[t[1] - 1][0], [])
                if t[2:] not in fl:
                    fl.append(t[2:])
            if r.ok:
                return
            m = re.search(r"The behavior up to this point is:.*?\bc = (\d+)", r.out, re.S) or \
                re.search(r"while working on the initial state:.*?\bc = (\d+)", r.out, re.S)
            if not m:
                raise Broken(f"TLC on {d.SPEC} did not complete:\n" + r.out[-4000:])
            broken += 1
            k = int(m.group(1)) - 1
            msg = re.search(r"Error: (.*?)(?=\nError: The behavior|\Z)", r.out, re.S).group(1)
            fails.setdefault(batch[k][0], []).append(["observation has the type the specification gives it", " ".join(msg.split())[:1200]])
            done.setdefault(batch[k][0], [])
            batch = [x for x in batch[:k] + batch[k + 1:] if x[0] not in done]
            if broken == 25:
                # enough to report; the others are left unjudged
                for tid, _ in batch:
                    done[tid] = []
                return

    def verdict(self, traces, fails):
        prop = self.prop
        known = known_findings(prop)
        hit = {}
        new = []
        for tid in sorted(fails):
            t = traces[tid - 1]
            clauses = sorted({str(f[0]) for f in fails[tid]})
            key = t["in"].get("key", "") if isinstance(t["in"], dict) else ""
            for k in known:
                if k.get("key") == key and set(clauses) <= set(k.get("clauses", clauses)):
                    hit.setdefault(k["what"], []).append(tid)
                    break
            else:
                new.append((t, fails[tid]))
        for k in known:
            if k["what"] in hit:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        outdir = os.path.join(VERIF, "out", prop)
        shutil.rmtree(outdir, ignore_errors=True)
        if new:
            os.makedirs(outdir)
            by_clause = {}
            for t, fs in new:
                by_clause.setdefault(str(fs[0][0]), []).append((t, fs))
            for n, (cl, lst) in enumerate(sorted(by_clause.items(), key=lambda x: -len(x[1]))[:5]):
                p = os.path.join(outdir, f"replay-{n}.json")
                with open(p, "w") as f:
                    json.dump(dict(property=prop, clause=cl, count=len(lst),
                                   cases=[dict(mode=t["mode"], failed=fs[:8], **{"in": t["raw"]}, out=t["out"]) for t, fs in lst[:3]]), f, indent=1)
                print(f"VIOLATION property={prop} replay={p}")
                print(f"  {len(lst)} traces rejected at clause '{cl}', e.g. {json.dumps(lst[0][1][:3])[:600]}")
        self.evidence(traces, len(new))
        return 1 if new else 0

    def evidence(self, traces, violations, extra=None):
        d = self.driver
        samples = []
        for t in traces[:: max(1, len(traces) // 3)][:3]:
            s = json.dumps(dict(mode=t["mode"], **{"in": t["raw"]}, out=t["out"]))
            samples.append(s if len(s) < 3000 else s[:3000] + " ...")
        modes = {}
        for t in traces:
            modes[t["mode"]] = modes.get(t["mode"], 0) + 1
        cov = dict(
            states=self.mc_states + self.val["states"],
            transitions=self.mc_trans + self.val["transitions"],
            traces_validated_against_impl=len(traces),
            samples=samples,
            design_models=self.mc_runs,
            trace_validation=dict(spec=d.SPEC, **self.val, traces_per_configuration=modes),
            situations_covered={k: self.tags[k] for k in sorted(self.tags)},
        )
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=getattr(d, "LEVEL", "model_checking"),
                  coverage=cov, assumptions=getattr(d, "ASSUMPTIONS", []) + BASE_ASSUMPTIONS,
                  wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{self.prop} {self.tier}: {len(traces)} traces, {cov['states']} states, {violations} violations, {ev['wall_s']} s")


BASE_ASSUMPTIONS = [
    "TLC and the arithmetic evaluator java/Num.java (checked by spec/SelfTest.tla) are correct",
    "the recorded inputs and outputs are those of the executed calls (lib/runner.py)",
]
