#!/usr/bin/env python3
"""Plants bugs.  Usage: plant.py FILE.py [ID ...]

FILE defines BUGS, a list of dict(id, property, edits=[(file, old, new), ...], demo (python
source, asserts), needs, breaks).  For each: copies /repo, applies the edits, builds, runs the
stable tests, runs the demonstration with and without the change, writes /verif/seeded/<id>/
when all is as required, and runs the property's quick check against the copy.
plant.py --verify ID...   re-runs the check on existing seeded changes.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import glob
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
EXTS = [("frds/algorithms/utils", "utils_module.cpp", "utils_ext"),
        ("frds/algorithms/isolation_forest", "iforest_module.cpp", "iforest_ext"),
        ("frds/measures", "measures_module.cpp", "measures_ext")]


def build(root):
    inc = subprocess.run([PY, "-c", "import numpy,sysconfig;print(sysconfig.get_paths()['include'], numpy.get_include(), sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True).stdout.split()
    for d, src, name in EXTS:
        r = subprocess.run(["g++", "-fno-strict-overflow", "-DNDEBUG", "-O2", "-w", "-fPIC", "-shared", "-std=c++17", "-I" + inc[0], "-I" + inc[1], src,
                            "-o", name + inc[2], "-lpthread"], cwd=f"{root}/src/{d}", capture_output=True, text=True)
        if r.returncode:
            return r.stderr[-1500:]


def run(cmd, root, **kw):
    env = dict(os.environ, PYTHONPATH=f"{root}/src", PYTHONDONTWRITEBYTECODE="1", FRDS_REPO=root, VERIF_SEED="1")
    return subprocess.run(cmd, env=env, capture_output=True, text=True, **kw)


def tests(root):
    paths = ["::".join(["/".join(t.split("::")[0].split(".")) + ".py"]) for t in STABLE]
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", *sorted(set(paths)), "-rA"], root, cwd=root)
    ok = [t for t in STABLE if any(l.startswith("PASSED") and t.split("::")[1] == l.strip().split("::")[-1] for l in r.stdout.splitlines())]
    return sorted(set(STABLE) - set(ok))


def check(prop, root):
    r = run([PY, "check.py", prop, "quick"], root, cwd=V)
    return r.returncode, (r.stdout.strip().splitlines() or [""]) [:6], r.stderr[-600:]


def plant(b):
    out = [f"== {b['id']} ({b['property']})"]
    work = tempfile.mkdtemp(prefix="plant-")
    root = work + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", root], check=True)
        clean = work + "/clean"
        demo = work + "/demo"
        os.makedirs(demo)
        open(demo + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(demo + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        for f, src in b.get("files", {}).items():
            open(f"{demo}/{f}", "w").write(src)
        r0 = run(["bash", demo + "/demo.sh"], "/repo", cwd="/repo")
        if r0.returncode:
            return "\n".join(out + ["DEMO FAILS ON CLEAN", r0.stdout[-500:], r0.stderr[-1500:]])
        for f, old, new in b["edits"]:
            p = f"{root}/{f}"
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return "\n".join(out + [f"EDIT matches {s.count(old)} times in {f}: {old[:60]}"])
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", root, "diff"], capture_output=True).stdout
        e = build(root)
        if e:
            return "\n".join(out + ["BUILD", e])
        bad = tests(root)
        if bad:
            return "\n".join(out + ["TESTS FAIL", str(bad)])
        r1 = run(["bash", demo + "/demo.sh"], root, cwd=root)
        if r1.returncode == 0:
            return "\n".join(out + ["DEMO PASSES WITH PATCH"])
        out.append("demo: " + (r1.stderr.strip().splitlines() or [""])[-1][:200])
        d = f"{V}/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(demo, d)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/patch.diff", "wb").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc, o, err = check(b["property"], root)
        out.append(f"check rc={rc} " + ("CAUGHT " if rc == 1 else "MISSED ") + " | ".join(o) [:500])
        if rc not in (0, 1):
            out.append(err)
        return "\n".join(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def verify(i):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    work = tempfile.mkdtemp(prefix="plant-")
    root = work + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", root], check=True)
        r = subprocess.run(["git", "-C", root, "apply", f"{V}/seeded/{i}/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return f"{i}: does not apply: {r.stderr[:200]}"
        rc, o, err = check(m["property"], root)
        return f"{i} ({m['property']}): " + ("CAUGHT " if rc == 1 else f"MISSED rc={rc} ") + " | ".join(o)[:300] + ("" if rc in (0, 1) else err)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--verify":
        ids = sys.argv[2:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/meta.json"))
        for i in ids:
            print(verify(i), flush=True)
    else:
        bugs = runpy.run_path(sys.argv[1])["BUGS"]
        ids = sys.argv[2:]
        for b in bugs:
            if not ids or b["id"] in ids:
                print(plant(b), flush=True)
