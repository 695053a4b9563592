#!/usr/bin/env python3
"""Checks the unchanged code against mutants of the specification.

Takes the mutants that tools/controls.py found to satisfy the model-checked laws and runs
the quick checks that use the module with each of them: a mutant is rejected when the
real code no longer conforms. One that is not rejected marks behaviour the checks do not
pin down.

    tools/conform.py CONTROLS.jsonl OUT.jsonl [module ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {"Garch": "C03 C04 C01 C02", "Dcc": "C08 C07 C09", "Lrmes": "C10 C11", "Micro": "C21 C22 C23", "Pin": "C19 C20",
          "Systemic": "C12 C13 C14 C15 C16", "OptionPrice": "C17 C18", "ModMerton": "C28 C29", "MertonFit": "C31", "IForest": "C24",
          "Grid": "C05", "Signature": "C32", "Machine": "C33", "Layout": "C26", "Lifecycle": "C06", "Workers": "C25", "Dataset": "C30"}


def run(m):
    work = tempfile.mkdtemp(prefix="frds-conform-")
    try:
        copy = work + "/verif"
        shutil.copytree(ROOT, copy, ignore=shutil.ignore_patterns(".git", "seeded", "out", "evidence"))
        path = f"{copy}/spec/{m['module']}.tla"
        lines = open(path).read().split("\n")
        # the mutated line as recorded; the original is the same line of the module
        at = m["line"] - 1
        mutated = [lines[at][:i] + m["new"] + lines[at][i + len(m["old"]):] for i in range(len(lines[at])) if lines[at].startswith(m["old"], i)]
        mutated = [x for x in mutated if x.strip()[:140] == m["text"]]
        if not mutated:
            return dict(m, conform="not found")
        lines[at] = mutated[0]
        open(path, "w").write("\n".join(lines))
        for p in CHECKS[m["module"]].split():
            r = subprocess.run([sys.executable, "-W", "ignore", "check.py", p, "quick"], cwd=copy, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return dict(m, conform=f"rejected by {p}")
            if r.returncode:
                return dict(m, conform=f"{p} does not run", why=r.stderr[-200:])
        return dict(m, conform="ACCEPTED")
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ms = [json.loads(l) for l in open(sys.argv[1])]
    ms = [m for m in ms if m["verdict"] == "SURVIVED" and m["module"] in (sys.argv[3:] or CHECKS) and m["module"] in CHECKS]
    with open(sys.argv[2], "a") as f, ThreadPoolExecutor(int(os.environ.get("W", "2"))) as ex:
        for res in ex.map(run, ms):
            f.write(json.dumps(res) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
