#!/usr/bin/env python3
"""Mutates the definitions of the specification and model-checks the result.

A mutant is killed when TLC reports a violated invariant or property (or a definition
that no longer evaluates); one that survives is not pinned down by the laws that are
model-checked, only by the executions of the real code judged against it.

    tools/controls.py OUT.jsonl [per-module limit] [module ...]

Run it from a copy of /verif: it edits files under spec/ while it runs.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lib import harness  # noqa: E402

TARGETS = {
    "Garch": ["C01MCq", "C02MCq", "C03MC", "GridMC"], "Dcc": ["DccMCq", "CccMC"], "Lrmes": ["LrmesMC"],
    "Micro": ["RatioMC", "BookMC", "SpreadMC"], "Pin": ["PinMC"],
    "Systemic": ["MesMC", "AbsorptionMC", "DipMC", "SesMCq", "SriskMCq"], "OptionPrice": ["OptionMC", "CcaMC"],
    "ModMerton": ["ModMertonMC"], "MertonFit": ["SimulationMC"], "IForest": ["IForestMC"], "Workers": ["Workers"],
    "Signature": ["CallForms"], "Grid": ["GridMC"], "Machine": ["Machine"], "Estimation": ["Estimation"],
    "Lifecycle": ["LifecycleMC"], "Multistart": ["Multistart"], "Dataset": ["Dataset"], "Layout": ["Layout"],
    "Purity": ["Purity"], "Calls": ["Calls"],
}
CFG = {"C01MCq": "C01MCq.cfg", "C02MCq": "C02MCq.cfg", "DccMCq": "DccMCq.cfg", "SesMCq": "SesMCq.cfg", "SriskMCq": "SriskMCq.cfg",
       "Estimation": "EstimationQ1.cfg", "LifecycleMC": "LifecycleA.cfg"}
SWAPS = [("RAdd(", "RSub("), ("RSub(", "RAdd("), ("RMul(", "RDiv("), ("RDiv(", "RMul("), ("RMin2(", "RMax2("), ("RMax2(", "RMin2("),
         ("RLt(", "RGt("), ("RGt(", "RLt("), ("RLe(", "RGe("), ("RGe(", "RLe("), ("RLt(", "RLe("), ("RGt(", "RGe("),
         (" /\\ ", " \\/ "), (" \\/ ", " /\\ "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" # ", " = "),
         (" + ", " - "), (" - ", " + "), ("- 1", "- 2"), ("+ 1", "+ 2"), ("1 ..", "2 .."), ("IF ", "IF ~ "), ("TRUE", "FALSE"), ("FALSE", "TRUE"),
         ('"0.5"', '"0.6"'), (" 0)", " 1)"), (" 1)", " 0)"), (" 2)", " 3)"), ("\\E ", "\\A "), ("\\A ", "\\E "), ("RSqrt(", "RAbs("),
         ("RExp(", "RAbs("), ("RNeg(", "RAbs("), ("\\cup", "\\cap"), ("@ +", "@ -"), ("Append(", "SubSeq(1, ")]


def config(mc, spec):
    cfg = CFG.get(mc, mc + "q.cfg")
    return cfg if os.path.exists(f"{spec}/{cfg}") else mc + "Q.cfg"


def strip(text):
    """Positions that are inside the module and not in a comment."""
    dead = [False] * len(text)
    comments = re.finditer(r"\(\*.*?\*\)", text, re.S)
    lines = re.finditer(r"\\\*[^\n]*|^-{4}.*$|^={4}.*$|^EXTENDS[^\n]*|^VARIABLES?[^\n]*|^vars ==[^\n]*|PrintT[^\n]*|ASSUME[^\n]*", text, re.M)
    for m in [*comments, *lines]:
        for i in range(*m.span()):
            dead[i] = True
    return dead


def mutants(mod):
    text = open(f"{harness.SPEC}/{mod}.tla").read()
    dead = strip(text)
    # the laws of a module that states its own are not what is mutated
    laws = set()
    for mc in TARGETS[mod]:
        for line in open(f"{harness.SPEC}/{config(mc, harness.SPEC)}"):
            laws.update(re.findall(r"\w+", line))
    for m in re.finditer(r"^(\w+)(\([^)]*\))? ==", text, re.M):
        if m.group(1) in laws and m.group(1) not in ("Spec", "Init", "Next"):
            n = re.search(r"^\S", text[m.end():], re.M)
            for i in range(m.start(), m.end() + (n.start() if n else 0)):
                dead[i] = True
    out = []
    for old, new in SWAPS:
        at = text.find(old)
        while at >= 0:
            if not dead[at]:
                out.append((at, old, new, text[:at] + new + text[at + len(old):]))
            at = text.find(old, at + 1)
    return out


def run(job):
    mod, (at, old, new, text) = job
    work = tempfile.mkdtemp(prefix="frds-ctl-")
    try:
        spec = work + "/spec"
        shutil.copytree(harness.SPEC, spec)
        open(f"{spec}/{mod}.tla", "w").write(text)
        line = text[:at].count("\n")
        res = dict(module=mod, line=line + 1, old=old, new=new, text=text.splitlines()[line].strip()[:140], verdict="SURVIVED")
        for mc in TARGETS[mod]:
            cfg = config(mc, spec)
            cmd = ["java", "-Xmx3g", "-Xss256m", "-cp", f"{harness.num_classes()}:{harness.TLA}/tla2tools.jar:{harness.TLA}/CommunityModules-deps.jar",
                   "tlc2.TLC", "-workers", "2", "-metadir", work, "-noGenerateSpecTE", "-deadlock", "-config", f"{spec}/{cfg}", f"{spec}/{mc}.tla"]
            try:
                r = subprocess.run(cmd, cwd=spec, capture_output=True, text=True, timeout=240)
            except subprocess.TimeoutExpired:
                res.update(verdict="timeout", by=mc)
                break
            o = r.stdout
            m = re.search(r"Invariant (\w+) is violated|(Temporal) properties were violated|Action property (\w+) is violated|(Assumption)", o)
            if m:
                res.update(verdict="killed", by=f"{mc}: " + next(g for g in m.groups() if g))
                break
            if "Parsing or semantic analysis failed" in o or "*** Errors" in o or "Parse Error" in o:
                res.update(verdict="invalid")
                break
            if r.returncode:
                res.update(verdict="killed", by=f"{mc}: evaluation", why=[l for l in o.splitlines() if "rror" in l][:2])
                break
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    out, limit = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 20
    r = random.Random(1)
    jobs = []
    for mod in sys.argv[3:] or TARGETS:
        ms = mutants(mod)
        r.shuffle(ms)
        jobs += [(mod, m) for m in ms[:limit]]
    harness.num_classes()
    with open(out, "a") as f, ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
        for res in ex.map(run, jobs):
            f.write(json.dumps(res) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
