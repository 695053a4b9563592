#!/usr/bin/env python3
"""Mutation sampling: small token changes all over frds, each run against the quick checks of
the properties of that code.  mutate.py list | run OUT.jsonl SEED COUNT [FILE-SUBSTRING]
Survivors are read by hand: equivalent, outside any property, or a gap.
"""
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import tokenize

sys.path.insert(0, "/verif/tools")
import plant  # noqa: E402

REPO = os.environ.get("MUTATE_REPO", "/repo")
R = REPO + "/src/frds/"
A, S = "algorithms/", "measures/"
# file -> [(first line pattern or None, properties)], the last matching section counts
MAP = {
    A + "_garch.py": [(None, "C04 C03 C05 C06"), ("def loglikelihood_model", "C04 C01"), ("def preparation", "C03 C04 C05"), ("def compute_variance", "C01 C02"),
                      ("def forecast_variance", "C02 C01"), ("def backcast", "C03 C05"), ("def ewma", "C03"), ("def variance_bounds", "C03"), ("def bounds_check", "C01 C02"),
                      ("def starting_values", "C05 C04"), ("class GJRGARCHModel", "C04 C05 C02 C03 C06")],
    A + "_mgarch.py": [(None, "C07 C06"), ("class GARCHModel_DCC", "C08 C09 C05 C06")],
    A + "utils/garch.hpp": [(None, "C01 C02 C03")],
    A + "utils/mgarch.hpp": [(None, "C08 C26")],
    A + "utils/utils_module.cpp": [(None, "C26 C01 C02 C03 C08")],
    A + "isolation_forest/IsolationForest.cpp": [(None, "C24 C25")],
    A + "isolation_forest/__init__.py": [(None, "C24 C25 C27")],
    S + "_kyle_lambda.py": [(None, "C23")], S + "_z_score.py": [(None, "C23")],
    S + "measures_module.cpp": [(None, "C10 C26")], S + "lrmes.hpp": [(None, "C10 C26")],
    S + "spread.py": [(None, "C21")], S + "price_impact.py": [(None, "C21")], S + "lob_slope.py": [(None, "C22")],
    S + "modified_merton/mod_merton_create_lookup.py": [(None, "C29")],
    S + "modified_merton/mod_single_merton_create_lookup.py": [(None, "C29")],
    S + "modified_merton/find_face_value_indiv.py": [(None, "C28")],
    S + "modified_merton/loan_payoff.py": [(None, "C28")], S + "modified_merton/fftsmooth.py": [(None, "C28")],
    S + "modified_merton/merton_solution.py": [(None, "C28")],
    S + "modified_merton/mod_merton_computation.py": [(None, "C29")],
    S + "modified_merton/mod_single_cohort_computation.py": [(None, "C29")],
    S + "modified_merton/mod_single_cohort_solution.py": [(None, "C29")],
    S + "_contingent_claim_analysis.py": [(None, "C18")], S + "_marginal_expected_shortfall.py": [(None, "C14")],
    S + "_probability_of_informed_trading.py": [(None, "C20 C19")], S + "_srisk.py": [(None, "C12")],
    S + "_long_run_mes.py": [(None, "C11 C10")], S + "_option_price.py": [(None, "C17")],
    S + "_distress_insurance_premium.py": [(None, "C16")], S + "_absorption_ratio.py": [(None, "C13")],
    S + "_systemic_expected_shortfall.py": [(None, "C15")],
    S + "modified_merton/mod_merton_simulation.py": [(None, "C31")],
    "datasets/_stocks.py": [(None, "C30")],
}
SWAP = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "**": ["*"],
        "+=": ["-="], "-=": ["+="], "*=": ["/="], "/=": ["*="], "//": ["/"], "&&": ["||"], "||": ["&&"],
        "and": ["or"], "or": ["and"], "min": ["max"], "max": ["min"], "minimum": ["maximum"], "maximum": ["minimum"], "True": ["False"], "False": ["True"],
        "zeros": ["ones"], "ones": ["zeros"], "mean": ["median"], "nanmean": ["mean"], "sum": ["mean"], "abs": [""], "absolute": ["array"], "log": ["log1p"], "exp": ["expm1"], "true": ["false"], "false": ["true"],
        "sqrt": ["abs"], "continue": ["break"], "is": ["is not"], "not": [""], "std": ["var"], "any": ["all"], "all": ["any"], "isnan": ["isinf"], "cumsum": ["array"], "copy": ["view"], "else": []}


PAIRS = [("bid", "ask"), ("firm", "mkt"), ("firm", "market"), ("_i", "_m"), ("1", "2"), ("alpha", "beta"), ("gamma", "alpha"), ("lower", "upper"), ("buy", "sell"),
         ("_b", "_s"), ("call", "put"), ("mu", "omega"), ("L", "F"), ("B", "E"), ("D", "L"), ("left", "right"), ("num", "char"), ("B", "S"), ("_q", "_p"), ("resids", "returns"),
         ("min", "max"), ("i", "j"), ("later", ""), ("t", "t_1"), ("sigma2", "resids"), ("x", "y"), ("Et", "Lt"), ("H", "T"), ("r", "d"), ("y", "d")]


DEEP = "--deep" in sys.argv      # statements left out and names mixed up instead of single operators


def renames(t, names):
    """Other names of the same file that a slip of the pen could have put there."""
    out = set()
    for a, b in PAIRS:
        for u, v in ((a, b), (b, a)):
            if u and u in t:
                out.add(t.replace(u, v, 1))
                out.add(v.join(t.rsplit(u, 1)))
    return sorted((out & names) - {t})


def number(t):
    if re.fullmatch(r"\d+", t):
        n = int(t)
        return [str(n + 1)] + ([str(n - 1)] if n else [])
    try:
        return [repr(float(t) * 1.1)]
    except ValueError:
        return []


def tokens(path):
    src = open(path, newline="").read()
    if path.endswith(".py"):
        lines = src.splitlines(keepends=True)
        start = [0]
        for l in lines:
            start.append(start[-1] + len(l))
        depth_main = None
        for t in tokenize.generate_tokens(io.StringIO(src, newline="").readline):
            if t.type == tokenize.NAME and t.string == "__name__" and t.start[1] < 5:
                return
            if t.type in (tokenize.NAME, tokenize.OP, tokenize.NUMBER):
                yield start[t.start[0] - 1] + t.start[1], t.string, t.start[0]
    else:
        clean = re.sub(r"//[^\n]*|/\*.*?\*/|\"[^\"\n]*\"|#[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group()), src, flags=re.S)
        for m in re.finditer(r"[A-Za-z_]\w*|\d+\.\d+|\d+|<=|>=|==|&&|\|\||\+\+|--|->|::|\+=|-=|\*=|/=|<<|>>|[<>+\-*/]", clean):
            yield m.start(), m.group(), clean.count("\n", 0, m.start()) + 1


def mutants():
    for f, sections in MAP.items():
        src = open(R + f, newline="").read()
        lines = src.splitlines()
        props = {}
        cur = sections[0][1]
        for i, l in enumerate(lines, 1):
            for pat, p in sections[1:]:
                if pat in l:
                    cur = p
            props[i] = cur
        cpp = not f.endswith(".py")
        names = {t for _, t, _ in tokens(R + f) if re.match(r"[A-Za-z_]", t)}
        starts = [0]
        for l in src.splitlines(keepends=True):
            starts.append(starts[-1] + len(l))
        if DEEP:
            for i, l in enumerate(lines, 1):
                x = l.strip()
                if (re.fullmatch(r"[\w\[\]., :-]+ [-+*/]?= [^=].*;", x) and cpp and "const" not in x and not re.match(r"(double|size_t|auto|int|npy|Py|std|bool)", x)) or \
                   (not cpp and re.fullmatch(r"[a-z_][\w\[\]., :-]* [-+*/]?= [^=].*[^(,\[]", x) and l.startswith("    ") and x.count("(") == x.count(")") and x.count("[") == x.count("]")):
                    name = re.match(r"[\w]+", x).group()
                    if re.match(r"\w+ = ", x) and not any(re.match(rf"\s*(\w+, )*{name}(, \w+)* [-+*/]?= ", q) for q in lines[max(0, i - 40):i - 1]):
                        continue
                    yield dict(file=f, pos=starts[i - 1] + len(l) - len(l.lstrip()), old=x, new=";" if cpp else "pass", line=i, text=x[:110], props=props[i].split())
        for pos, t, line in tokens(R + f):
            text = lines[line - 1].strip()
            if text.startswith(("import", "from", "assert", "#", "raise", "PyErr", "@", "PyArray_FROM", "Py_", "static P")) or "trace" in text.lower():
                continue
            if cpp and t in ("<", ">", "*") and re.search(r"vector<|unique_ptr<|double \*|tuple<|\*\)|distribution<|PyObject|size_t>|Node>|_cast<|isolationtree>|\*\(DataType|char \*|const double", text, re.I):
                continue
            if t in ("-", "*", "**") and re.search(r"->|def |\*[a-z]", text) and t != "-":
                continue
            if DEEP and re.match(r"[A-Za-z_]", t):
                for new in renames(t, names):
                    yield dict(file=f, pos=pos, old=t, new=new, line=line, text=text[:110], props=props[line].split())
                continue
            if DEEP:
                continue
            for new in SWAP.get(t, []) + (number(t) if t[0].isdigit() else []):
                if cpp and (t == "std" or "std::" + t in text and new in ("expm1", "log1p")):
                    continue
                if cpp and new in ("log1p", "median", "array"):
                    new = {"log1p": "log10", "median": "", "array": ""}[new]
                yield dict(file=f, pos=pos, old=t, new=new, line=line, text=text[:110], props=props[line].split())


def run(m):
    work = tempfile.mkdtemp(prefix="mutate-")
    root = work + "/repo"
    try:
        shutil.copytree(REPO + "/src", root + "/src")
        p = root + "/src/frds/" + m["file"]
        s = open(p, newline="").read()
        if s[m["pos"]:m["pos"] + len(m["old"])] != m["old"]:
            return dict(m, verdict="the file has changed")
        s = s[:m["pos"]] + m["new"] + s[m["pos"] + len(m["old"]):]
        open(p, "w", newline="").write(s)
        if p.endswith(".py"):
            try:
                compile(s, p, "exec")
            except SyntaxError:
                return dict(m, verdict="syntax")
        for prop in m["props"]:
            try:
                r = plant.run([plant.PY, "-W", "ignore", "check.py", prop, "quick"], root, cwd=os.environ.get("VDIR", "/verif"), timeout=600)
            except subprocess.TimeoutExpired:
                return dict(m, verdict="timeout " + prop)
            if r.returncode == 1:
                return dict(m, verdict="caught " + prop)
            if r.returncode:
                return dict(m, verdict="broken " + prop, err=r.stderr[-200:])
        return dict(m, verdict="SURVIVED")
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    ms = list(mutants())
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ms), Counter(m["file"] for m in ms))
        sys.exit()
    out, seed, count = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    if len(sys.argv) > 5 and sys.argv[5] != "--deep":
        ms = [m for m in ms if sys.argv[5] in m["file"]]
    rnd = random.Random(seed)
    # spread over files
    by = {}
    for m in ms:
        by.setdefault(m["file"], []).append(m)
    for v in by.values():
        rnd.shuffle(v)
    chosen = []
    while len(chosen) < count and any(by.values()):
        for f in list(by):
            # files weigh by the root of their size
            if by[f] and rnd.random() < min(1, (len(by[f]) / 150) ** .5 + .15):
                chosen.append(by[f].pop())
    for m in chosen[:count]:
        t = time.time()
        r = run(m)
        r["secs"] = round(time.time() - t)
        with open(out, "a") as f:
            f.write(json.dumps(r) + "\n")
