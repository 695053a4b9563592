"""Executes the cases of one driver against the frds tree on PYTHONPATH and
writes one JSON line per case.  Floats are written as exact decimals."""
import importlib
import json
import os
import sys
import warnings
from decimal import Decimal

import numpy as np


def enc(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2**31 else str(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {"re": enc(x.real), "im": enc(x.imag)}
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return "NaN"
        if x in (float("inf"), float("-inf")):
            return "Infinity" if x > 0 else "-Infinity"
        return "0" if x == 0 else str(Decimal(x))
    if isinstance(x, str):
        return x
    if x is None:
        return "None"
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return [enc(v) for v in x.tolist()] if x.ndim <= 1 and x.ndim > 0 else ([enc(v) for v in x] if x.ndim else enc(x.item()))
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    raise TypeError(f"cannot record {type(x)}")


def main():
    name, mode, inp, out = sys.argv[1:]
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    try:
        driver = importlib.import_module(name)
        import frds
        assert frds.__file__.startswith(os.environ["FRDS_SCRATCH"]), frds.__file__
        cases = json.load(open(inp))
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
    with open(out, "w") as f:
        for case in cases:
            try:
                r = {"exc": ""}
                r.update(driver.execute(case, mode))
            except AssertionError as e:
                r = {"exc": "AssertionError", "msg": str(e)[:200]}
            except Exception as e:
                r = {"exc": type(e).__name__, "msg": str(e)[:200]}
            f.write(json.dumps(enc(r)) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
