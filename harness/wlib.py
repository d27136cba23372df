"""Common code of the workers, which run on the real code under /opt/venv."""
import json, os, sys, traceback, warnings
warnings.filterwarnings("ignore")

IN, OUT, BACKEND = sys.argv[1], sys.argv[2], sys.argv[3]
payload = json.load(open(IN))
_out = open(OUT, "w")

import mrmustard
assert os.path.realpath(mrmustard.__file__).startswith(os.path.realpath(os.environ["PYTHONPATH"].split(":")[0]) + "/"), mrmustard.__file__
from mrmustard import math, settings
if BACKEND != "numpy":
    math.change_backend(BACKEND)
settings.PROGRESSBAR = False
import numpy as np


def emit(**rec):
    _out.write(json.dumps(rec, default=_default) + "\n")
    _out.flush()


def _default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)


def done():
    emit(done=True)
    _out.close()
    sys.stdout.flush()
    os._exit(0)


def exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/mrmustard/" in fr.filename:
            where = f" at {fr.filename.split('/mrmustard/')[-1]}:{fr.name}"
            break
    return f"{type(e).__name__}: {str(e)[:300]}{where}"


def arr(x):
    return np.asarray(math.asnumpy(x))


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(b), 1)) and np.all(np.isfinite(a)))
