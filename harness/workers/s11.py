"""Replays histories of Settings.tla on mrmustard.settings with real nested `with` blocks."""
from wlib import *
from mrmustard.lab import (Ket, DM, Unitary, Channel, Ggate, Interferometer, RealInterferometer, PNRSampler, TwoModeSqueezedVacuum,
                           SqueezedVacuum, Number, BSgate, Circuit)
import mrmustard.utils.settings as smod

root = os.path.join(os.getcwd(), "scratch")
os.makedirs(root)
open(os.path.join(root, "file"), "w").close()
NAMES = ["HBAR", "SEED", "CACHE_DIR", "AUTOSHAPE_PROBABILITY", "AUTOSHAPE_MAX", "AUTOSHAPE_MIN", "ATOL", "DEFAULT_FOCK_SIZE",
         "DEFAULT_REPRESENTATION", "DISCRETIZATION_METHOD", "DRAW_CIRCUIT_PARAMS", "EINSUM_OPTIMIZE", "PROGRESSBAR", "STABLE_FOCK_CONVERSION"]
VALUES = dict(HBAR=[1.0, 0.5, 2.0, 3.7], SEED=[1234, 0, 42, 7],
              CACHE_DIR=[os.path.join(root, d) for d in "abcd"],
              AUTOSHAPE_PROBABILITY=[0.99999, 0.5, 0.9, 0.999], AUTOSHAPE_MAX=[50, 10, 20, 100], AUTOSHAPE_MIN=[1, 2, 3, 0],
              ATOL=[1e-8, 1e-3, 0.0, 1e-6], DEFAULT_FOCK_SIZE=[50, 5, 10, 30], DEFAULT_REPRESENTATION=["Fock", "Bargmann", "Fock", "Bargmann"],
              DISCRETIZATION_METHOD=["clenshaw", "iterative", "clenshaw", "iterative"], DRAW_CIRCUIT_PARAMS=[True, False, True, False],
              EINSUM_OPTIMIZE=["greedy", False, True, "optimal"], PROGRESSBAR=[False, True, False, True], STABLE_FOCK_CONVERSION=[False, True, False, True])
if payload["names"]:
    NAMES = payload["names"]
ALL = dict(HBAR=1.0, SEED=1234)
def flat(x):
    return np.asarray(arr(x)).round(9).astype(complex).ravel().tolist()

_tmsv = TwoModeSqueezedVacuum((0, 1), 0.8).to_fock((6, 6))
_sq = SqueezedVacuum(0, 0.7).to_fock((9,))
def circuit():
    c = [Number(m, 1, 3) for m in range(3)] + [BSgate((0, 1), 0.3).to_fock((3,) * 4), Number(0, 1, 3).dual, Number(1, 1, 3).dual, Number(2, 1, 3).dual]
    c = c[:2] + c[3:6]
    c = Circuit(c)
    c.optimize(n_init=2, with_BF_heuristic=False, verbose=False)
    return [list(p) for p in c.path]
DRAWS = [
    lambda: settings.rng.uniform(size=3).tolist(),
    lambda: flat(math.random_symplectic(2)),
    lambda: flat(math.random_orthogonal(3)),
    lambda: flat(math.random_unitary(2)),
    lambda: flat(Ket.random((0,)).ansatz.A) + flat(math.random_unitary(1)),
    lambda: flat(Ggate(0).parameters.symplectic.value),
    lambda: flat(Interferometer((0, 1)).parameters.unitary.value),
    lambda: np.asarray(PNRSampler(6).sample(_tmsv.normalize(), 12)).tolist(),
    lambda: flat(Channel.random((0,)).ansatz.A) + flat(DM.random((0,)).ansatz.A),
    lambda: flat(RealInterferometer((0, 1)).parameters.orthogonal.value),
    circuit,
]
SDRAWS = [
    lambda s: flat(math.random_symplectic(1, seed=s)),
    lambda s: flat(math.random_symplectic(2, seed=s)),
    lambda s: flat(Unitary.random((0, 1), seed=s).ansatz.A),
    lambda s: flat(Ket.random((0, 1), seed=s).ansatz.A),
    lambda s: flat(Ket.random((0,), max_r=0.5, seed=s).ansatz.A),
    lambda s: flat(DM.random((0,), seed=s).ansatz.A),
    lambda s: flat(Channel.random((0,), seed=s).ansatz.A),
    lambda s: np.asarray(PNRSampler(6).sample(_tmsv.normalize(), 12, seed=s)).tolist(),
    lambda s: np.asarray(PNRSampler(9).sample(_sq.normalize(), 12, seed=s)).tolist(),
    lambda s: np.asarray(PNRSampler(6).sample(_tmsv.dm().normalize(), 8, seed=s)).tolist(),
    lambda s: flat(Unitary.random((1,), seed=s).ansatz.A),
]
memo, smemo, rawseen, none_ok = {}, {}, {}, 0

class Unwind(Exception):
    pass

class Replay:
    def __init__(self, trace):
        self.t, self.i, self.probs, self.tok = trace, 0, [], {}
    def observe(self):
        return {n: getattr(settings, n) for n in NAMES}
    def check(self, rec, clause):
        got = self.observe()
        for n, v in zip(NAMES, rec["vals"]):
            g = got[n]
            if v >= 100:
                want = self.tok.setdefault(v, g)
            else:
                want = VALUES[n][v]
            same = (os.path.abspath(str(g)) == os.path.abspath(str(want))) if n == "CACHE_DIR" else (g == want and type(g) == type(want))
            if not same:
                self.probs.append((clause, f"after step {self.i} {rec['op']}: {n} is {g!r}, expected {want!r}"))
        for n, g in self.others().items():
            if g != self.rest[n]:
                self.probs.append((clause, f"setting {n} not named in the history changed to {g!r}"))
    def others(self):
        return {n: getattr(settings, n) for n in VALUES if n not in NAMES and n != "SEED"}
    def kw(self, kw):
        return {NAMES[n - 1]: VALUES[NAMES[n - 1]][v] for n, v in kw}
    def seedval(self, v):
        return self.tok[v] if v >= 100 else VALUES["SEED"][v]
    def level(self):
        """Runs steps until the current block ends; returns how it ends: ("exit",) or ("end",)."""
        while self.i < len(self.t):
            rec = self.t[self.i]
            op = rec["op"]
            k = op["k"]
            self.i += 1
            if k == "exit":
                return
            if k == "raise":
                self.left = op["n"]
                raise Unwind()
            if k == "enter":
                outer = self.observe()
                try:
                    with settings(**self.kw(op["kw"])):
                        self.check(rec, "enter")
                        self.level()
                except Unwind:
                    self.left -= 1
                    if self.left > 0:
                        raise
                if self.i <= len(self.t) and self.t[self.i - 1]["op"]["k"] in ("exit", "raise") and not self.ended:
                    self.check(self.t[self.i - 1], "restore")
                if self.ended:
                    return
                continue
            if k == "set":
                setattr(settings, NAMES[op["n"] - 1], VALUES[NAMES[op["n"] - 1]][op["v"]])
            elif k == "none":
                settings.SEED = None
            elif k == "call":
                settings(**self.kw(op["kw"]))
            elif k in ("unknown", "callunknown", "badvalue", "callbad"):
                try:
                    if k == "unknown":
                        setattr(settings, "NO_SUCH_SETTING", 3)
                    elif k == "callunknown":
                        with settings(**self.kw(op["kw"]), HBARR=3):
                            pass
                    elif k == "badvalue":
                        settings.CACHE_DIR = os.path.join(root, "file", "sub")
                    else:
                        with settings(**self.kw(op["kw"]), CACHE_DIR=os.path.join(root, "file", "sub")):
                            pass
                    self.probs.append(("reject", f"step {self.i} {op}: accepted"))
                except (AttributeError, OSError):
                    pass
            elif k == "draw":
                seedv, hist = rec["stream"]
                key = (self.seedval(seedv), tuple(hist))
                val = DRAWS[op["n"]]()
                if key in memo and memo[key] != val:
                    self.probs.append(("reproducible", f"step {self.i}: draw of kind {op['n']} under SEED={key[0]} after {key[1]} gave {str(val)[:80]}, earlier {str(memo[key])[:80]}"))
                memo.setdefault(key, val)
                if not any(hist):
                    o = rawseen.setdefault(tuple(val), key)
                    if o != key:
                        self.probs.append(("advances", f"step {self.i}: the same numbers under {key} as under {o}"))
            elif k == "sdraw":
                key = (op["n"], op["v"])
                val = SDRAWS[op["n"]](op["v"])
                if smemo.setdefault(key, val) != val:
                    self.probs.append(("explicit seed", f"kind {key[0]} with seed={key[1]} gave {str(val)[:80]}, earlier {str(smemo[key])[:80]}"))
            self.check(rec, {"draw": "draw", "sdraw": "draw"}.get(k, "assign" if rec["out"] == "ok" else "rejected"))
        self.ended = True
    def run(self):
        self.ended, self.left = False, 0
        for n in NAMES:
            setattr(settings, n, VALUES[n][0])
        if "SEED" not in NAMES:
            settings.SEED = 1234
        self.rest = self.others()
        self.level()
        if self.i < len(self.t):
            self.probs.append(("driver", f"stopped at {self.i} of {len(self.t)}"))

for i, rec in enumerate(payload["recs"]):
    r = Replay(rec["trace"])
    try:
        r.run()
    except Exception as e:
        r.probs.append(("exception", f"at step {r.i} {r.t[r.i-1]['op']}: {exc(e)}"))
    if r.probs:
        emit(id=i, ok=False, key=f"{r.probs[0][0]}", clause=r.probs[0][0], detail="; ".join(f"{a}: {b}" for a, b in r.probs[:4]), case=[t["op"] for t in rec["trace"]])
    else:
        emit(id=i, ok=True)
emit(ok=True, notrace=True, distinct_draws=len(memo))
done()
