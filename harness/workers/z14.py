"""Replays save/load histories of Files.tla on the library, inside the worker's scratch directory."""
import os, pathlib, random, tempfile, warnings
from dataclasses import dataclass
from inspect import signature
from wlib import *
import mrmustard.lab as lab
from mrmustard.lab import *
from mrmustard.lab import Circuit, CircuitComponent
from mrmustard.math.parameters import Variable
from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
from mrmustard.utils.serialize import load, save

warnings.simplefilter("ignore")
RNG = random.Random(payload["seed"])
COUNT = {}
OTHER = {"numpy": "jax", "jax": "numpy"}[BACKEND]
BASES = (lab.Ket, lab.DM, lab.Unitary, lab.Channel, lab.Operation, lab.Map, CircuitComponent)


def cnt(k):
    COUNT[k] = COUNT.get(k, 0) + 1


class Bad(Exception):
    pass


@dataclass
class Rec:
    n: int
    x: object = None
    y: object = None

    @classmethod
    def deserialize(cls, data):
        return cls(**data)


TWO = {"TwoModeSqueezedVacuum", "BSgate", "S2gate", "MZgate", "MZgateI", "CXgate", "CZgate", "Interferometer", "RealInterferometer"}
MANY = {"Vacuum", "Identity", "TraceOut", "BtoQ", "BtoPS", "BtoChar"}
S4 = [np.diag([k, 1 / k]) for k in (0.5, 0.8, 1.25, 2.0, 1.6)]
ROT = lambda t: np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
ARGS = {  # class, arguments of variant v, names of the trainable ones
    "Coherent": ("Coherent", lambda v: dict(alpha=0.2 * v + 0.1j), ["alpha"]),
    "CoherentB": ("Coherent", lambda v: dict(alpha=np.array([0.2 * v, 0.3j])), ["alpha"]),
    "Vacuum": ("Vacuum", lambda v: {}, []),
    "Number": ("Number", lambda v: dict(n=v), []),
    "NumberC": ("Number", lambda v: dict(n=v, cutoff=v + 2), []),
    "NumberB": ("Number", lambda v: dict(n=np.array([v, 1])), []),
    "Thermal": ("Thermal", lambda v: dict(nbar=0.3 * v), ["nbar"]),
    "SqueezedVacuum": ("SqueezedVacuum", lambda v: dict(r=0.1 * v, phi=0.2), ["r", "phi"]),
    "DisplacedSqueezed": ("DisplacedSqueezed", lambda v: dict(alpha=0.1 * v + 0.2j, r=0.3, phi=0.1), ["alpha", "r", "phi"]),
    "TwoModeSqueezedVacuum": ("TwoModeSqueezedVacuum", lambda v: dict(r=0.1 * v, phi=0.2), ["r", "phi"]),
    "BargmannEigenstate": ("BargmannEigenstate", lambda v: dict(alpha=0.1 * v), ["alpha"]),
    "QuadratureEigenstate": ("QuadratureEigenstate", lambda v: dict(x=0.1 * v, phi=0.4), ["x", "phi"]),
    "Sauron": ("Sauron", lambda v: dict(n=1 + v % 3, epsilon=0.2), []),
    "GKet": ("GKet", lambda v: dict(symplectic=S4[v]), ["symplectic"]),
    "GDM": ("GDM", lambda v: dict(beta=0.6 + v, symplectic=S4[v]), []),
    "Dgate": ("Dgate", lambda v: dict(alpha=0.1 * v - 0.3j), ["alpha"]),
    "Sgate": ("Sgate", lambda v: dict(r=0.1 * v, phi=0.3), ["r", "phi"]),
    "Rgate": ("Rgate", lambda v: dict(theta=0.3 * v), ["theta"]),
    "Pgate": ("Pgate", lambda v: dict(shearing=0.3 * v), ["shearing"]),
    "BSgate": ("BSgate", lambda v: dict(theta=0.3 * v, phi=0.2), ["theta", "phi"]),
    "S2gate": ("S2gate", lambda v: dict(r=0.2 * v, phi=0.2), ["r", "phi"]),
    "MZgate": ("MZgate", lambda v: dict(phi_a=0.2 * v, phi_b=0.5), ["phi_a", "phi_b"]),
    "MZgateI": ("MZgate", lambda v: dict(phi_a=0.2 * v, phi_b=0.5, internal=True), ["phi_a", "phi_b"]),
    "CXgate": ("CXgate", lambda v: dict(s=0.2 * v), ["s"]),
    "CZgate": ("CZgate", lambda v: dict(s=0.2 * v), ["s"]),
    "Attenuator": ("Attenuator", lambda v: dict(transmissivity=0.2 * v), ["transmissivity"]),
    "Amplifier": ("Amplifier", lambda v: dict(gain=1.1 + 0.2 * v), ["gain"]),
    "FockDamping": ("FockDamping", lambda v: dict(damping=0.2 * v), ["damping"]),
    "PhaseNoise": ("PhaseNoise", lambda v: dict(phase_stdev=0.2 * v), ["phase_stdev"]),
    "Interferometer": ("Interferometer", lambda v: dict(unitary=ROT(0.3 * v) @ np.diag([1, 1j])), ["unitary"]),
    "RealInterferometer": ("RealInterferometer", lambda v: dict(orthogonal=ROT(0.3 * v)), ["orthogonal"]),
    "Ggate": ("Ggate", lambda v: dict(symplectic=S4[v]), ["symplectic"]),
    "GaussRandNoise": ("GaussRandNoise", lambda v: dict(Y=np.diag([0.1 * v, 0.3])), ["Y"]),
    "Identity": ("Identity", lambda v: {}, []),
    "BtoQ": ("BtoQ", lambda v: dict(phi=0.2 * v), []),
    "BtoPS": ("BtoPS", lambda v: dict(s=0.5 - 0.2 * v), []),
    "BtoChar": ("BtoChar", lambda v: dict(s=0.5 - 0.2 * v), []),
    "TraceOut": ("TraceOut", lambda v: {}, []),
}
MAT = {"symplectic", "unitary", "orthogonal", "Y"}
BDS = [None, (None, None), (-7.0, None), (-6.5, 8.0)]


def atoms(c, v):
    """A component of a class; abstract ones come out of the library's own operations."""
    k = c["cls"]
    lo, hi = c["m"]
    lo, hi = sorted((lo, hi))
    if k == "Ket":
        return Coherent(lo, 0.1 * v + 0.2) >> Sgate(lo, 0.1 * v)
    if k == "DM":
        return Coherent(lo, 0.1 * v + 0.2) >> Coherent(hi, 0.3j) >> Attenuator(lo, 0.3)
    if k == "Channel":
        return Attenuator(lo, 0.1 * v + 0.2) >> Dgate(lo, 0.2j)
    if k == "Unitary":
        return Dgate(lo, 0.1 * v + 0.2) >> BSgate((lo, hi), 0.4, 0.1)
    name, args, tr = ARGS[k]
    kw = args(v)
    for i, p in enumerate(tr):
        if c["tr"] >> i & 1:
            kw[p + "_trainable"] = True
            if BDS[c["bd"]] is not None and p not in MAT:
                kw[p + "_bounds"] = BDS[c["bd"]]
    cls = getattr(lab, name)
    if k in TWO:
        m = (lo, hi)
    elif k in MANY:
        m = (lo, hi) if v % 2 else (hi,)
    else:
        m = lo if "mode" in signature(cls).parameters else (lo,)
    return cls(m, **kw)


def make(c):
    x = atoms(c, c["v"])
    f = c["form"]
    if c["cls"] == "QuadratureEigenstate" and f in ("fock", "back"):
        f = "dual"  # its wires are tagged otherwise after such conversions
    try:
        if f in ("fock", "back"):
            y = x.to_fock(3 + c["v"] % 2)
            y = y.to_bargmann() if f == "back" else y
        elif f in ("super", "superfock"):
            y = x + atoms(c, (c["v"] + 1) % 5)
            y = y.to_fock(3) if f == "superfock" else y
        elif f == "adjoint":
            y = x.adjoint
        elif f == "dual":
            y = x.dual
        elif f == "quad":
            y = x.to_quadrature()
        elif f == "on":
            y = x.on(tuple(sorted(m + 2 for m in x.modes)))
        elif f == "cut":
            y = x
            y.manual_shape = tuple([None, 5, 7, 4][(i + c["v"]) % 4] for i in range(len(x.manual_shape)))
        elif f == "trained":
            y = x
            for n, p in x.parameters.variables.items():
                if n not in MAT:
                    p.value = p.value * 0.5 + 0.1
        else:
            return x
        look(y)
        cnt("form " + f)
        return y
    except Exception:
        cnt("no form " + f)
        return atoms(c, c["v"])


def look(x):
    """Everything there is to see of a component, as plain data."""
    a = x.ansatz
    d = dict(type=type(x).__name__, name=x.name, modes=list(x.modes),
             wires=[(w.mode, w.is_out, w.is_ket, str(w.repr), None if w.fock_cutoff is None else int(w.fock_cutoff)) for w in x.wires.quantum.sorted_wires],
             sets=[sorted(s) for s in x.wires.args], ansatz=type(a).__name__ if a is not None else None)
    if a is not None:
        d["rep"] = [np.array(arr(t)) for t in (a.triple if isinstance(a, PolyExpAnsatz) else (a.array,))]
        d["sup"], d["batch"] = bool(a._lin_sup), tuple(int(k) for k in a.batch_shape)
    d["pars"] = {n: (type(p).__name__, np.array(arr(p.value)), tuple(getattr(p, "bounds", ())), getattr(p, "update_fn", "")) for n, p in x.parameters.all_parameters.items()}
    d["order"] = list(x.parameters.names)
    return d


def same(a, b, where, generic):
    for k in ("name", "modes", "sets", "wires", "ansatz", "sup", "batch"):
        if a.get(k) != b.get(k):
            raise Bad(f"{where}: {k} was {a.get(k)}, loaded {b.get(k)} ({a['type']})")
    if a["type"] != b["type"] and not (generic and b["type"] in {t.__name__ for t in BASES}):
        raise Bad(f"{where}: a {a['type']} was loaded as a {b['type']}")
    for x, y in zip(a.get("rep", []), b.get("rep", [])):
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-10, atol=1e-12, equal_nan=True):
            raise Bad(f"{where}: representation of {a['type']} changed")
    if a["type"] == b["type"] and a["type"] not in {t.__name__ for t in BASES}:
        if set(a["order"]) != set(b["order"]):
            raise Bad(f"{where}: parameters of {a['type']} were {a['order']}, loaded {b['order']}")
        for n, p in a["pars"].items():
            q = b["pars"][n]
            if p[0] != q[0] or p[1].shape != q[1].shape or not np.array_equal(p[1], q[1]) or p[2:] != q[2:]:
                raise Bad(f"{where}: parameter {n} of {a['type']} was {p}, loaded {q}")
    cnt("components")


def snap(c):
    return dict(path=[tuple(map(int, p)) for p in c.path], cs=[look(x) for x in c.components])


def replay(rec):
    root = tempfile.mkdtemp()
    dirs = [os.path.join(root, d) for d in ("one", "two")]
    for d in dirs:
        os.makedirs(d)
    settings.CACHE_DIR = dirs[0]
    live, forms, paths, saved = [], [], [], {}
    for n, t in enumerate(rec["trace"]):
        op = t["op"]
        k = op["k"]
        where = f"step {n + 1} ({k})"
        got = "ok"
        if k == "new":
            c = Circuit([make(x) for x in op["c"]["cs"]])
            m = len(c)
            if m > 2 and op["c"]["path"] == 1:
                c.path = [(1, 2), (0, 1)]
            elif op["c"]["path"] == 2:
                c.path = []
            live.append(c)
            forms.append([x["form"] for x in op["c"]["cs"]])
        elif k == "save":
            i = op["i"] - 1
            p = live[i].serialize(op["n"] + (".json" if op["sfx"] else ""))
            paths.append(p)
            saved[i, len(saved)] = None
            SNAP[str(p)] = (snap(live[i]), forms[i])
            cnt("saves")
        elif k == "data":
            x = op["x"]
            arrs = {a: np.arange(4.0).reshape(2, 2) * (x["data"] + j) + 1j * j for j, a in enumerate("xy"[: x["arrs"]])}
            p = save(Rec, filename=op["n"], do_zip=x["zip"], arrays=arrs or None, n=x["data"])
            paths.append(p)
            SNAP[str(p)] = (x["data"], arrs)
        elif k == "bad":
            try:
                save(Rec, filename=op["n"], arrays={"n": np.ones(2)}, n=3)
            except ValueError:
                got = "refused"
        elif k in ("load", "foreign"):
            p = paths[op["p"] - 1]
            if k == "foreign":
                math.change_backend(OTHER)
            try:
                r = load(str(p) if RNG.random() < 0.5 else pathlib.Path(p), **({"remove_after": True} if op.get("rm") else {}))
            except (FileNotFoundError, TypeError) as e:
                got = "refused"
                if (k == "foreign") != isinstance(e, TypeError) and t["out"] == "refused" and k == "load":
                    raise Bad(f"{where}: {exc(e)}")
                if t["out"] == "ok":
                    raise Bad(f"{where}: loading {os.path.basename(p)} failed: {exc(e)}")
            finally:
                if k == "foreign":
                    math.change_backend(BACKEND)
            if got == "ok" and t["out"] == "ok":
                want, extra = SNAP[str(p)]
                if op["what"][0] == "data":
                    if not isinstance(r, Rec) or r.n != want:
                        raise Bad(f"{where}: {r} instead of {want}")
                    for a in "xy":
                        v = getattr(r, a)
                        if (v is None) != (a not in extra) or (v is not None and (arr(v).dtype != extra[a].dtype or not np.array_equal(arr(v), extra[a]))):
                            raise Bad(f"{where}: array {a} is {v}")
                else:
                    if not isinstance(r, Circuit):
                        raise Bad(f"{where}: loaded a {type(r).__name__}")
                    g = snap(r)
                    if g["path"] != want["path"]:
                        raise Bad(f"{where}: path was {want['path']}, loaded {g['path']}")
                    if len(g["cs"]) != len(want["cs"]):
                        raise Bad(f"{where}: {len(g['cs'])} components instead of {len(want['cs'])}")
                    for j, (a, b) in enumerate(zip(want["cs"], g["cs"])):
                        same(a, b, f"{where}, component {j}", extra[j] in ("fock", "superfock", "back"))
                cnt("loads")
        elif k == "mutate":
            c = live[op["i"] - 1]
            j = RNG.randrange(3)
            if j == 0:
                c.path = list(reversed(c.path))
            elif j == 1:
                for x in c.components:
                    for nm, v in x.parameters.variables.items():
                        if nm not in MAT:
                            v.value = v.value * 1.125 if nm == "gain" else v.value * 0.75 + 0.0625
            else:
                for x in c.components:
                    x.manual_shape = tuple(RNG.choice([None, 3, 6]) for _ in x.manual_shape) if not isinstance(x.ansatz, ArrayAnsatz) else x.manual_shape
        elif k == "cd":
            settings.CACHE_DIR = dirs[op["d"] - 1] if RNG.random() < 0.5 else pathlib.Path(dirs[op["d"] - 1])
        if got != t["out"]:
            raise Bad(f"{where}: {got}, expected {t['out']}")
        for d, want in zip(dirs, t["ls"]):
            have = sorted(os.listdir(d))
            if have != sorted(want):
                raise Bad(f"{where}: directory holds {have}, expected {sorted(want)}")
        cnt("steps")
    SNAP.clear()


SNAP = {}
for i, r in enumerate(payload["recs"]):
    try:
        replay(r)
        ok, det = True, ""
    except Bad as e:
        ok, det = False, str(e)
    except Exception as e:
        ok, det = False, exc(e)
        math.change_backend(BACKEND)
    key = f"Z14/{payload['off'] + i}"
    emit(id=key, ok=ok, key=key, clause="replay", detail=det[:600], case=r)
emit(id="count", ok=True, key="count", clause="info", detail=str(COUNT), notrace=True, case=None)
done()
