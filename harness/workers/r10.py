"""Replays conversion programs of Repr.tla on the library."""
import random, warnings
from math import factorial, pi
from wlib import *
from netlib import LBL, relabel, legs_of, mk
from mrmustard.lab import *
from mrmustard.lab import CircuitComponent
from mrmustard.lab.states.base import State
from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
from mrmustard.physics.wires import Wires

warnings.simplefilter("ignore")
RNG = random.Random(payload["seed"])
COUNT = {}


def cnt(k):
    COUNT[k] = COUNT.get(k, 0) + 1


class Bad(Exception):
    pass


def cx(v):
    return complex(*v)


def root(dims):
    r = np.ones(dims)
    for i, d in enumerate(dims):
        sh = [1] * len(dims)
        sh[i] = d
        r = r * np.sqrt([float(factorial(n)) for n in range(d)]).reshape(sh)
    return r


def table(o, F):
    a = np.array([cx(v) for v in o["arr"]]).reshape(o["dims"])
    return a / float(F) ** o["den"] / root(o["dims"]) * np.exp(-o["E"] / 2)


def fit(a, shape):
    out = np.zeros(shape, dtype=complex)
    sl = tuple(slice(0, min(s, t)) for s, t in zip(shape, a.shape))
    out[sl] = a[sl]
    return out


def sets(o):
    s = [[], [], [], []]
    for c, m in o["legs"]:
        s[c].append(LBL[m])
    return [tuple(t) for t in s]


def source(src):
    o, how = src["obj"], src["how"]
    ob, ib, ok, ik = sets(o)
    T = math.astensor
    if how == "triple":
        t = (T(np.array([[cx(z) for z in r] for r in src["A"]])), T(np.array([cx(z) for z in src["b"]])), T(1.0 + 0.0j))
        if RNG.random() < 0.2:
            return CircuitComponent(PolyExpAnsatz(*t), Wires(*(set(x) for x in (ob, ib, ok, ik))))
        if ob:
            return DM.from_bargmann(ok, t)
        return Unitary.from_bargmann(ok, ik, t) if ik else Ket.from_bargmann(ok, t)
    if how == "coherent":
        return Coherent(ok[0], cx(src["z"]))
    if how == "dgate":
        return Dgate(ok[0], cx(src["z"]))
    if how == "rgate":
        return Rgate(ok[0], src["q"] * np.pi / 2)
    if how == "number":
        return Number(ok[0], src["n"], o["dims"][0])
    if how == "sauron":                                    # the library's is normalised
        n = src["n"]
        return Sauron(ok[0], n, epsilon=1.0) * np.sqrt(sum(1 / factorial(m) for m in range(n, 60, n + 1)))
    if how == "vacuum":
        return Vacuum(ok)
    a = table(o, 1).ravel()
    return mk(dict(legs=o["legs"], dims=o["dims"], arr=[[z.real, z.imag] for z in a]), RNG.choice([0, 1, 2]))


def cutoffs(o):
    return tuple(c or None for c in o["cut"])


def array_of(x, shape, how):
    """The Fock array in the order of the wires."""
    if shape is not None and len(set(shape)) == 1 and RNG.random() < 0.3:
        shape = shape[0]
    return arr(x.fock_array(shape)) if shape is not None else arr(x.fock_array())


def looks(x, o, F, size, what, default=True):
    """Everything that can be asked of a component about its amplitudes."""
    n = len(o["legs"])
    lg = [(c, LBL[m], i) for i, (c, m) in enumerate(o["legs"])]
    if legs_of(x.wires) != lg:
        raise Bad(f"wires {what}: {legs_of(x.wires)}, expected {lg}")
    rep = "F" if isinstance(x.ansatz, ArrayAnsatz) else "B"
    if rep != o["rep"]:
        raise Bad(f"representation {what}: {rep}, expected {o['rep']}")
    if tuple(x.manual_shape) != cutoffs(o):
        raise Bad(f"cutoffs {what}: {tuple(x.manual_shape)}, expected {cutoffs(o)}")
    cnt("cutoffs")
    want = table(o, F)
    scale = max(1.0, np.max(np.abs(want)))

    def same(got, shape, label):
        if got.shape != tuple(shape):
            raise Bad(f"shape {what} {label}: {got.shape}, expected {tuple(shape)}")
        w = fit(want, shape)
        if not np.all(np.isfinite(got)) or np.max(np.abs(got - w), initial=0) > 1e-7 * scale:
            k = np.unravel_index(np.argmax(np.abs(got - w)), w.shape)
            raise Bad(f"amplitudes {what} {label}: entry {list(map(int, k))} is {got[k]}, expected {w[k]}")
        cnt("amplitudes")

    shape = tuple(RNG.randint(1, d + (1 if f else 0)) if f or d > 1 else 1 for d, f in zip(o["dims"], o["fin"]))
    std = "standard" if isinstance(x, DM) else ""
    same(array_of(x, shape, std), shape, f"shape {shape}")
    if isinstance(x, DM):
        p = list(range(n // 2, n)) + list(range(n // 2))
        got = arr(x.fock_array(shape, standard_order=True))
        same(np.transpose(got, p) if got.ndim == n else got, shape, "kets first")
    if rep == "F":
        if tuple(x.ansatz.core_shape) != tuple(o["dims"]):
            raise Bad(f"shape {what}: the array is {tuple(x.ansatz.core_shape)}, expected {tuple(o['dims'])}")
    if not default:
        return
    if all(o["cut"]):
        auto = tuple(o["cut"])
    elif isinstance(x, State):
        if rep == "F":
            auto = tuple(c or d for c, d in zip(o["cut"], o["dims"]))
        elif o["kind"] == "p":
            auto = tuple(c or size for c in o["cut"])
        else:
            return
    else:
        auto = tuple(c or size for c in o["cut"])
    if np.prod(auto) > 3000:
        return
    if isinstance(x, State) and rep == "B" and o["kind"] != "p":
        try:                                 # not every Gaussian of this machine can be normalised
            x.auto_shape()
        except NotImplementedError:
            return
    got = tuple(x.auto_shape())
    if got != auto:
        raise Bad(f"auto_shape {what}: {got}, expected {auto}")
    cnt("automatic shapes")
    if all(f or s <= d for f, s, d in zip(o["fin"], auto, o["dims"])):
        same(array_of(x, None, std), auto, "default shape")


def endless(x):
    """A Gaussian that cannot be normalised has no automatic shape: the library refuses to give one."""
    if not isinstance(x, State) or not isinstance(x.ansatz, PolyExpAnsatz):
        return False
    A = arr(x.ansatz.A).reshape(-1, x.ansatz.num_vars, x.ansatz.num_vars)
    if isinstance(x, Ket):
        return any(np.linalg.norm(a, 2) >= 1 - 1e-9 for a in A)
    return True


def project(x, es):
    for e in es:
        x = x.contract(e.dual)
    return complex(np.asarray(arr(x.ansatz.scalar if isinstance(x, CircuitComponent) else x)).ravel()[0])


def views(x, v, o, F, what):
    n = len(o["legs"])
    if not v["fin"]:
        return
    base = float(F) ** (o["den"] + n)
    e = np.exp(-o["E"] / 2)
    want = cx(v["barg"]) / base * e
    scale = max(1.0, float(np.sum(np.abs(table(o, F)))) * 4)
    z = [cx(w) for w in v["z"]]
    b = x.to_bargmann()
    got = complex(np.asarray(arr(b.ansatz(*[math.astensor(np.array(w)) for w in z]))).ravel()[0])
    if abs(got - want) > 1e-7 * scale:
        # a converted array may restore what its cutoffs had removed
        if o["rep"] == "B" or o["mem"] == "no":
            raise Bad(f"bargmann {what} at {z}: {got}, expected {want}")
    else:
        cnt("bargmann views")
    if o["rep"] == "F" and o["mem"] != "no":
        pass
    old = settings.HBAR
    try:
        settings.HBAR = RNG.choice([1.0, 2.0, 0.5])
        want = cx(v["quad"]) / base * e * (pi * settings.HBAR) ** (-n / 4) * np.exp(-sum(m * m for m in v["m"]) / 4)
        pts = [math.astensor(np.array([m * np.sqrt(settings.HBAR / 2)])) for m in v["m"]]
        got = complex(np.asarray(arr(x.quadrature(*pts, phi=v["q"] * pi / 2))).ravel()[0])
        if not abs(got - want) <= 1e-6 * scale:
            raise Bad(f"quadrature {what} at m={v['m']}, {v['q']} quarter turns, hbar {settings.HBAR}: {got}, expected {want}")
        cnt("quadrature views")
        if set(c for c, m in o["legs"]) == {2} and (o["rep"] == "B" or o["mem"] == "no"):            # what is left of a ket after projecting every mode
            want *= settings.HBAR ** (n / 4)                # eigenstates are normalised in units of sqrt(hbar)
            got = project(x, [QuadratureEigenstate(LBL[l[1]], m * np.sqrt(settings.HBAR / 2), v["q"] * pi / 2) for l, m in zip(o["legs"], v["m"])])
            if not abs(got - want) <= 1e-6 * scale:
                raise Bad(f"eigenstate quadrature {what} at m={v['m']}, {v['q']} quarter turns, hbar {settings.HBAR}: {got}, expected {want}")
            cnt("quadrature eigenstates")
            if o["rep"] == "B":
                want = cx(v["barg"]) / base * e
                got = project(x, [BargmannEigenstate(LBL[l[1]], np.conj(w)) for l, w in zip(o["legs"], z)])
                if not abs(got - want) <= 1e-7 * scale:
                    raise Bad(f"eigenstate bargmann {what} at {z}: {got}, expected {want}")
                cnt("bargmann eigenstates")
    finally:
        settings.HBAR = old


def apply(p, xs):
    op, x = p["op"], xs[p["i"]]
    if op == "fock":
        s = tuple(p["shape"])
        return x.to_fock(s[0] if len(set(s)) == 1 and RNG.random() < 0.3 else s)
    if op == "fock0":
        return x.to_fock()
    if op == "barg":
        return x.to_bargmann()
    if op == "join":
        y = xs[p["j"]]
        k = lambda w: (bool(w.wires.ket), bool(w.wires.bra))
        if k(x) == k(y) and RNG.random() < 0.6:
            return x >> y
        return x.contract(y)
    if op == "add":
        return x + xs[p["j"]]
    if op == "adj":
        return x.adjoint
    if op == "dual":
        return x.dual
    if op == "dm":
        return x.dm() if isinstance(x, Ket) else x.contract(x.adjoint, mode="zip")
    if op == "on":
        ms = sorted(x.wires.modes)
        return x.on([LBL[p["map"][LBL.index(m)]] for m in ms])
    if op == "scale":
        z = cx(p["z"])
        return RNG.choice([lambda: z * x, lambda: x * z, lambda: x / (1 / z)])() if z else z * x
    if op == "trace":
        m = LBL[p["m"]]
        if isinstance(x, State) and RNG.random() < 0.5:
            r = x[[k for k in x.modes if k != m]]
            if isinstance(r, Ket):                        # a reduced vacuum is a vacuum
                r = r.dm()
                r = r.to_fock(tuple(p["obj"]["dims"])) if p["obj"]["rep"] == "F" else r
            if p["obj"]["rep"] == "B":                    # whether indexing keeps cutoffs is not specified
                r.manual_shape = cutoffs(p["obj"])
            return r
        return x >> TraceOut((m,))


def run(rec):
    F = rec["F"]
    settings.DEFAULT_REPRESENTATION = "Fock"
    settings.DEFAULT_FOCK_SIZE = size = 50
    xs, want = {}, {}
    trail = []
    for p in rec["prog"]:
        op = p["op"]
        if op == "new":
            x, o, k = source(p["src"]), p["src"]["obj"], p["k"]
            trail.append(f"{k}:={p['src']['how']}")
        elif op == "default":
            settings.DEFAULT_REPRESENTATION = p["arg"]
            trail.append(p["arg"])
            continue
        elif op == "size":
            settings.DEFAULT_FOCK_SIZE = size = p["arg"]
            trail.append(f"size {size}")
            continue
        elif op == "setcut":
            i = p["i"]
            xs[i].manual_shape = tuple(c or None for c in p["arg"])
            want[i] = dict(want[i], cut=p["arg"])
            trail.append(f"{i}.cut={p['arg']}")
            continue
        else:
            trail.append(f"{p['k']}:={op} {p['i']}" + (f",{p['j']}" if op in ("join", "add") else "") + (f" {p['shape']}" if op == "fock" else ""))
            try:
                x, o, k = apply(p, xs), p["obj"], p["k"]
            except Exception as e:
                if isinstance(e, NotImplementedError) and any(endless(xs[p[q]]) for q in ("i", "j") if q in p):
                    cnt("programs ended at a state of infinite norm")
                    return
                raise Bad(f"exception {op}: {exc(e)} | {' ; '.join(trail)}")
            if not isinstance(x, CircuitComponent):
                raise Bad(f"result {op}: a {type(x).__name__} | {' ; '.join(trail)}")
        if any(x is y for y in xs.values()):
            x = x._light_copy()
        xs[k], want[k] = x, o
        try:
            looks(x, o, F, size, op if op != "new" else p["src"]["how"])
        except Bad as e:
            raise Bad(f"{e} | {' ; '.join(trail)}")
        except Exception as e:
            raise Bad(f"exception looking after {op}: {exc(e)} {e.__context__!r} | {' ; '.join(trail)}")
    for k, x in sorted(xs.items()):
        o = rec["final"][k - 1]
        try:
            looks(x, o, F, size, f"finally")
            views(x, rec["views"][k - 1], o, F, f"{o['rep']}")
        except Bad as e:
            raise Bad(f"{e} | slot {k} | {' ; '.join(trail)}")
        except Exception as e:
            raise Bad(f"exception looking finally at {k}: {exc(e)} | {' ; '.join(trail)}")


for i, rec in enumerate(payload["recs"]):
    relabel(i + payload["seed"])
    try:
        run(rec)
        emit(id=str(rec["id"]), ok=True)
    except Bad as e:
        s = str(e)
        emit(id=str(rec["id"]), ok=False, key=s[:70], clause=s.split(" ")[0], detail=s[:900], case=dict(id=rec["id"]))
emit(id="counts", ok=True, notrace=True, counts=COUNT)
done()
