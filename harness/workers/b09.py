"""Replays programs of Batch.tla: every batched object next to the family of unbatched objects it stands for."""
from wlib import *
import itertools
import mrmustard.lab as lab
from mrmustard.lab import CircuitComponent, Ket, DM, Unitary, Channel, Map, Operation, TraceOut
from mrmustard.physics.ansatz import PolyExpAnsatz, ArrayAnsatz

class Bad(Exception):
    pass
RANGE = dict(alpha=("c", 0.7), r=(0.0, 0.6), phi=(0.0, 6.0), theta=(0.1, 1.4), nbar=(0.2, 1.0), s=(-0.6, 0.6), shearing=(-0.6, 0.6), phi_a=(0.0, 6.0), phi_b=(0.0, 6.0),
             transmissivity=(0.2, 0.9), gain=(1.1, 1.8), damping=(0.1, 0.8), n=("i", 3))
NAMES = dict(Coherent=["alpha"], SqueezedVacuum=["r", "phi"], DisplacedSqueezed=["alpha", "r", "phi"], TwoModeSqueezedVacuum=["r", "phi"], Thermal=["nbar"], Dgate=["alpha"],
             Sgate=["r", "phi"], Rgate=["theta"], BSgate=["theta", "phi"], S2gate=["r", "phi"], MZgate=["phi_a", "phi_b"], CZgate=["s"], CXgate=["s"], Pgate=["shearing"],
             Attenuator=["transmissivity"], Amplifier=["gain"], FockDamping=["damping"], Number=["n"])
def draw(rng, name, shape):
    a, b = RANGE[name]
    if a == "c":
        return (rng.uniform(-b, b, shape) + 1j * rng.uniform(-b, b, shape))
    if a == "i":
        return rng.integers(0, b, shape)
    return rng.uniform(a, b, shape)
def sc(x):
    return x.item() if isinstance(x, np.ndarray) and x.shape == () else x
def points(ax):
    return list(itertools.product(*[range(n) for n in ax]))
def at(m, idx):
    return tuple(idx[k - 1] for k in m)
def sympl(rng, n):
    from scipy.linalg import expm
    X = rng.normal(size=(2 * n, 2 * n)) * 0.25
    J = np.kron(np.array([[0, 1], [-1, 0]]), np.eye(n))
    return expm(J @ (X + X.T))
def ket_triple(rng, n):
    U = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    A = U @ np.diag(rng.uniform(0.1, 0.6, n)) @ U.T
    b = 0.4 * (rng.normal(size=n) + 1j * rng.normal(size=n))
    return A, b, rng.normal() + 1j * rng.normal()
def dm_triple(rng, n):
    a, b, c = ket_triple(rng, n)
    D = 0.15 * (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    D = D @ D.conj().T
    A = np.block([[a.conj(), D.T.conj()], [D.conj().T.T, a]])
    A = np.block([[a.conj(), D.conj()], [D.conj().T, a]])
    return (A + A.T) / 2, np.concatenate([b.conj(), b]), abs(c) + 0.3
def leaf(op, ax):
    rng = np.random.default_rng(op["rnd"])
    ty, modes, ax = op["ty"], tuple(sorted(op["modes"])), tuple(ax)
    pts = points(ax)
    mo = modes[0] if len(modes) == 1 else modes
    n = len(modes)
    if ty in NAMES:
        ps = {nm: draw(rng, nm, tuple(sh)) for nm, sh in zip(NAMES[ty], op["shapes"])}
        cls = getattr(lab, ty)
        kw = dict(cutoff=3 + 1) if ty == "Number" else {}
        if op["rnd"] % 3 == 1:
            ps1 = {k: (v.tolist() if v.shape else v.item()) for k, v in ps.items()}
        elif op["rnd"] % 3 == 2:
            ps1 = {k: math.astensor(v) for k, v in ps.items()}
        else:
            ps1 = {k: sc(v) for k, v in ps.items()}
        el = {}
        for p in pts:
            el[p] = cls(mo, **{k: np.broadcast_to(v, ax)[p].item() for k, v in ps.items()}, **kw)
        if op["rnd"] % 4 == 0:
            kw.update({k + "_trainable": True for k in ps} if ty != "Number" else {})
        return cls(mo, **ps1, **kw), el
    mats = dict(Ggate=lambda: sympl(rng, 1), Interferometer=lambda: np.linalg.qr(rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2)))[0],
                GaussRandNoise=lambda: (lambda m: m @ m.T)(rng.normal(size=(2, 2)) * 0.4))
    stack = lambda f: [f() for _ in pts]
    sh = lambda q: np.array(q).reshape(ax + np.array(q[0]).shape)
    if ty in mats:
        q = stack(mats[ty])
        cls = getattr(lab, ty)
        return cls(mo, math.astensor(sh(q))), {p: cls(mo, math.astensor(m)) for p, m in zip(pts, q)}
    if ty in ("ketF", "dmF", "uF", "chF"):
        k = dict(ketF=n, dmF=2 * n, uF=2 * n, chF=4 * n)[ty]
        def one():
            x = rng.normal(size=(4,) * k) + 1j * rng.normal(size=(4,) * k)
            if ty == "dmF":
                m = x.reshape(4 ** n, 4 ** n)
                x = (m @ m.conj().T).reshape((4,) * k) / 30
            return x / np.sqrt(4 ** k)
        q = stack(one)
        if ty in ("ketF", "dmF"):
            cls = Ket if ty == "ketF" else DM
            return cls.from_fock(modes, sh(q), batch_dims=len(ax)), {p: cls.from_fock(modes, x) for p, x in zip(pts, q)}
        cls = Unitary if ty == "uF" else Channel
        return cls.from_fock(modes, modes, sh(q), batch_dims=len(ax)), {p: cls.from_fock(modes, modes, x) for p, x in zip(pts, q)}
    cls = Ket if ty.startswith("ket") else DM
    f = ket_triple if cls is Ket else dm_triple
    if ty in ("ketB", "dmB"):
        q = stack(lambda: f(rng, n))
        T = tuple(sh([t[i] for t in q]) for i in range(3))
        return cls.from_bargmann(modes, T), {p: cls.from_bargmann(modes, t) for p, t in zip(pts, q)}
    if ty in ("ketL", "dmL"):
        L = 2 + op["rnd"] % 2
        q = stack(lambda: tuple(np.array(z) for z in zip(*[f(rng, n) for _ in range(L)])))
        T = tuple(sh([t[i] for t in q]) for i in range(3))
        return cls.from_bargmann(modes, T, lin_sup=True), {p: cls.from_bargmann(modes, t, lin_sup=True) for p, t in zip(pts, q)}
    def poly():
        A, b, _ = ket_triple(rng, 2)
        return A * 0.8, b, rng.normal(size=3) + 1j * rng.normal(size=3)
    q = stack(poly)
    T = tuple(sh([t[i] for t in q]) for i in range(3))
    return Ket.from_bargmann(modes, T), {p: Ket.from_bargmann(modes, t) for p, t in zip(pts, q)}

X = np.array([-0.7, 0.2, 1.1])
def values(k, o, op):
    """The array(s) a user reads; batch axes first."""
    n = len(o.wires)
    c = 3 if n <= 4 else 2
    if k == "fockarray":
        return [o.fock_array(c)]
    if k == "probability":
        return [o.probability]
    if k == "purity":
        return [o.purity]
    if k == "L2":
        return [o.L2_norm]
    if k == "fockdist":
        return [o.fock_distribution(3)]
    if k == "phasespace":
        return list(o.phase_space(0))
    last = lambda v: np.moveaxis(arr(v), 0, -1)   # the points come first, then the batch axes
    if k == "quadrature":
        if isinstance(o.ansatz, PolyExpAnsatz):
            return [last(o.quadrature(*([X] * n), phi=0.3))] if n <= 3 else [last(o.quadrature(*([X[:2]] * n)))]
        return [last(o.quadrature(*([X[:2]] * n)))]
    if k == "quaddist":
        return [last(o.quadrature_distribution(X))] if o.n_modes == 1 else [last(o.quadrature_distribution(X[:2]))]
    if k == "symplectic":
        return [o.symplectic]
    if k == "XY":
        return list(o.XY)
    if k == "triple":
        return list(o.bargmann_triple())
    if k == "toquad":
        return list(o.quadrature_triple(0.4))
    raise Bad("unknown " + k)
def unary(k, o, op):
    if k == "adjoint": return o.adjoint
    if k == "dual": return o.dual
    if k == "dm": return o.dm()
    if k == "fock": return o.to_fock(4)
    if k == "barg": return o.to_bargmann()
    if k == "normalize": return o.normalize()
    if k == "scale": return [lambda: 2.5 * o, lambda: o * (1 - 2j), lambda: o / 4.0][op["a"] % 3]()
    if k == "getitem": return o[tuple(op["modes"])] if len(op["modes"]) > 1 else o[op["modes"][0]]
    if k == "traceout": return o >> TraceOut(tuple(op["modes"]))
    if k == "inverse": return o.inverse()
    if k == "on": return o.on(tuple(m + 4 for m in o.modes))
    raise Bad("unknown " + k)
TY = {frozenset({2}): Ket, frozenset({0, 2}): DM, frozenset({2, 3}): Unitary, frozenset({0, 1, 2, 3}): Channel}
def typed(o, legs):
    """States, unitaries and channels as such, so that their methods exist."""
    if not isinstance(o, CircuitComponent) or not legs:
        return o
    cs = {}
    for c, m in legs:
        cs.setdefault(c, set()).add(m)
    ms = list(cs.values())
    cls = TY.get(frozenset(cs))
    if cls is None or any(x != ms[0] for x in ms) or isinstance(o, cls):
        return o
    return cls._from_attributes(o.ansatz, o.wires, o.name)
LET = "pqrstuvw"
def mode_str(op):
    if op["mode"] != "custom":
        return op["mode"]
    f = lambda q: "".join(LET[i - 1] for i in q)
    return f"{f(op['lp'])},{f(op['lq'])}->{f(op['lo'])}"
def binary(k, a, b, op):
    if k == "shift":
        return a >> b
    if k == "contract":
        return a.contract(b, mode_str(op))
    if k == "add":
        return a + b
    if k == "sub":
        return a - b
    if k == "expectation":
        return a.expectation(b, mode_str(op))
    if k == "fidelity":
        return a.fidelity(b)
    raise Bad("unknown " + k)
def elem_binary(k, a, b, op):
    if k in ("contract", "expectation"):
        return binary(k, a, b, {**op, "mode": "kron"})
    return binary(k, a, b, op)

def finite(x):
    return bool(np.all(np.isfinite(x)) and (x.size == 0 or np.max(np.abs(x)) < 1e5))
def cmp_values(got, els, ax, what):
    """got: arrays with batch axes ax first; els: point -> list of arrays"""
    pts = points(ax)
    for i, g in enumerate(got):
        g = arr(g)
        w0 = arr(els[pts[0]][i])
        if g.shape != tuple(ax) + w0.shape:
            raise Bad(f"{what}: shape {g.shape}, expected batch {tuple(ax)} + {w0.shape}")
        for p in pts:
            w = arr(els[p][i])
            if finite(w) and not close(g[p], w, 1e-6, 1e-8):
                d = np.max(np.abs(g[p] - w))
                raise Bad(f"{what}: at batch index {p} differs from the unbatched result by {d:.3g}")
def as_scalar(x):
    return x.ansatz.scalar if isinstance(x, CircuitComponent) else x
def compare(o, els, ax, legs, what):
    pts = points(ax)
    if not legs:
        cmp_values([as_scalar(o)], {p: [as_scalar(e)] for p, e in els.items()}, ax, what)
        return
    if not isinstance(o, CircuitComponent):
        raise Bad(f"{what}: {type(o).__name__} instead of a component with legs")
    got = sorted((int({"b": 0, "k": 2}[s] + i), m) for s, i, m in wlegs(o.wires))
    if got != sorted(tuple(l) for l in legs):
        raise Bad(f"{what}: legs {got}, expected {sorted(map(tuple, legs))}")
    bs = tuple(o.ansatz.batch_shape)
    if o.ansatz._lin_sup:
        bs = bs[:-1]
    if bs != tuple(ax):
        raise Bad(f"{what}: batch shape {bs}, expected {tuple(ax)}")
    if type(o.ansatz) is not type(els[pts[0]].ansatz):
        raise Bad(f"{what}: representation {type(o.ansatz).__name__}, unbatched {type(els[pts[0]].ansatz).__name__}")
    if isinstance(o.ansatz, ArrayAnsatz):
        cmp_values([o.ansatz.array], {p: [e.ansatz.array] for p, e in els.items()}, ax, what)
    else:
        c = 3 if len(legs) <= 3 else 2
        cmp_values([CircuitComponent.fock_array(o, c)], {p: [CircuitComponent.fock_array(e, c)] for p, e in els.items()}, ax, what)
def wlegs(w):
    out = []
    for s, side in (("b", w.bra), ("k", w.ket)):
        for i, v in ((0, side.output), (1, side.input)):
            out += [(s, i, m) for m in v.modes]
    return out

VALS = {"probability", "purity", "L2", "fockdist", "phasespace", "quadrature", "quaddist", "symplectic", "XY", "fockarray", "triple", "toquad"}
cov = {}
def run(rec):
    pool = []
    for t, st in enumerate(rec["trace"]):
        op, k, ax = st["op"], st["op"]["k"], tuple(st["ax"])
        what = f"step {t + 1} {k}"
        desc = f"step {t + 1} {json.dumps(op)}"
        try:
            if k == "leaf":
                o, els = leaf(op, ax)
                what += f" {op['ty']} {op['shapes']}"
                compare(o, els, ax, st["legs"], what)
                pool.append((o, els, ax, st["legs"]))
                cov[op["ty"]] = cov.get(op["ty"], 0) + 1
                continue
            a = pool[op["a"] - 1]
            b = pool[op["b"] - 1] if "b" in op else None
            if st["out"] != "ok":
                if st["out"] == "refused":
                    try:
                        binary(k, a[0], b[0], op)
                    except Exception:  # noqa: BLE001
                        continue
                    if k == "shift" and not (a[3] and b[3]):
                        continue
                    raise Bad(f"{what}: accepted although legs collide or sides cannot be completed")
                continue
            pts = points(ax)
            els, eerr = {}, None
            try:
                for p in pts:
                    x = a[1][at(st["ma"], p)]
                    if b is None:
                        els[p] = values(k, x, op) if k in VALS else typed(unary(k, x, op), st["legs"])
                    else:
                        els[p] = typed(elem_binary(k, x, b[1][at(st["mb"], p)], op), st["legs"])
            except Exception as e:  # noqa: BLE001
                eerr = e
            try:
                if b is None:
                    o = values(k, a[0], op) if k in VALS else typed(unary(k, a[0], op), st["legs"])
                else:
                    o = typed(binary(k, a[0], b[0], op), st["legs"])
            except NotImplementedError:
                if k not in VALS | {"expectation", "fidelity"}:
                    pool.append(None)
                    raise StopIteration
                continue
            except Exception as e:  # noqa: BLE001
                if eerr is not None:
                    raise StopIteration
                if k in ("add", "sub") and isinstance(e, ValueError):
                    raise StopIteration
                raise Bad(f"{what}: {exc(e)} although every unbatched instance succeeds")
            if eerr is not None:
                raise StopIteration
            cov[k] = cov.get(k, 0) + 1
            if k in VALS:
                cmp_values(o, els, ax, what)
            elif k in ("expectation", "fidelity"):
                cmp_values([as_scalar(o)], {p: [as_scalar(e)] for p, e in els.items()}, ax, what)
            else:
                compare(o, els, ax, st["legs"], what)
                if not all(finite(arr(as_scalar(e))) if not st["legs"] else finite(arr(CircuitComponent.fock_array(e, 2))) for e in els.values()):
                    raise StopIteration
                pool.append((o, els, ax, st["legs"]))
        except StopIteration:
            return None
        except Bad as e:
            return t, op, k, str(e), desc
        except Exception as e:  # noqa: BLE001
            import traceback as tb
            return t, op, k, exc(e) + " (harness) " + tb.format_exc()[-300:], desc
    return None

for i, rec in enumerate(payload["recs"]):
    r = run(rec)
    if r is None:
        emit(id=i, ok=True)
    else:
        t, op, k, msg, desc = r
        emit(id=i, ok=False, key=f"{k}:{op.get('ty', '')}:{msg.split(': ', 1)[-1][:50]}", clause=k, detail=f"{desc}: {msg}", case=[s["op"] for s in rec["trace"][: t + 1]])
emit(id=-1, ok=True, notrace=True, info=cov)
done()
