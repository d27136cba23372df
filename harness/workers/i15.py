"""Replays histories of Pool.tla; after each step every object's observation must match its version."""
from wlib import *
import random, copy
from mrmustard.lab import *
from mrmustard.lab import Circuit, CircuitComponent, Ket, DM
from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
from mrmustard.physics.wires import ReprEnum

settings.AUTOSHAPE_MAX = 8
settings.DEFAULT_FOCK_SIZE = 4
settings.AUTOSHAPE_PROBABILITY = 0.9

def rand_array(rng, shape):
    a = np.array([complex(rng.randint(-3, 3), rng.randint(-3, 3)) for _ in range(int(np.prod(shape)))]).reshape(shape)
    a[(0,) * len(shape)] += 4
    return math.astensor(a)

def construct(kind, ms, c, rng):
    m, n = tuple(ms), len(ms)
    u = lambda lo=0.05, hi=0.6: round(rng.uniform(lo, hi), 3)
    if kind == "ket":
        if n == 1:
            return [lambda: Coherent(m[0], u() + 1j * u()), lambda: Coherent(m[0], u(), alpha_trainable=True), lambda: SqueezedVacuum(m[0], u(), u(), r_trainable=True),
                    lambda: Number(m[0], rng.randrange(3), 4), lambda: DisplacedSqueezed(m[0], u(), u(), u()), lambda: Ket.random(m, seed=rng.randrange(99)),
                    lambda: Vacuum(m[0]), lambda: Ket.from_fock(m, rand_array(rng, (3,))), lambda: Coherent(m[0], [u(), u()]), lambda: Coherent(m[0], u()).to_fock(4),
                    lambda: Coherent(m[0], u()) + Coherent(m[0], -0.3), lambda: Ket.from_fock(m, rand_array(rng, (2, 3)), batch_dims=1)][c]()
        return [lambda: TwoModeSqueezedVacuum(m, u()), lambda: TwoModeSqueezedVacuum(m, u(), r_trainable=True, phi_trainable=True), lambda: Ket.random(m, seed=rng.randrange(99)),
                lambda: GKet(m, symplectic_trainable=True), lambda: Vacuum(m), lambda: Ket.from_fock(m, rand_array(rng, (3, 2))), lambda: TwoModeSqueezedVacuum(m, [0.1, 0.4]),
                lambda: QuadratureEigenstate(m, 0.2), lambda: Coherent(m[0], u()) >> SqueezedVacuum(m[1], u()), lambda: Number(m[0], 1, 3) >> Number(m[1], 2, 3),
                lambda: TwoModeSqueezedVacuum(m, 0.2) + TwoModeSqueezedVacuum(m, 0.5), lambda: Ket.random(m).to_fock((3, 4))][c]()
    if kind == "dm":
        if n == 1:
            return [lambda: Thermal(m[0], u()), lambda: Thermal(m[0], u(), nbar_trainable=True), lambda: Coherent(m[0], u()).dm(), lambda: DM.random(m, seed=rng.randrange(99)),
                    lambda: Number(m[0], 1, 3).dm(), lambda: DM.from_fock(m, rand_array(rng, (3, 3))), lambda: Thermal(m[0], [0.1, 0.3]), lambda: Thermal(m[0], u()).to_fock(3),
                    lambda: DM.from_fock(m, rand_array(rng, (2, 2, 2)), batch_dims=1), lambda: GDM(m[0], 0.7), lambda: Vacuum(m[0]) >> Attenuator(m[0], 0.5), lambda: Thermal(m[0], 0.1) + Thermal(m[0], 0.5)][c]()
        return [lambda: DM.random(m, seed=rng.randrange(99)), lambda: GDM(m, [0.5, 0.8], symplectic_trainable=True), lambda: TwoModeSqueezedVacuum(m, u()).dm(), lambda: Thermal(m[0], u()) >> Thermal(m[1], u())][c % 4]()
    if kind == "uni":
        if n == 1:
            return [lambda: Dgate(m[0], u()), lambda: Dgate(m[0], u(), alpha_trainable=True), lambda: Sgate(m[0], u(), u(), r_trainable=True), lambda: Rgate(m[0], u()),
                    lambda: Rgate(m[0], u(), theta_trainable=True), lambda: Ggate(m[0], symplectic_trainable=True), lambda: Pgate(m[0], u()), lambda: Unitary.random(m, seed=rng.randrange(99)),
                    lambda: Dgate(m[0], [0.1, 0.3]), lambda: Dgate(m[0], u()).to_fock(3), lambda: Identity(m[0]), lambda: Sgate(m[0], u())][c]()
        return [lambda: BSgate(m, u(), u()), lambda: BSgate(m, u(), theta_trainable=True), lambda: S2gate(m, u(), r_trainable=True), lambda: MZgate(m, u(), u()), lambda: CXgate(m, u()), lambda: CZgate(m, u(), s_trainable=True),
                lambda: Interferometer(m, unitary_trainable=True), lambda: RealInterferometer(m), lambda: Ggate(m), lambda: Unitary.random(m, seed=rng.randrange(99)), lambda: BSgate(m, u()).to_fock((3, 2, 3, 2)), lambda: Identity(m)][c]()
    if kind == "chan":
        if n == 1:
            return [lambda: Attenuator(m[0], u()), lambda: Attenuator(m[0], u(), transmissivity_trainable=True), lambda: Amplifier(m[0], 1.5), lambda: FockDamping(m[0], u()), lambda: GaussRandNoise(m[0], 0.2 * np.eye(2)),
                    lambda: Channel.random(m, seed=rng.randrange(99)), lambda: Attenuator(m[0], [0.3, 0.6]), lambda: Attenuator(m[0], u()).to_fock(3), lambda: PhaseNoise(m[0], 0.3), lambda: Dgate(m[0], u()) >> Attenuator(m[0], u())][c % 10]()
        return [lambda: Channel.random(m, seed=rng.randrange(99)), lambda: BSgate(m, u()) >> Attenuator(m[0], u()), lambda: Attenuator(m[0], u()) >> Attenuator(m[1], u())][c % 3]()
    raise AssertionError(kind)

def small(x):
    return isinstance(x, CircuitComponent)

def touch(x, names):
    for n in names:
        try:
            v = getattr(x, n)
            if callable(v):
                v()
        except Exception:
            pass

def unary(name, x, rng, ms):
    if name == "on":
        return x.on(ms)
    if name == "to_fock":
        k = rng.randrange(3)
        return x.to_fock(3) if k else x.to_fock(tuple(rng.randint(1, 4) for _ in range(len(x.wires.quantum))))
    if name == "to_fock_auto":
        return x.to_fock()
    if name in ("adjoint", "dual"):
        return getattr(x, name)
    if name == "light_copy":
        return x._light_copy()
    if name == "mul":
        return x * rng.choice([2, 0.5, 1j, 1.0, 3])
    if name == "rmul":
        return rng.choice([2, 0.5, 1j, 1.0, np.float64(1.5)]) * x
    if name == "div":
        return x / rng.choice([2, 1.0, 1j])
    if name == "addself":
        return x + x
    if name == "subself":
        return x - 0.5 * x
    if name == "getitem":
        return x[x.modes[rng.randrange(len(x.modes))]]
    if name == "formal":
        return x.formal_stellar_decomposition([x.modes[0]])[0]
    if name == "physical":
        return x.physical_stellar_decomposition([x.modes[0]])[0]
    if name == "traceout":
        return x >> TraceOut(x.modes[0])
    if name == "selfshift":
        return x >> x
    if name == "shiftdual":
        return x >> x.dual
    if name == "observe_fock":
        n = len(x.wires.quantum)
        x.fock_array(tuple(rng.randint(1, 4) for _ in range(n)))
        x.fock_array()
        x.auto_shape()
        x.quadrature(*[np.linspace(-1, 1, 3)] * n)
        return None
    if name == "observe_state":
        touch(x, ["probability", "L2_norm", "purity", "is_pure", "is_physical", "is_separable", "wigner", "auto_shape", "is_positive"])
        for f in (lambda: x.fock_distribution(3), lambda: x.phase_space(0), lambda: x.quadrature_distribution(np.linspace(-1, 1, 3)), lambda: x.expectation(Rgate(x.modes[0], 0.3)),
                  lambda: x.visualize_2d(resolution=5, return_fig=True, min_shape=4) if rng.random() < 0.1 else None):
            try:
                f()
            except Exception:
                pass
        return None
    if name == "observe_map":
        touch(x, ["symplectic", "XY", "is_CP", "is_TP", "is_unitary", "is_symplectic", "is_physical", "quadrature_triple"])
        return None
    if name == "observe_wires":
        w = x.wires
        for v in ("input", "output", "ket", "bra", "quantum", "classical", "adjoint", "dual", "sorted_wires", "ids", "indices", "modes", "args"):
            touch(w, [v])
        w[x.modes[0]]
        hash(w)
        repr(x)
        str(x)
        x == x
        try:
            w @ w.dual
            w + w.on if False else None
            v = w.input.copy()
            for q in v.quantum:
                q.fock_cutoff = 5
        except Exception:
            pass
        return None
    if name == "observe_ansatz":
        a = x.ansatz
        fs = [lambda: a.conj, lambda: a + a, lambda: a - a, lambda: -a, lambda: a * 2, lambda: a / 2, lambda: a & a, lambda: a == a, lambda: a.scalar,
              lambda: a.reorder(list(reversed(range(a.core_dims)))), lambda: a.trace([0], [1]), lambda: a * a, lambda: a.simplify(), lambda: a.decompose_ansatz(),
              lambda: a(*[0.3] * a.core_dims), lambda: a(*([0.3] + [None] * (a.core_dims - 1))), lambda: a.reduce((2,) * a.core_dims), lambda: a.to_dict(), lambda: a.PS,
              lambda: a.reorder_batch(list(reversed(range(a.batch_dims))))]
        rng.shuffle(fs)
        for f in fs:
            try:
                f()
            except Exception:
                pass
        return None
    if name == "sample":
        for f in (lambda: PNRSampler(4).sample(x, 3), lambda: HomodyneSampler(bounds=(-4, 4), num=20).sample(x, 2)):
            try:
                f()
            except Exception:
                pass
        return None
    if name == "serialize":
        x._serialize()
        return None
    if name == "scalars":
        x >> 2.0
        2.0 @ x
        return None
    if name == "circ_contract":
        x.contract()
        return None
    if name == "circ_shift":
        return x >> x
    if name == "circ_repr":
        repr(x)
        len(x)
        x == x
        return None
    v = getattr(x, name)
    return v() if callable(v) else v

def binary(name, a, b, rng):
    if name == "shift":
        return a >> b
    if name == "contract":
        return a.contract(b, *(["zip"] if rng.random() < 0.4 else []))
    if name == "add":
        return a + b
    if name == "sub":
        return a - b
    if name == "eq":
        a == b
        a != b
        return None
    if name in ("expectation", "fidelity"):
        getattr(a, name)(b)
        return None
    if name == "overlap":
        a >> b.dual
        return None
    if name == "tensor":
        return a >> b
    if name == "circuit":
        return Circuit([a, b, b])
    if name == "append":
        return a >> b
    raise AssertionError(name)

# ---------------------------------------------------------------- observations
def data(x):
    a = x.ansatz
    if a is None:
        return None
    if isinstance(a, ArrayAnsatz):
        t = (a.array,)
    else:
        t = a.triple
    return (type(a).__name__, a.batch_shape, bool(a._lin_sup)) + tuple((arr(v).shape, arr(v).astype(complex).round(10).tobytes()) for v in t)

def obsV(x):
    if isinstance(x, Circuit):
        return ("Circuit", tuple((obsV(c), obsS(c)) for c in x.components), tuple(map(tuple, x.path)))
    w = x.wires
    return (type(x).__name__, x.name, x.short_name, tuple((q.mode, q.is_ket, q.is_out, q.index, str(q.repr), q.id) for q in w.sorted_wires), w.ids, data(x))
def obsS(x):
    return () if isinstance(x, Circuit) else tuple(x.manual_shape)
def obsP(x):
    if isinstance(x, Circuit):
        return tuple(obsP(c) for c in x.components)
    return tuple((n, type(p).__name__, getattr(p, "bounds", None), getattr(p, "update_fn", None), arr(p.value).round(10).tobytes()) for n, p in x.parameters.all_parameters.items())
OBS = (obsV, obsS, obsP)
WHAT = ("representation, class, name or wires", "stored Fock shape", "parameters")

counts, refused = {}, {}
def run(rec, probs, rng):
    pool, known = [], {}
    for t, step in enumerate(rec["trace"]):
        op = step["op"]
        k = op["k"]
        label = k + ":" + op.get("name", "")
        res, made = None, k in ("new", "un", "bin")
        try:
            if k == "new":
                res = construct(op["kind"], op["ms"], op["c"], rng)
            elif k == "un":
                x = pool[op["i"] - 1]
                if x is not None:
                    res = unary(op["name"], x, rng, op["ms"])
                    if any(res is p for p in pool):
                        res = None
            elif k == "bin":
                a, b = pool[op["i"] - 1], pool[op["j"] - 1]
                if a is not None and b is not None:
                    res = binary(op["name"], a, b, rng)
                    if any(res is p for p in pool):
                        res = None
            else:
                x = pool[op["i"] - 1] if "i" in op else None
                if x is not None:
                    if k == "shape":
                        n = len(x.wires.quantum)
                        if isinstance(x.ansatz, ArrayAnsatz):
                            x.manual_shape = tuple(rng.randint(1, 9) for _ in range(n))
                        else:
                            x.manual_shape = tuple(rng.choice([None, rng.randint(1, 9)]) for _ in range(n))
                    elif k == "optimize":
                        try:
                            x.optimize(n_init=2, verbose=False)
                        except NotImplementedError:
                            pass
                    elif k == "path":
                        x.path = [(0, i) for i in range(1, len(x))]
                    elif k == "compshape":
                        c = x[rng.randrange(len(x))]
                        c.manual_shape = tuple(rng.randint(1, 9) for _ in range(len(c.wires.quantum)))
                    elif k == "var":
                        vs = list(x.parameters.variables.values())
                        if vs:
                            v = vs[op["r"] % len(vs)]
                            v.value = math.astensor(arr(v.value) * 1.25)
            counts[label] = counts.get(label, 0) + 1
        except Exception as e:
            refused[label] = refused.get(label, 0) + 1
            if k == "new":
                raise
            res = None
        if made:
            if not isinstance(res, (CircuitComponent, Circuit)):
                res = None
            elif not isinstance(res, Circuit) and (res.ansatz is None or len(res.wires.quantum) > 6):
                res = None
            pool.append(res)
        for j, x in enumerate(pool):
            if x is None:
                continue
            for q in range(3):
                ver = (j, q, step["vers"][j][q])
                o = OBS[q](x)
                if ver not in known:
                    known[ver] = o
                elif known[ver] != o:
                    probs.append((f"{k}:{op.get('name', '')}", f"step {t + 1} {op}: the {WHAT[q]} of object {j + 1} ({type(x).__name__}, not a target of this step) changed"))
                    known[ver] = o
        if len(probs) > 3:
            return

for i, rec in enumerate(payload["recs"]):
    probs = []
    rng = random.Random(payload["seed"] * 100003 + i)
    settings.SEED = 1 + i
    try:
        run(rec, probs, rng)
    except Exception as e:
        probs.append(("driver", exc(e) + traceback.format_exc()[-600:]))
    if probs:
        emit(id=i, ok=False, key=probs[0][0], clause=probs[0][0], detail="; ".join(f"{a}: {b}" for a, b in probs[:4]), case=[t["op"] for t in rec["trace"]])
    else:
        emit(id=i, ok=True)
emit(ok=True, notrace=True, ops=counts, refused=refused)
done()
