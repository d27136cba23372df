import random
from wlib import *
from netlib import *
from mrmustard.lab import Circuit, CircuitComponent, Number, BSgate as RealBS, Rgate, Ket, Vacuum, Dgate, Sgate, Coherent, DM, Attenuator
from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz


class BSgate(CircuitComponent):
    """A number-conserving component that the path code recognises as a beamsplitter by its class name."""


def comp(x, v):
    if x.get("bs"):
        return BSgate(ArrayAnsatz(array_of(x), 0), Wires(*sets(x)))
    return mk(x, v)


def same(got, want, what, probs):
    if not want["legs"]:
        if isinstance(got, CircuitComponent) or not close(np.asarray(got), np.array(complex(*want["arr"][0])), rtol=1e-6):
            probs.append((what, f"value {got if not isinstance(got, CircuitComponent) else type(got)} expected {want['arr'][0]}"))
    else:
        compare(got, want, what, probs)


def shapes_ok(circ, rec, probs):
    for j, c in enumerate(rec["circ"]):
        got = list(circ.components[j].manual_shape)
        for i, g in enumerate(got):
            if g is None or not (rec["tight"][j][i] <= g <= rec["loose"][j][i]):
                probs.append(("shapes", f"component {j} leg {i}: shape {g}, must be between {rec['tight'][j][i]} and {rec['loose'][j][i]} (was {c['dims'][i]})"))


def one(rec, probs, rng):
    n = len(rec["circ"])
    comps = [comp(x, (j + rec["id"][0]) % 3) for j, x in enumerate(rec["circ"])]
    before = [fingerprint(c) for c in comps]
    val = rec["val"]
    if "bad" in val:
        return 0
    done_paths = 0
    circ = Circuit(comps)
    if not rec["disc_scalar"]:
        same(circ.contract(), val, "default_path", probs)
        two = Circuit(comps[:2]) >> Circuit(comps[2:]) if n > 2 else Circuit(comps[:1]) >> comps[1]
        same(two.contract(), val, "appended_circuits", probs)
    for p in rec["replay"]:
        circ = Circuit(comps)
        circ.path = [tuple(e) for e in p]
        same(circ.contract(), val, "path", probs)
        if probs:
            probs[-1] = (probs[-1][0], f"path {p}: " + probs[-1][1])
            return done_paths
        done_paths += 1
    raw_open = "bad" in rec["raw"] or bool(rec["raw"]["legs"])
    for k in range(2 if n > 2 else 1):
        circ = Circuit(comps)
        random.seed(rng.randrange(10**6)); settings.SEED = rng.randrange(10**6)
        try:
            circ.optimize(n_init=rng.choice([1, 2, 5]), with_BF_heuristic=bool(k), verbose=False)
        except (ValueError, NotImplementedError) as e:
            if rec["conn"] and not raw_open:
                probs.append(("refused", f"optimise refused a connected closed circuit: {exc(e)}"))
            break
        if not rec["conn"]:
            probs.append(("refusal", "optimise accepted a disconnected circuit"))
            break
        if raw_open and not rec["mixed"]:
            probs.append(("refusal", "optimise accepted a circuit with dangling wires"))
            break
        if [list(e) for e in circ.path] not in rec["paths"]:
            probs.append(("optimised_path", f"path {circ.path} is not a complete valid path"))
        if not rec["mixed"]:
            shapes_ok(circ, rec, probs)
        try:
            same(circ.contract(), val, "optimised_value", probs)
        except Exception as e:
            probs.append(("optimised_value", exc(e)))
        if len(circ) != n or any(type(a) is not type(b) for a, b in zip(circ.components, comps)):
            probs.append(("optimised_components", "optimising changed the list of components"))
    if [fingerprint(c) for c in comps] != before:
        probs.append(("pure", "the components given to the circuit changed"))
    return done_paths


def physical(rec, probs, rng):
    """The same circuit shape with real optical components: number-conserving gates, number states; any representation."""
    comps = []
    for x in rec["circ"]:
        ins = sorted({LBL[m] for c, m in x["legs"] if c == 3})
        outs = sorted({LBL[m] for c, m in x["legs"] if c == 2})
        if len(ins) > 2 or (ins and outs and ins != outs) or any(c < 2 for c, m in x["legs"]):
            return False
        if not ins or not outs:
            st = None
            for m in outs or ins:
                s = Number(m, n=rng.randrange(3), cutoff=4) if rng.random() < 0.6 else Vacuum(m)
                st = s if st is None else st >> s
            if not ins and rng.random() < 0.3 and len(outs) == 1:
                st = Coherent(outs[0], 0.3 + 0.2j)
            comps.append(st if outs else st.dual)
        elif len(ins) == 1:
            comps.append(Rgate(ins[0], rng.uniform(0, 6)) if rng.random() < 0.5 else Sgate(ins[0], 0.2, 0.3))
        else:
            comps.append(RealBS(tuple(ins), rng.uniform(0, 1.5), rng.uniform(0, 6)))
    if not rec["conn"] or rec["raw"].get("legs"):
        return False
    circ = Circuit(comps)
    want = circ.contract()
    opt = Circuit(comps)
    random.seed(rng.randrange(10**6)); settings.SEED = rng.randrange(10**6)
    before = [c.auto_shape() for c in comps]
    opt.optimize(n_init=2, with_BF_heuristic=rng.random() < 0.5, verbose=False)
    if [list(e) for e in opt.path] not in rec["paths"]:
        probs.append(("optimised_path", f"physical: path {opt.path} is not a complete valid path"))
    got = opt.contract()
    if not close(np.asarray(got), np.asarray(want), rtol=1e-6, atol=1e-8):
        probs.append(("optimised_value", f"physical circuit {[c.name for c in comps]}: value {got} after optimising, {want} before; path {opt.path}"))
    if [c.auto_shape() for c in comps] != before:
        probs.append(("pure", "optimising a circuit changed the Fock shapes of the components it was given"))
    for c, b in zip(opt.components, before):
        if any(s > t for s, t in zip(c.auto_shape(), b)):
            probs.append(("shapes", f"{c.name}: shape {b} raised to {c.auto_shape()}"))
    if all(isinstance(c.ansatz, ArrayAnsatz) or not isinstance(c, (Sgate,)) for c in comps) and not any(isinstance(c, (Coherent,)) for c in comps):
        settings.DEFAULT_REPRESENTATION = "Fock"
        try:
            got = opt.contract()
            if not close(np.asarray(got), np.asarray(want), rtol=1e-6, atol=1e-8):
                probs.append(("optimised_value", f"physical circuit in Fock representation {[c.name for c in comps]}: {got} after optimising, {want} before; shapes {[c.manual_shape for c in opt.components]} path {opt.path}"))
        finally:
            settings.DEFAULT_REPRESENTATION = "Bargmann"
    return True


def gaussian(rec, probs, nrng):
    """The same circuit shape with random strongly squeezed Gaussian kernels: every complete order gives the same function."""
    if len(rec["replay"]) < 2 or rec["disc_scalar"]:
        return 0
    comps = []
    aligned, phi = nrng.random() < 0.7, nrng.uniform(-0.4, 0.4)
    for x in rec["circ"]:
        n = len(x["legs"])
        u = np.linalg.qr(nrng.normal(size=(n, n)) + 1j * nrng.normal(size=(n, n)) * (not aligned))[0]
        A = u @ np.diag(nrng.uniform(0.9, 0.99, size=n)) @ u.T * np.exp(1j * phi * nrng.uniform(0.5, 1))
        b = 0.3 * (nrng.normal(size=n) + 1j * nrng.normal(size=n))
        comps.append(CircuitComponent(PolyExpAnsatz(math.astensor(A), math.astensor(b), math.astensor(np.complex128(nrng.normal() + 1j * nrng.normal()))), Wires(*sets(x))))
    ref = None
    for p in [None] + rec["replay"]:
        circ = Circuit(comps)
        if p is not None:
            circ.path = [tuple(e) for e in p]
        got = circ.contract()
        if isinstance(got, CircuitComponent):
            pt = [0.1 + 0.05j * k for k in range(len(got.wires))]
            got = got.ansatz(*pt) if pt else got.ansatz.scalar
        got = np.asarray(got)
        if ref is None:
            ref = got
        elif not close(got, ref, rtol=1e-5, atol=1e-9 * max(1, float(np.max(np.abs(ref))))):
            probs.append(("gaussian_order", f"value at a point: {got} along path {p}, {ref} component by component"))
            break
    return 1


rng = random.Random(payload["seed"])
nrng = np.random.default_rng(payload["seed"])
for i, rec in enumerate(payload["recs"]):
    relabel(i)
    probs = []
    n = 0
    phys = False
    gau = 0
    st = random.getstate()
    try:
        n = one(rec, probs, rng)
        if payload.get("physical"):
            phys = physical(rec, probs, rng)
        if payload.get("physical") or payload.get("gaussian"):
            gau = gaussian(rec, probs, nrng)
    except Exception as e:
        probs.append(("exception", exc(e)))
    io = ";".join("".join(str(m) for c, m in x["legs"] if c in (1, 3)) + ">" + "".join(str(m) for c, m in x["legs"] if c in (0, 2)) for x in rec["circ"])
    if probs:
        emit(id=i, ok=False, key=f"{probs[0][0]}:{io}", clause=probs[0][0], detail="; ".join(f"{a}: {b}" for a, b in probs[:4]), case=dict(circ=rec["circ"], path=rec["replay"][:1]))
    else:
        emit(id=i, ok=True, paths=n, phys=phys, gau=gau)
done()
