"""Replays networks and contraction paths generated by Einsum.tla through mm_einsum."""
from wlib import *
import random
from mrmustard.physics.ansatz import PolyExpAnsatz, ArrayAnsatz
from mrmustard.physics.mm_einsum import mm_einsum


def tensor(o):
    return np.array(o["arr"], dtype=complex).reshape(o["ds"])


def operand(o, kind, rng):
    T = tensor(o)
    nb = sum(l >= 100 for l in o["ls"])
    if kind == "array":
        return ArrayAnsatz(T, batch_dims=nb)
    B, cs = T.shape[:nb], T.shape[nb:]
    n = len(cs)
    Z, I = np.zeros((n, n)), np.eye(n)
    A = np.block([[Z, I], [I, Z]]).astype(complex) if n else np.zeros((0, 0), complex)
    if kind == "poly":
        return PolyExpAnsatz(np.broadcast_to(A, B + A.shape), np.zeros(B + (2 * n,), complex), T)
    part = np.array([rng.randint(-2, 2) for _ in range(T.size)], dtype=complex).reshape(T.shape)
    two = np.stack([T - part, part], axis=nb)
    return PolyExpAnsatz(np.broadcast_to(A, B + (2,) + A.shape), np.zeros(B + (2, 2 * n), complex), two, lin_sup=True)


def recurrence(A, b, shape):
    """Fock amplitudes of exp(zAz/2+bz), from the definition."""
    G = np.zeros(shape, dtype=complex)
    for k in np.ndindex(*shape):
        if not any(k):
            G[k] = 1
            continue
        i = next(j for j, x in enumerate(k) if x)
        p = list(k); p[i] -= 1
        v = b[i] * G[tuple(p)]
        for j in range(len(k)):
            if p[j]:
                q = list(p); q[j] -= 1
                v += A[i, j] * np.sqrt(p[j]) * G[tuple(q)]
        G[k] = v / np.sqrt(k[i])
    return G


def fock(a, nbatch, cs):
    """The array denoted by a result, with core shape cs."""
    if isinstance(a, ArrayAnsatz):
        x = arr(a.array)
        return x
    A, b, c = arr(a.A), arr(a.b), arr(a.c)
    lead = A.shape[:-2]
    n = a.num_CV_vars
    der = c.shape[len(lead):]
    out = np.zeros(lead + tuple(cs), dtype=complex)
    for ix in np.ndindex(*lead):
        if A.shape[-1] == 0:
            out[ix] = c[ix]
            continue
        G = recurrence(A[ix], b[ix], tuple(cs) + der)
        out[ix] = np.tensordot(G, c[ix], axes=(list(range(len(cs), G.ndim)), list(range(len(der)))))
    return out.sum(axis=len(lead) - 1) if a._lin_sup else out


BN = {100 + k: f"b{'xyz'[k]}" for k in range(3)}
lab = lambda ls: [BN.get(l, l) for l in ls]


def spell(path, k, how):
    """The same contraction order in another path language."""
    if how == "LA":
        return path
    live, ssa, ua, nxt = [(i, {i}) for i in range(k)], [], [], k
    for a, b in path:
        x, y = live[a], live[b]
        ssa.append((x[0], y[0]))
        ua.append((max(x[1]) if len(path) % 2 else min(x[1]), min(y[1])))
        live = [z for i, z in enumerate(live) if i not in (a, b)] + [(nxt, x[1] | y[1])]
        nxt += 1
    return ssa if how == "SSA" else ua


n = dict(runs=0, arrays=0, poly=0)
for num, r in enumerate(payload["recs"]):
    rng = random.Random(payload["seed"] * 7919 + num)
    key = f"E05:{r['mode']}:{'-'.join(r['kinds'])}:{'|'.join(','.join(map(str, o['ls'])) for o in r['ops'])}>{','.join(map(str, r['out']))}:{r['path']}"
    how = rng.choice(["LA", "LA", "SSA", "UA"])
    args = []
    for o, k in zip(r["ops"], r["kinds"]):
        args += [operand(o, k, rng), lab(o["ls"])]
    dims = {l: v for l, v in r["trunc"] if v or r["mode"] in ("barg", "mixed")}
    path = [tuple(p) for p in r["path"]]
    before = [[np.array(arr(x), copy=True) for x in ((a.array,) if isinstance(a, ArrayAnsatz) else (a.A, a.b, a.c))] for a in args[::2]]
    expect = tensor(r)
    nb = sum(l >= 100 for l in r["out"])
    case = dict(case=r, how=how)
    try:
        res = mm_einsum(*args, output=lab(r["out"]), contraction_path=spell(path, r["k"], how), fock_dims=dims, path_type=how)
        n["runs"] += 1
        n["arrays" if isinstance(res, ArrayAnsatz) else "poly"] += 1
        got = fock(res, nb, expect.shape[nb:])
    except Exception as e:
        emit(id=key, ok=False, key=key, clause="value", detail=f"{how}: {exc(e)}", case=case)
        continue
    bad = None
    bshape = tuple(res.batch_shape)[: len(res.batch_shape) - (1 if isinstance(res, PolyExpAnsatz) and res._lin_sup else 0)]
    if bshape != expect.shape[:nb]:
        bad = ("batch", f"batch shape {bshape}, expected {expect.shape[:nb]}")
    elif got.shape != expect.shape:
        bad = ("shape", f"shape {got.shape}, expected {expect.shape}")
    elif not close(got, expect):
        bad = ("value", f"{how}: got {np.round(got, 6).ravel()[:8].tolist()}, expected {expect.ravel()[:8].tolist()}")
    # which representation is asked for by fock_dims
    cores = [l for l in r["out"] if l < 100]
    if not bad and cores and r["mode"] == "barg" and not isinstance(res, PolyExpAnsatz):
        bad = ("repr", "Bargmann result expected")
    if not bad and cores and r["mode"] in ("fock", "fockset") and not isinstance(res, ArrayAnsatz):
        if len(path) and all(k == "array" for k in r["kinds"]) :
            bad = ("repr", "Fock result expected")
    if not bad:
        for a, bs in zip(args[::2], before):
            for x, y in zip((a.array,) if isinstance(a, ArrayAnsatz) else (a.A, a.b, a.c), bs):
                if not np.array_equal(arr(x), y):
                    bad = ("operands", "an operand was modified")
    emit(id=key, ok=bad is None, key=key, clause=bad[0] if bad else "value", detail=bad[1] if bad else "", case=case if bad else None)
emit(ok=True, notrace=True, counts=n)
done()
