"""Fock amplitudes of the real code against the tables of Lattice.tla."""
import itertools, random
from wlib import *
from math import factorial
from mrmustard.lab import (Ket, DM, Unitary, Operation, Channel, Map, CircuitComponent, Dgate, Sgate, BSgate, SqueezedVacuum, Coherent)
from mrmustard.math.lattice import strategies, steps
from mrmustard.math.lattice.strategies.beamsplitter import apply_BS_schwinger
from mrmustard.physics.ansatz import PolyExpAnsatz
from mrmustard.physics.wires import Wires

RNG = random.Random(payload["seed"])
NRNG = np.random.default_rng(payload["seed"])
COUNT = {}
INTERP = payload.get('nopnr', False)        # some library functions only exist compiled


class Bad(Exception):
    pass


def cnt(k):
    COUNT[k] = COUNT.get(k, 0) + 1


def zz(x):
    return np.array(x, dtype=float)[..., 0] + 1j * np.array(x, dtype=float)[..., 1]


def same(name, got, exp, rtol=1e-9, atol=1e-11):
    got, exp = arr(got), np.asarray(exp)
    if got.shape != exp.shape:
        raise Bad(f"{name}: shape {got.shape}, expected {exp.shape}")
    scale = max(float(np.max(np.abs(exp), initial=0)), 1e-30)
    d = np.abs(got - exp)
    if not (np.all(np.isfinite(got)) and np.all(d <= atol + rtol * scale)):
        k = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if d.ndim else ()
        raise Bad(f"{name}: at {tuple(int(x) for x in k)} got {got[k]}, expected {exp[k]} (shape {got.shape})")
    cnt(name)


class P:
    """A problem of the specification: lattice table, tangents, and the triple given to the code."""

    def __init__(self, rec):
        p = rec["prob"]
        self.kind, self.rec = p["kind"], p
        self.shape = tuple(p["shape"])
        self.D = len(self.shape)
        self.A0, self.b0 = zz(p["A"]), zz(p["b"])
        self.lam2 = p["lam2"]
        self.f = zz(rec["f"]).reshape(self.shape)
        self.n = np.indices(self.shape)
        self.w = self.n.sum(axis=0)
        fac = np.ones(self.shape)
        for k in range(self.D):
            fac = fac * np.array([factorial(int(j)) for j in range(self.shape[k])], dtype=float).reshape([-1 if i == k else 1 for i in range(self.D)])
        self.sqf = np.sqrt(fac)
        self.dirs = [(d["name"], zz(d["A"]), zz(d["b"]), zz(t).reshape(self.shape)) for d, t in zip(p["dirs"], rec["d"])]

    def tri(self, lam2=None, sg=1):
        lam2 = lam2 or self.lam2
        return self.A0 / lam2, sg * self.b0 / np.sqrt(lam2)

    def G(self, c, lam2=None, sg=1, table=None):
        lam2 = lam2 or self.lam2
        t = self.f if table is None else table
        return c * t * (sg ** (self.w % 2)) * float(lam2) ** (-self.w / 2) / self.sqf


def rc():
    return complex(RNG.choice([1, -1, 0.5, 2]), RNG.choice([0, 0.5, -1]))


def cotangent(shape):
    return NRNG.integers(-3, 4, shape) + 1j * NRNG.integers(-3, 4, shape)


def junk(shape, bad):
    z = NRNG.normal(size=shape) + 1j * NRNG.normal(size=shape)
    if bad:
        z[NRNG.random(shape) < 0.3] = np.nan
    return z


def vjp(fn, primals, cot):
    import jax
    out, pull = jax.vjp(fn, *primals)
    return out, pull(jax.numpy.asarray(cot) if not isinstance(out, (tuple, list)) else cot)


def pair(name, g, G, c, lam2, prob, dA, db, dc):
    """<vjp, direction> = <cotangent, derivative along the direction>, for symmetric matrix directions"""
    for nm, A, b, t in prob.dirs:
        want = np.sum(g * prob.G(c, lam2, table=t))
        got = np.sum(arr(dA) * A) / lam2 + np.sum(arr(db) * b) / np.sqrt(lam2)
        same(f"{name}.vjp", got, want, rtol=1e-8, atol=1e-8)
    if dc is not None:
        same(f"{name}.vjp_c", arr(dc), np.sum(g * G) / c, rtol=1e-8, atol=1e-8)


# ------------------------------------------------------------------ generic
def generic(p):
    A, b = p.tri()
    c = rc()
    G = p.G(c)
    mA, mb, mc = math.astensor(A, dtype="complex128"), math.astensor(b, dtype="complex128"), math.astensor(c, dtype="complex128")
    same("vanilla", math.hermite_renormalized(mA, mb, mc, p.shape), G)
    same("stable", math.hermite_renormalized(mA, mb, mc, p.shape, stable=True), G)
    if RNG.random() < 0.3:
        with settings(STABLE_FOCK_CONVERSION=True):
            same("stable_setting", math.hermite_renormalized(mA, mb, mc, list(p.shape)), G)
    # batches: the same table under other scalings, signs and weights
    bs = RNG.choice([(1,), (2,), (3,), (2, 2)])
    k = int(np.prod(bs))
    lams = [RNG.choice([1, 2, 5, 10]) for _ in range(k)]
    sgs = [RNG.choice([1, -1]) for _ in range(k)]
    cs = [rc() for _ in range(k)]
    AA, BB = map(np.stack, zip(*[p.tri(l, s) for l, s in zip(lams, sgs)]))
    st = RNG.random() < 0.5
    GG = np.stack([p.G(cc, l, s) for cc, l, s in zip(cs, lams, sgs)])
    bt = [math.astensor(x, dtype="complex128") for x in (AA.reshape(bs + A.shape), BB.reshape(bs + b.shape), np.array(cs).reshape(bs))]
    same("batched", math.hermite_renormalized(*bt, p.shape, stable=st), GG.reshape(bs + p.shape))
    Bb = np.stack([s * b for s in sgs])
    same("b_batched", math.hermite_renormalized(mA, math.astensor(Bb.reshape(bs + b.shape), dtype="complex128"), mc, p.shape, stable=st), np.stack([p.G(c, sg=s) for s in sgs]).reshape(bs + p.shape))
    if BACKEND == "numpy":
        for name, args, exp in (("out", (mA, mb, mc), G), ("out_batched", tuple(bt), GG.reshape(bs + p.shape))):
            buf = junk(exp.shape, RNG.random() < 0.4)
            res = math.hermite_renormalized(*args, p.shape, stable=st, out=buf)
            same(name, res, exp)
            same(name + "_buffer", buf, exp)
        try:
            math.hermite_renormalized(mA, mb, mc, p.shape, out=np.zeros([s - 1 for s in p.shape], dtype=complex))
            raise Bad("out_small: a buffer that is too small was accepted")
        except ValueError:
            cnt("out_small")
    if INTERP:
        return component(p, A, b, c, G)
    # binomial: whole weights at a time, until the norm or the weight limit is passed
    norms = [float(np.sum(np.abs(G[p.w == k]) ** 2)) for k in range(int(p.w.max()) + 1)]
    cum = np.cumsum(norms)
    for _ in range(2):
        stop = RNG.randrange(len(norms))
        ok = norms[stop] > 1e-6 * cum[stop] and stop > 0
        l2 = float(cum[stop] - norms[stop] / 2) if ok else None
        gc = RNG.choice([None, RNG.randint(1, len(norms))])
        if l2 is None:
            l2, last = 1e30, len(norms) - 1
        else:
            last = next(k for k in range(1, len(norms)) if cum[k] > l2)
        if gc is not None:
            last = min(last, gc - 1)
        res = math.hermite_renormalized_binomial(mA, mb, mc, p.shape, l2, gc)
        same("binomial", res, np.where(p.w <= last, G, 0))
    if RNG.random() < 0.4:     # default bound on the norm
        cn = 0.9 / np.sqrt(cum[-1]) * abs(c)        # total norm 0.81: everything is computed
        Gn = G / c * cn
        same("binomial_default", math.hermite_renormalized_binomial(mA, mb, math.astensor(cn, dtype="complex128"), p.shape, None, None), Gn)
    if BACKEND == "numpy":
        d = strategies.binomial_dict(p.shape, A, b, c, None, len(norms))
        got = np.zeros(p.shape, dtype=complex)
        for key, v in d.items():
            got[tuple(key)] = v
        same("binomial_dict", got, G)
        if len(norms) > 1:
            d = strategies.binomial_dict(p.shape, A, b, c)
            for key, v in d.items():
                if abs(v - G[tuple(key)]) > 1e-9 * max(1, np.abs(G).max()):
                    raise Bad(f"binomial_dict: {key} holds {v}, expected {G[tuple(key)]}")
    # derivatives
    g = cotangent(p.shape)
    if BACKEND == "numpy":
        dA, db, dc = strategies.vanilla_vjp_numba(np.array(G), c, g)
        pair("vanilla", g, G, c, p.lam2, p, dA, db, dc)
        gg = np.stack([cotangent(p.shape) for _ in range(k)])
        dA, db, dc = strategies.vanilla_batch_vjp_numba(GG, np.array(cs), gg)
        for j in range(k):
            sj = type(p).__new__(type(p))
            sj.__dict__ = dict(p.__dict__)
            sj.dirs = [(nm, X, sgs[j] * y, t * 1.0) for nm, X, y, t in p.dirs]
            for nm, X, y, t in p.dirs:     # f_n(-b) = (-1)^n f_n(b), so its derivative along (X, sg y) carries the same sign
                want = np.sum(gg[j] * p.G(cs[j], lams[j], sgs[j], table=t))
                got = np.sum(dA[j] * X) / lams[j] + sgs[j] * np.sum(db[j] * y) / np.sqrt(lams[j])
                same("batched.vjp", got, want, rtol=1e-8, atol=1e-8)
            same("batched.vjp_c", dc[j], np.sum(gg[j] * GG[j]) / cs[j], rtol=1e-8, atol=1e-8)
        one_step(p, A, b, c, G)
    else:
        for nm, kw in (("vanilla", dict(stable=False)), ("stable", dict(stable=True))):
            out, (dA, db, dc) = vjp(lambda x, y, z: math.hermite_renormalized(x, y, z, p.shape, **kw), (mA, mb, mc), g)
            pair(nm, g, G, c, p.lam2, p, dA, db, dc)
        gg = np.stack([cotangent(p.shape) for _ in range(k)]).reshape(bs + p.shape)
        out, (dA, db, dc) = vjp(lambda x, y, z: math.hermite_renormalized(x, y, z, p.shape), bt, gg)
        dA, db, dc, gf = arr(dA).reshape(k, p.D, p.D), arr(db).reshape(k, p.D), arr(dc).reshape(k), gg.reshape((k, *p.shape))
        for j in range(k):
            for nm, X, y, t in p.dirs:
                same("batched.vjp", np.sum(dA[j] * X) / lams[j] + sgs[j] * np.sum(db[j] * y) / np.sqrt(lams[j]),
                     np.sum(gf[j] * p.G(cs[j], lams[j], sgs[j], table=t)), rtol=1e-8, atol=1e-8)
        if np.abs(G).max() > 0:
            out, (dA, db, dc) = vjp(lambda x, y, z: math.hermite_renormalized_binomial(x, y, z, p.shape, 1e30, len(norms)), (mA, mb, mc), g)
            pair("binomial", g, G, c, p.lam2, p, dA, db, dc)
    component(p, A, b, c, G)


def one_step(p, A, b, c, G):
    """single steps of the library on the finished table"""
    idx = [tuple(int(x) for x in n) for n in np.ndindex(*p.shape) if sum(n)]
    if not idx:
        return
    for n in RNG.sample(idx, min(4, len(idx))):
        same("vanilla_step", steps.vanilla_step(G, A, b, n), G[n], atol=1e-9 * max(1, np.abs(G).max()))
        dA, db = steps.vanilla_step_grad(G, n, np.zeros((p.D, p.D), complex), np.zeros(p.D, complex)) if all(x > 1 for x in n) else (None, None)
        if dA is not None:
            for nm, X, y, t in p.dirs:
                same("vanilla_step_grad", np.sum(dA * np.triu(X)) / p.lam2 + np.sum(db * y) / np.sqrt(p.lam2), p.G(c, table=t)[n], rtol=1e-8, atol=1e-8)
    if RNG.random() < 0.3 and len(idx) < 150:
        dGdA, dGdB = np.zeros(p.shape + (p.D, p.D), complex), np.zeros(p.shape + (p.D,), complex)
        for n in sorted(idx, key=sum):
            dGdA, dGdB = steps.vanilla_step_jacobian(G, A, b, n, dGdA, dGdB)
        for nm, X, y, t in p.dirs:
            same("vanilla_step_jacobian", np.einsum("...ij,ij->...", dGdA, X) / p.lam2 + np.einsum("...i,i->...", dGdB, y) / np.sqrt(p.lam2), p.G(c, table=t), rtol=1e-8, atol=1e-8)


KW = ["modes_out_bra", "modes_in_bra", "modes_out_ket", "modes_in_ket"]


def component(p, A, b, c, G):
    """components whose representation is the triple: their Fock array is the table"""
    labels = sorted(RNG.sample(range(40), p.D))
    sets = [set() for _ in range(4)]
    order = []
    for i in range(p.D):
        sets[RNG.choice([2, 2, 3, 0, 1])].add(labels[i])
    w = Wires(*sets)
    # the ansatz's variables follow the standard order of the wires; the k-th variable of the table is the k-th of the component
    comp = CircuitComponent(PolyExpAnsatz(math.astensor(A, dtype="complex128"), math.astensor(b, dtype="complex128"), math.astensor(c, dtype="complex128")), w)
    same("fock_array", comp.fock_array(p.shape), G)
    if RNG.random() < 0.5:
        same("to_fock", comp.to_fock(p.shape).ansatz.array, G)
    s = RNG.randint(1, min(p.shape))
    same("fock_array_int", comp.fock_array(s), G[(slice(0, s),) * p.D])
    # derived variables: the last variables carry a polynomial
    if p.D >= 2:
        k = RNG.randint(1, p.D - 1)
        ds = p.shape[p.D - k:]
        poly = NRNG.integers(-2, 3, ds) + 1j * NRNG.integers(-2, 3, ds)
        an = PolyExpAnsatz(math.astensor(A, dtype="complex128"), math.astensor(b, dtype="complex128"), math.astensor(poly * c, dtype="complex128"))
        sets = [set(), set(), set(labels[: p.D - k]), set()]
        core = CircuitComponent(an, Wires(*sets))
        # c_k d^k/dy^k / ... : the code pairs c_k with the renormalised amplitude
        ax = tuple(range(p.D - k, p.D))
        facs = p.sqf[(0,) * (p.D - k)]
        exp = np.sum(G * poly if payload.get("renorm", True) else G * poly * facs, axis=ax)
        same("fock_array_derived", core.fock_array(p.shape[: p.D - k]), exp)


# ---------------------------------------------------------------------- pnr
def pnr(p):
    M = p.rec["M"]
    A, b = p.tri()
    c = rc()
    G = p.G(c)
    cut = p.shape[:M]
    mA, mb, mc = (math.astensor(x, dtype="complex128") for x in (A, b, c))
    diag = np.array([G[n + n] for n in np.ndindex(*cut)]).reshape(cut)
    herm = np.allclose(A, A.T) and np.allclose(A[M:, M:], A[:M, :M].conj())
    same("diagonal", math.hermite_renormalized_diagonal(mA, mb, mc, cut), diag)
    perm = [i for m in range(M) for i in (m, m + M)]
    Ar, br = (math.astensor(x, dtype="complex128") for x in (A[np.ix_(perm, perm)], b[perm]))
    same("diagonal_reordered", math.hermite_renormalized_diagonal(Ar, br, mc, cut, reorderedAB=False), diag)
    sgs = [RNG.choice([1, -1]) for _ in range(RNG.randint(1, 3))]
    Bb = math.astensor(np.stack([s * b for s in sgs], axis=-1), dtype="complex128")
    # the diagonal has even weight, hence does not depend on the sign of b: batches of signs repeat it
    same("diagonal_batched", math.hermite_renormalized_diagonal(mA, Bb, mc, cut), np.stack([diag] * len(sgs), axis=-1))
    if M >= 2:
        one = np.array([G[(i, *n, j, *n)] for i in range(cut[0]) for j in range(cut[0]) for n in np.ndindex(*cut[1:])]).reshape((cut[0], cut[0], *cut[1:]))
        oc, pc = cut[0] - 1, tuple(x - 1 for x in cut[1:])
        same("leftover", math.hermite_renormalized_1leftoverMode(mA, mb, mc, oc, pc), one)
        same("leftover_reordered", math.hermite_renormalized_1leftoverMode(Ar, br, mc, oc, pc, False), one)
        for st in (False, True):
            r = strategies.fast_diagonal(A, b, c, oc, pc, st)
            same("fast_diagonal", np.moveaxis(r, (-2, -1), (0, 1)), one)
    if BACKEND != "numpy":
        g = cotangent(cut)
        full = np.zeros(p.shape, complex)
        for n in np.ndindex(*cut):
            full[n + n] = g[n]
        out, (dA, db, dc) = vjp(lambda x, y, z: math.hermite_renormalized_diagonal(x, y, z, cut), (mA, mb, mc), g)
        pair("diagonal", full, G, c, p.lam2, p, dA, db, dc)
        if M >= 2:
            g = cotangent(one.shape)
            full = np.zeros(p.shape, complex)
            for i in range(cut[0]):
                for j in range(cut[0]):
                    for n in np.ndindex(*cut[1:]):
                        full[(i, *n, j, *n)] = g[(i, j, *n)]
            out, (dA, db, dc) = vjp(lambda x, y, z: math.hermite_renormalized_1leftoverMode(x, y, z, oc, pc), (mA, mb, mc), g)
            pair("leftover", full, G, c, p.lam2, p, dA, db, dc)
    if herm:
        modes = tuple(sorted(RNG.sample(range(30), M)))
        rho = DM.from_bargmann(modes, (mA, mb, math.astensor(abs(c), dtype="complex128")))
        n = min(cut)
        ix = tuple(slice(0, n) for _ in range(M))
        exp = np.abs(diag[ix] / c * abs(c)).reshape(-1)
        same("fock_distribution_dm", np.abs(arr(rho.fock_distribution(n))), exp)
        same("fock_distribution_dm_fock", np.abs(arr(rho.to_fock(p.shape).fock_distribution(n))), exp)
        ket = Ket.from_bargmann(modes, (mA[M:, M:], mb[M:], math.astensor(c, dtype="complex128")))
        K = np.abs(arr(ket.fock_array(n)).reshape(-1)) ** 2
        same("fock_distribution_ket", ket.fock_distribution(n), K)
        same("fock_distribution_pure_dm", np.abs(arr(ket.dm().fock_distribution(n))), K)


# -------------------------------------------------------------------- gates
def ang(ph):
    return float(np.arctan2(ph[1], ph[0]))


def real_vjp(name, p, G, c, g, dirs, got):
    """derivatives with respect to real parameters of Re sum(g G)"""
    for nm, dG in dirs:
        same(f"{name}.d{nm}", np.real(got[nm]), np.real(np.sum(g * dG)), rtol=1e-8, atol=1e-8)


def jgrad(fn, args, g):
    import jax
    return [arr(x) for x in jax.grad(lambda *a: jax.numpy.real(jax.numpy.sum(g * fn(*a))), argnums=tuple(range(len(args))))(*[jax.numpy.asarray(a) for a in args])]


def displacement(p):
    al = complex(*p.rec["par"][0]) / 2
    c = np.exp(-abs(al) ** 2 / 2)
    G = p.G(c)
    same("displacement", math.displacement(math.astensor(al, dtype="complex128"), p.shape, tol=1e-15), G, rtol=1e-8)
    D = Dgate(RNG.randrange(20), al)
    same("Dgate", D.fock_array(p.shape), G, rtol=1e-8)
    same("Dgate_triple", CircuitComponent.fock_array(D, p.shape), G, rtol=1e-8)
    co = Coherent(3, al)
    same("Coherent", co.fock_array(p.shape[0]), G[:, 0], rtol=1e-8)
    b2 = Dgate(1, math.astensor([al, -al, al]))
    same("Dgate_batch", b2.fock_array(p.shape), np.stack([G, p.G(c, sg=-1), G]), rtol=1e-8)
    tr = dict((nm, p.G(c, table=t)) for nm, A, b, t in p.dirs)
    dre, dim = tr["re"] - al.real * G, tr["im"] - al.imag * G        # c = exp(-|alpha|^2 / 2)
    g = cotangent(p.shape)
    if BACKEND == "numpy":
        if al:
            ja, jc = strategies.jacobian_displacement(G, al)
            same("jacobian_displacement", ja + jc, dre, rtol=1e-8, atol=1e-9)
            same("jacobian_displacement", 1j * (ja - jc), dim, rtol=1e-8, atol=1e-9)
            if p.shape[0] == p.shape[1]:
                r, phi = abs(al), np.angle(al)
                gr, gp = strategies.grad_displacement(G, r, phi)
                same("grad_displacement", gr, np.cos(phi) * dre + np.sin(phi) * dim, rtol=1e-8, atol=1e-9)
                same("grad_displacement", gp, r * (-np.sin(phi) * dre + np.cos(phi) * dim), rtol=1e-8, atol=1e-9)
    else:
        r = jgrad(lambda x, y: Dgate(0, x + 1j * y).fock_array(p.shape), (al.real, al.imag), g)
        real_vjp("Dgate", p, G, c, g, [("x", dre), ("y", dim)], dict(x=r[0], y=r[1]))
        r = jgrad(lambda x, y: CircuitComponent.fock_array(Dgate(0, x + 1j * y), p.shape), (al.real, al.imag), g)
        real_vjp("Dgate_triple", p, G, c, g, [("x", dre), ("y", dim)], dict(x=r[0], y=r[1]))


def squeezer(p):
    tc, ph = p.rec["par"]
    r, phi = float(np.arctanh(tc[0] / 5)), ang(ph)
    one = p.kind == "squeezed"
    c = np.sqrt(tc[1] / 5)
    G = p.G(c)
    low = math.squeezed if one else math.squeezer
    cls = SqueezedVacuum if one else Sgate
    same(p.kind, low(math.astensor(r), math.astensor(phi), p.shape), G)
    comp = cls(RNG.randrange(20), r, phi)
    same(cls.__name__, comp.fock_array(p.shape), G)
    same(cls.__name__ + "_triple", CircuitComponent.fock_array(comp, p.shape), G)
    # a batch with the opposite squeezing: r -> -r negates the first row of tanh, i.e. phi -> phi + pi
    two = cls(1, [r, r], [phi, phi + 2 * np.pi])
    same(cls.__name__ + "_batch", two.fock_array(p.shape), np.stack([G, G]))
    tr = dict((nm, p.G(c, table=t)) for nm, A, b, t in p.dirs)
    dr, dp = tr["r"] - 0.5 * tc[0] / 5 * G, tr["phi"]
    g = cotangent(p.shape)
    if INTERP:
        return
    if BACKEND == "numpy":
        fn = strategies.squeezed_vjp if one else strategies.squeezer_vjp
        a, b_ = fn(np.array(G), g.astype(complex), r, phi)
        real_vjp(p.kind, p, G, c, g, [("r", dr), ("phi", dp)], dict(r=a, phi=b_))
    else:
        a = jgrad(lambda x, y: cls(0, x, y).fock_array(p.shape), (r, phi), g)
        real_vjp(cls.__name__, p, G, c, g, [("r", dr), ("phi", dp)], dict(r=a[0], phi=a[1]))
        a = jgrad(lambda x, y: CircuitComponent.fock_array(cls(0, x, y), p.shape), (r, phi), g)
        real_vjp(cls.__name__ + "_triple", p, G, c, g, [("r", dr), ("phi", dp)], dict(r=a[0], phi=a[1]))


def beamsplitter(p):
    cs, ph = p.rec["par"]
    th, phi = float(np.arctan2(cs[1], cs[0])), ang(ph)
    G = p.G(1.0)
    comp = BSgate((2, 7), th, phi)
    square = p.shape[:2] == p.shape[2:]
    for m in ["vanilla", "stable"] + (["schwinger"] if square else []):
        same("beamsplitter_" + m, math.beamsplitter(math.astensor(th), math.astensor(phi), p.shape, method=m), G)
        same("BSgate_" + m, comp.fock_array(p.shape, method=m), G)
    same("BSgate_triple", CircuitComponent.fock_array(comp, p.shape), G)
    two = BSgate((0, 1), [th, th + 2 * np.pi], [phi, phi])
    same("BSgate_batch", two.fock_array(p.shape), np.stack([G, G]))
    if square and BACKEND == "numpy":
        # applying the gate to an array that the cutoffs do not truncate
        n = min(p.shape[0], p.shape[1])
        psi = np.zeros((2, n, n), complex)
        for i in range(n):
            for j in range(n - i):
                psi[:, i, j] = NRNG.integers(-3, 4, 2)
        got = apply_BS_schwinger(th, phi, 1, 2, psi.copy())
        same("apply_BS_schwinger", got, np.einsum("abij,kij->kab", G[:n, :n, :n, :n], psi))
    if INTERP:
        return
    tr = dict((nm, p.G(1.0, table=t)) for nm, A, b, t in p.dirs)
    g = cotangent(p.shape)
    dirs = [("theta", tr["theta"]), ("phi", tr["phi"])]
    if BACKEND == "numpy":
        a, b_ = strategies.beamsplitter_vjp(np.array(G), g.astype(complex), th, phi)
        real_vjp("beamsplitter", p, G, 1.0, g, dirs, dict(theta=a, phi=b_))
    else:
        m = RNG.choice(["vanilla", "stable"] + (["schwinger"] if square else []))
        a = jgrad(lambda x, y: BSgate((0, 1), x, y).fock_array(p.shape, method=m), (th, phi), g)
        real_vjp("BSgate_" + m, p, G, 1.0, g, dirs, dict(theta=a[0], phi=a[1]))
        a = jgrad(lambda x, y: CircuitComponent.fock_array(BSgate((0, 1), x, y), p.shape), (th, phi), g)
        real_vjp("BSgate_triple", p, G, 1.0, g, dirs, dict(theta=a[0], phi=a[1]))


# ------------------------------------------------- large lattices: every point is a step of the specification
def large(seed):
    rng = np.random.default_rng(seed)
    shape = [(300,), (40, 40), (1, 200), (200, 1), (12, 1, 30), (9, 10, 11), (8, 7, 6, 5), (60, 25)][seed % 8]
    D = len(shape)
    A = rng.normal(size=(D, D)) + 1j * rng.normal(size=(D, D))
    A = A + A.T
    A = 0.7 * A / np.linalg.norm(A, 2)
    b = 0.4 * (rng.normal(size=D) + 1j * rng.normal(size=D))
    for st in (False, True):
        G = arr(math.hermite_renormalized(math.astensor(A), math.astensor(b), math.astensor(1.0 + 0j), shape, stable=st))
        sc = np.abs(G).max()
        for k in range(400):
            n = tuple(int(rng.integers(0, s)) for s in shape)
            for i in range(D):
                if n[i] == 0:
                    continue
                q = list(n)
                q[i] -= 1
                v = b[i] * G[tuple(q)]
                for j in range(D):
                    if q[j]:
                        m = list(q)
                        m[j] -= 1
                        v += A[i, j] * np.sqrt(q[j]) * G[tuple(m)]
                v /= np.sqrt(n[i])
                if not abs(v - G[n]) <= 1e-7 * sc:
                    raise Bad(f"large: {'stable' if st else 'vanilla'} {shape} point {n} from pivot {i}: {G[n]} is not a step of the recurrence ({v})")
        cnt("large")
    if not INTERP and BACKEND == "numpy":
        large_gradients(rng)


def large_gradients(rng):
    """Derivatives at cutoffs beyond what the specification fills, by the generator of each gate."""
    r, phi, th = float(rng.uniform(0.4, 0.9)), float(rng.uniform(0, 6)), float(rng.uniform(0.05, 0.15))
    N = int(rng.integers(320, 500))
    n = np.arange(N)
    G = arr(math.squeezed(math.astensor(r), math.astensor(phi), (N,)))
    g = cotangent((N,)).astype(complex)
    t = np.tanh(r)
    a = strategies.squeezed_vjp(np.array(G), g, r, phi)
    close2("large squeezed", a, (g * (n / 2 / t / np.cosh(r) ** 2 - t / 2) * G, g * 0.5j * n * G))
    for M, N in ((330, 4), (4, 340), (40, 30), (330, 1)):
        G = arr(math.squeezer(math.astensor(r), math.astensor(phi), (M, N + 2)))
        g = cotangent((M, N)).astype(complex)
        m, n = np.arange(M)[:, None], np.arange(N)[None]
        low = np.concatenate([np.zeros((M, 2)), G[:, :-4]], axis=1) if N > 2 else np.zeros((M, N))
        dr = 0.5 * np.exp(-1j * phi) * np.sqrt(n * (n - 1.0) + 0 * m) * low[:, :N] - 0.5 * np.exp(1j * phi) * np.sqrt((n + 1.0) * (n + 2)) * G[:, 2:]
        a = strategies.squeezer_vjp(np.array(G[:, :N]), g, r, phi)
        close2("large squeezer", a, (g * dr, g * 0.5j * (m - n) * G[:, :N]))
    N = int(rng.integers(320, 360))
    G = arr(math.beamsplitter(math.astensor(th), math.astensor(phi), (N, 2, N, 2), method="stable"))
    g = cotangent(G.shape).astype(complex)
    m, nn, p, q = np.indices(G.shape)
    close2("large beamsplitter", strategies.beamsplitter_vjp(np.array(G), g, th, phi)[1:], (g * 1j * (nn - q) * G,))
    g = g * (nn == 0) * (q == 0)
    close2("large beamsplitter", strategies.beamsplitter_vjp(np.array(G), g, th, phi)[:1], (-g * m * np.tan(th) * G,))
    cnt("large_gradients")


def close2(name, got, exp):
    for a, e in zip(got, exp):
        v, sc = np.real(np.sum(e)), np.sum(np.abs(e))
        if not abs(a - v) <= 1e-8 * max(1.0, sc):
            raise Bad(f"{name}: derivative {a}, expected {v}")


RUN = dict(generic=generic, pnr=pnr, displacement=displacement, squeezer=squeezer, squeezed=squeezer, beamsplitter=beamsplitter)
jobs = [(i, r) for i, r in enumerate(payload["recs"])] + [(1000000 + k, k) for k in range(payload.get("large", 0))]
for i, rec in jobs:
    kind = "large" if isinstance(rec, int) else rec["prob"]["kind"]
    try:
        if kind == 'pnr' and payload.get('nopnr'):
            continue
        if isinstance(rec, int):
            large(rec + payload["seed"])
        else:
            RUN[kind](P(rec))
        emit(id=i, ok=True, key=f"{kind}-{i}")
    except Bad as e:
        what = str(e).split(":")[0]
        emit(id=i, ok=False, key=f"{kind}-{what}-{BACKEND}", clause=what, detail=f"{BACKEND} {e}"[:700], case=rec)
    except Exception as e:
        emit(id=i, ok=False, key=f"{kind}-exception-{exc(e).split(':')[0]}-{exc(e).split(' at ')[-1]}-{BACKEND}", clause="exception", detail=f"{BACKEND} {kind}: {exc(e)} {str(e)[-300:]}", case=rec)
emit(id="counts", ok=True, notrace=True, counts=COUNT)
done()
