"""Samplers against the Born-rule machine of Measure.tla."""
import random
from itertools import product
from wlib import *
from scipy.stats import binom
from netlib import LBL, relabel
from mrmustard.lab import *
from mrmustard.lab.samplers import Sampler, PNRSampler, HomodyneSampler

RNG = random.Random(payload["seed"])
settings.DEFAULT_FOCK_SIZE = 14              # keeps arrays small ...
settings.AUTOSHAPE_PROBABILITY = 1 - 1e-11   # ... and rare outcomes resolved
TAIL = 1e-10
COUNT = {}


def cnt(k, n=1):
    COUNT[k] = COUNT.get(k, 0) + n


class Bad(Exception):
    pass


def vec(v):
    return np.array([complex(*z) for z in v])


class BasisSampler(Sampler):
    """Measures every mode in an orthogonal basis; the outcomes carry arbitrary labels."""

    def __init__(self, labels, vectors):
        super().__init__(list(labels), [Ket.from_fock((0,), math.astensor(v)) for v in vectors])
        self.vectors = vectors

    def probabilities(self, state, atol=1e-4):
        out = []
        for o in product(range(len(self.vectors)), repeat=len(state.modes)):
            s = state
            for m, k in zip(state.modes, o):
                s = s >> Ket.from_fock((m,), math.astensor(self.vectors[k])).dual
            s = complex(arr(s if not hasattr(s, "ansatz") else s.ansatz.scalar))
            out.append(abs(s) ** 2 if isinstance(state, Ket) else s.real)
        return self._validate_probs(math.astensor(out), atol)


def check_freq(samples, index, joint, what):
    """Exact binomial tails for every outcome and every prefix of outcomes."""
    n = len(samples)
    rows = [tuple(r) for r in np.asarray(samples).reshape(n, -1).tolist()]
    L = len(next(iter(joint)))
    for depth in range(1, L + 1):
        want, got = {}, {}
        for o, p in joint.items():
            want[o[:depth]] = want.get(o[:depth], 0) + p
        for r in rows:
            o = tuple(index(x) for x in r)
            if len(o) != L:
                raise Bad(f"{what}: a sample has {len(o)} entries for {L} modes")
            got[o[:depth]] = got.get(o[:depth], 0) + 1
        for o, k in got.items():
            if want.get(o, 0) < 1e-9:
                raise Bad(f"{what}: outcome {o} has probability {want.get(o, 0):.2g} and was returned {k} times in {n}")
        for o, p in want.items():
            k, p = got.get(o, 0), min(p, 1.0)
            if binom.cdf(k, n, p) < TAIL or binom.sf(k - 1, n, p) < TAIL:
                raise Bad(f"{what}: outcome {o} has probability {p:.5f} and was returned {k} times in {n}")
    cnt("frequencies")


def check_seed(sampler, st, n, what):
    a = np.asarray(sampler.sample(st, n, seed=7))
    if RNG.random() < 0.5:
        settings.rng.random(3)
    b = np.asarray(sampler.sample(st, n, seed=7))
    if a.shape != b.shape or not np.array_equal(a, b):
        raise Bad(f"{what}: the same seed gives different samples")
    s0 = RNG.choice([0, 1, 123])
    settings.SEED = s0
    a, a2 = np.asarray(sampler.sample(st, n)), np.asarray(sampler.sample(st, n))
    settings.SEED = s0
    b, b2 = np.asarray(sampler.sample(st, n)), np.asarray(sampler.sample(st, n))
    if not (np.array_equal(a, b) and np.array_equal(a2, b2)):
        raise Bad(f"{what}: the same settings.SEED gives different samples")
    cnt("seeds")


def to_state(rec, modes, form):
    dims, vs = rec["dims"], [vec(v).reshape(rec["dims"]) for v in rec["vecs"]]
    if rec["ket"]:
        st = Ket.from_fock(tuple(modes), math.astensor(vs[0] / np.sqrt(rec["norm"])))
    else:
        rho = sum(np.multiply.outer(np.conj(v), v) for v in vs) / rec["norm"]
        st = DM.from_fock(tuple(modes), math.astensor(rho))
    if form == "ketdm" and rec["ket"]:
        st = st.dm()
    if form == "bargmann":
        st = st.to_bargmann()
    return st


def fock_case(rec, conds, nshots):
    L = len(rec["dims"])
    modes = LBL[:L]
    form = RNG.choice(["plain", "plain", "ketdm"] + (["bargmann"] if np.prod(rec["dims"]) <= 12 and L <= (3 if rec["ket"] else 1) else []))
    st = to_state(rec, modes, form)
    tot = sum(rec["joint"])
    if rec["fock"]:
        outs = list(product(*[range(d) for d in rec["dims"]]))
        joint = {o: w / tot for o, w in zip(outs, rec["joint"])}
        need = max(max(o) for o, p in joint.items() if p > 0) + 1
        cut = max(rec["dims"]) + RNG.choice([0, 0, 1, 2]) if RNG.random() < 0.7 else need
        sampler = PNRSampler(cut)
        table = np.zeros((cut,) * L)
        for o, p in joint.items():
            if p:
                table[o] = p
        want = table.ravel()
        index = lambda x: int(round(x))
        povm = lambda m, k: Number(m, k, rec["dims"][modes.index(m)])
    else:
        d = rec["dims"][0]
        labels = RNG.sample([-4, 3, 7, 20, 11, -9, 6], d)
        U = [vec(b) / np.sqrt(rec["K"]) for b in rec["basis"]]
        sampler = BasisSampler(labels, U)
        joint = {o: w / tot for o, w in zip(product(range(d), repeat=L), rec["joint"])}
        want = np.array(rec["joint"]) / tot
        index = lambda x: labels.index(int(round(x)))
        povm = lambda m, k: Ket.from_fock((m,), math.astensor(U[k]))
    what = f"{form} {'ket' if rec['ket'] else 'dm'} dims {rec['dims']}"
    p = arr(sampler.probabilities(st))
    if p.shape != want.shape or not close(p, want, rtol=1e-6, atol=1e-9):
        raise Bad(f"probabilities {what}: {np.round(p, 5).tolist()[:12]}, expected {np.round(want, 5).tolist()[:12]}")
    cnt("probabilities")
    if rec["fock"] and BACKEND == "numpy" and need > 1:
        lost = sum(p for o, p in joint.items() if max(o) >= need - 1)
        if lost > 1e-2:
            try:
                PNRSampler(need - 1).probabilities(st)
                raise Bad(f"probabilities {what}: accepted although the outcomes below cutoff {need - 1} have total probability {1 - lost:.4f}")
            except ValueError:
                cnt("refused")
    s = sampler.sample(st, nshots, seed=RNG.randrange(10**6))
    s = np.asarray(s)
    if s.reshape(len(s), -1).shape != (nshots, L):
        raise Bad(f"sample {what}: {s.shape} for {nshots} shots of {L} modes")
    check_freq(s, index, joint, f"sample {what}")
    check_seed(sampler, st, 40, f"sample {what}")
    # the state left by earlier outcomes
    for c in RNG.sample(conds, min(3, len(conds))):
        cur = st
        for m, k in zip(modes, c["hist"]):
            cur = cur >> povm(m, k).dual
        cur = cur.normalize()
        vs = [vec(v).reshape(c["dims"]) for v in c["vecs"]]
        rho = sum(np.multiply.outer(np.conj(v), v) for v in vs) / c["w"]
        got = arr(cur.dm().fock_array(tuple(c["dims"]) * 2))
        if not close(got, rho, rtol=1e-6, atol=1e-8):
            raise Bad(f"conditional {what}: after outcomes {c['hist']} the state is not the projected one")
        cnt("conditionals")


# ------------------------------------------------------------------ product and pair families of Gaussian light
def family(rng):
    """A state built from library components together with its exact photon statistics."""
    fs, mode = [], 0
    mixed = rng.random() < 0.5                      # density matrices of more than two modes take gigabytes
    top = 2 if mixed else 3
    while mode < top:
        kind = rng.choice([f for f in payload["fams"] if mode + f["modes"] <= top and (mixed or f["kind"] not in ("thermal", "pairloss"))])
        fs.append((kind, list(range(mode, mode + kind["modes"]))))
        mode += kind["modes"]
        if rng.random() < 0.4:
            break
    return fs, mode


def gaussian_case(i):
    fs, L = family(RNG)
    order = list(range(L))
    RNG.shuffle(order)                       # which label each slot gets
    modes = LBL[:L]
    st = None
    for f, slots in fs:                      # a rare count of the lossy beam leaves more light in the other than the cutoff holds
        if f["kind"] == "pairloss" and order[slots[0]] > order[slots[1]]:
            order[slots[0]], order[slots[1]] = order[slots[1]], order[slots[0]]
    for f, slots in fs:
        ms = tuple(modes[order[s]] for s in slots)
        k = f["kind"]
        if k == "thermal":
            c = Thermal(ms[0], 1 / 3)
        elif k == "coherent":
            c = Coherent(ms[0], np.sqrt(0.5) * np.exp(1j * RNG.uniform(0, 6)))
        elif k == "squeezed":
            c = SqueezedVacuum(ms[0], np.arctanh(0.5), RNG.uniform(0, 6))
        elif k == "pair":
            c = TwoModeSqueezedVacuum(tuple(sorted(ms)), np.arctanh(0.5), RNG.uniform(0, 6))
        elif k == "pairloss":
            c = TwoModeSqueezedVacuum(tuple(sorted(ms)), np.arctanh(0.5), RNG.uniform(0, 6)) >> Attenuator(ms[1], 0.5)
        elif k == "split":
            c = Number(ms[0], 1) >> Vacuum(ms[1])
            a, b = sorted(ms)
            c = c >> BSgate((a, b), np.arctan2(4, 3), RNG.uniform(0, 6))
        elif k == "hom":
            c = Number(ms[0], 1) >> Number(ms[1], 1)
            c = c >> BSgate(tuple(sorted(ms)), np.pi / 4, RNG.uniform(0, 6))
        st = c if st is None else st >> c
    cut = max(f["cut"] for f, _ in fs)
    joint = {}
    for o in product(range(cut), repeat=L):
        p = 1.0
        for f, slots in fs:
            w = f["w"]
            for s in slots:
                n = o[order[s]]
                w = w[n] if w is not None and n < f["cut"] else None
            p *= (w or 0)
        joint[o] = p
    tot = sum(joint.values())
    joint = {o: p / tot for o, p in joint.items()}
    if isinstance(st, Ket) and L <= 2 and RNG.random() < 0.3:
        st = st.dm()
    sampler = PNRSampler(cut)
    what = "+".join(f["kind"] for f, _ in fs) + f" on {[[order[s] for s in sl] for _, sl in fs]} {type(st).__name__}"
    try:
        p = arr(sampler.probabilities(st))
    except ValueError as e:
        raise Bad(f"probabilities {what}: {exc(e)}")
    want = np.array(list(joint.values()))
    # outcomes beyond the cutoff carry less than 1e-4
    if p.shape != want.shape or np.max(np.abs(p - want)) > 2e-4:
        raise Bad(f"probabilities {what}: {np.round(p, 5).tolist()[:12]}, expected {np.round(want, 5).tolist()[:12]}")
    cnt("probabilities")
    s = np.asarray(sampler.sample(st, 600, seed=RNG.randrange(10**6)))
    if s.reshape(len(s), -1).shape != (600, L):
        raise Bad(f"sample {what}: {s.shape}")
    check_freq(s, lambda x: int(round(x)), joint, f"sample {what}")
    check_seed(sampler, st, 20, f"sample {what}")


# ------------------------------------------------------------------ homodyne
def q(x):
    return x[0] / x[1]


def homodyne_case(rec):
    o = rec["prog"][-1][1]
    n = len(o["modes"])
    if n > 2 or not any(True for _ in o["modes"]):
        return False
    settings.HBAR = RNG.choice([1.0, 2.0, 0.5])
    try:
        h = settings.HBAR / 2
        pm = [2 * i for i in range(n)] + [2 * i + 1 for i in range(n)]
        V = np.array([[q(x) for x in r] for r in o["W"]])[np.ix_(pm, pm)] * h
        mu = np.array([q(x) for x in o["m"]])[pm] * np.sqrt(h)
        if np.max(np.abs(mu)) > 6 * np.sqrt(settings.HBAR) or np.max(V) > 12 * h or np.min(np.linalg.eigvalsh(V)) < 0.05 * h:
            return False
        pure = o["det"] == [1, 1]
        modes = tuple(LBL[:n])
        cls = Ket if pure and RNG.random() < 0.6 else DM
        st = cls.from_phase_space(modes, (math.astensor(V), math.astensor(mu), 1.0))
        phi = RNG.choice([0.0, np.pi / 2, 0.7, -2.1])
        T = np.hstack([np.cos(phi) * np.eye(n), np.sin(phi) * np.eye(n)])
        C, m = T @ V @ T.T, T @ mu
        sd = np.sqrt(np.diag(C))
        cond = np.sqrt(1 / np.diag(np.linalg.inv(C)))
        lo, hi = np.min(m - 7 * sd), np.max(m + 7 * sd)
        num = int(np.ceil((hi - lo) / (0.7 * np.min(cond)))) + 1
        if num > 150:
            return False
        sampler = HomodyneSampler(phi=phi, bounds=(float(lo), float(hi)), num=num)
        grid = np.linspace(lo, hi, num)
        pts = np.array(list(product(grid, repeat=n))) - m
        w = np.exp(-0.5 * np.einsum("ki,ij,kj->k", pts, np.linalg.inv(C), pts))
        w /= w.sum()
        what = f"homodyne {cls.__name__} n={n} phi={phi:.2f} hbar={settings.HBAR}"
        p = arr(sampler.probabilities(st))
        if p.shape != w.shape or not close(p, w, rtol=1e-5, atol=1e-7):
            raise Bad(f"probabilities {what}: largest difference {np.max(np.abs(p - w)) if p.shape == w.shape else p.shape}")
        cnt("homodyne probabilities")
        shots = 300
        s = np.asarray(sampler.sample(st, shots, seed=RNG.randrange(10**6))).reshape(shots, -1)
        if s.shape != (shots, n):
            raise Bad(f"sample {what}: shape {s.shape}")
        k = np.rint((s - lo) / (grid[1] - grid[0])).astype(int)
        if np.max(np.abs(grid[k] - s)) > 1e-6:
            raise Bad(f"sample {what}: values that are not outcomes of the sampler")
        pj = dict(zip(product(range(num), repeat=n), w))
        if any(pj[tuple(r)] < 1e-14 for r in k):
            raise Bad(f"sample {what}: an outcome of negligible probability: {s[[pj[tuple(r)] < 1e-14 for r in k]][0]}")
        # coarse events: whitened coordinates by sign and size
        Lc = np.linalg.cholesky(C)
        white = lambda x: np.linalg.solve(Lc, (x - m).T).T
        def events(x):
            y = white(x)
            ev = {}
            for j in range(n):
                ev[f"y{j}>0"] = y[:, j] > 0
                ev[f"|y{j}|<0.7"] = np.abs(y[:, j]) < 0.7
                ev[f"x{j}>m"] = x[:, j] > m[j]
                for jj in range(j):
                    ev[f"(x{jj}-m)(x{j}-m)>0"] = (x[:, j] - m[j]) * (x[:, jj] - m[jj]) > 0
                    ev[f"y{jj}y{j}>0"] = y[:, j] * y[:, jj] > 0
            ev["near"] = np.sum(y ** 2, axis=1) < 2 * n
            return ev
        eg, es = events(pts + m), events(s)
        for e in eg:
            pe, ke = min(1.0, float(w[eg[e]].sum())), int(es[e].sum())
            if binom.cdf(ke, shots, pe) < TAIL or binom.sf(ke - 1, shots, pe) < TAIL:
                raise Bad(f"sample {what}: event {e} has probability {pe:.4f} and occurred {ke} times in {shots}")
        cnt("homodyne frequencies")
        check_seed(sampler, st, 10, what)
    finally:
        settings.HBAR = 1.0
    return True


def fock_homodyne_case(rec):
    """Homodyne on number-basis states, against the Hermite functions (one or two modes)."""
    L = len(rec["dims"])
    if L > 2 or max(rec["dims"]) > 3:
        return False
    from numpy.polynomial.hermite import hermval
    from math import factorial, pi
    settings.HBAR = RNG.choice([1.0, 2.0, 0.5])
    try:
        hb = settings.HBAR
        modes = LBL[:L]
        st = to_state(rec, modes, RNG.choice(["plain", "ketdm"]))
        phi = RNG.choice([0.0, np.pi / 2, 0.7])
        num = 61
        lim = 6.0 * np.sqrt(hb)
        grid = np.linspace(-lim, lim, num)
        psi = np.array([hermval(grid / np.sqrt(hb), [0] * k + [1]) * np.exp(-grid ** 2 / (2 * hb)) / np.sqrt(2.0 ** k * factorial(k) * np.sqrt(pi * hb)) * np.exp(-1j * k * phi) for k in range(max(rec["dims"]))])
        w = 0
        for v in rec["vecs"]:
            a = vec(v).reshape(rec["dims"]) / np.sqrt(rec["norm"])
            for ax in range(L):
                a = np.moveaxis(np.tensordot(psi[: rec["dims"][ax]], a, ([0], [ax])), 0, ax)
            w = w + np.abs(a) ** 2
        w = (w / w.sum()).ravel()
        sampler = HomodyneSampler(phi=phi, bounds=(-lim, lim), num=num)
        what = f"homodyne fock {rec['dims']} {'ket' if rec['ket'] else 'dm'} phi={phi:.2f} hbar={hb}"
        p = arr(sampler.probabilities(st))
        if p.shape != w.shape or not close(p, w, rtol=1e-5, atol=1e-7):
            raise Bad(f"probabilities {what}: largest difference {np.max(np.abs(p - w)) if p.shape == w.shape else p.shape}")
        cnt("homodyne probabilities")
        shots = 120
        s = np.asarray(sampler.sample(st, shots, seed=RNG.randrange(10**6))).reshape(shots, -1)
        if s.shape != (shots, L):
            raise Bad(f"sample {what}: shape {s.shape}")
        k = np.rint((s + lim) / (grid[1] - grid[0])).astype(int)
        pj = w.reshape((num,) * L)
        if any(pj[tuple(r)] < 1e-14 for r in k):
            raise Bad(f"sample {what}: an outcome of negligible probability")
        block = np.digitize(np.arange(num), [24, 30, 36])
        cw, ck = {}, {}
        for o in product(range(num), repeat=L):
            b = tuple(block[list(o)])
            cw[b] = cw.get(b, 0) + pj[o]
        for r in k:
            b = tuple(block[r])
            ck[b] = ck.get(b, 0) + 1
        for b, pe in cw.items():
            ke, pe = ck.get(b, 0), min(1.0, pe)
            if binom.cdf(ke, shots, pe) < TAIL or binom.sf(ke - 1, shots, pe) < TAIL:
                raise Bad(f"sample {what}: region {b} has probability {pe:.4f} and occurred {ke} times in {shots}")
        cnt("homodyne frequencies")
    finally:
        settings.HBAR = 1.0
    return True


def run(kind, i, fn, case):
    relabel(i)
    try:
        r = fn()
        if r is not False:
            emit(id=f"{kind}{i}", ok=True)
    except Bad as e:
        emit(id=f"{kind}{i}", ok=False, key=f"{kind}:{str(e)[:60]}", clause=str(e).split(" ")[0].rstrip(":"), detail=str(e)[:600], case=case)
    except Exception as e:
        emit(id=f"{kind}{i}", ok=False, key=f"{kind}:exception:{exc(e)[:80]}", clause="exception", detail=exc(e), case=case)


for i, rec in enumerate(payload["recs"]):
    run("fock", i, lambda: fock_case(rec, rec["conds"], payload["shots"]), dict(dims=rec["dims"], ket=rec["ket"], vecs=rec["vecs"], basis=rec["basis"]))
    if rec["fock"] and payload["fh"] and i % payload["fh"] == 0:
        run("fock-homodyne", i, lambda: fock_homodyne_case(rec), dict(dims=rec["dims"], ket=rec["ket"], vecs=rec["vecs"]))
for i in range(payload["nfam"]):
    run("gaussian", i, lambda: gaussian_case(i), dict(i=i))
for i, rec in enumerate(payload["homs"]):
    run("homodyne", i, lambda: homodyne_case(rec), dict(obs=rec["prog"][-1][1]))
emit(id="counts", ok=True, notrace=True, counts=COUNT)
done()
