"""Replays Phys.tla: what the library says about the physicality, purity and separability of states and channels."""
from wlib import *
from glib import *
import glib
from mrmustard.physics import gaussian as mmg

RNG = glib.RNG
RNG.seed(payload["seed"])
COUNT = {}


class Bad(Exception):
    pass


def cnt(k):
    COUNT[k] = COUNT.get(k, 0) + 1


def cv(v):
    return np.array([complex(q(z[0]), q(z[1])) for z in v])


def h():
    return settings.HBAR / 2


def verdict(name, f, exp):
    """exp: yes, no (or big: not decided)."""
    if exp == "big":
        return
    try:
        got = f()
    except Exception as e:
        raise Bad(f"{name}: raised {exc(e)}, expected {exp}")
    if np.shape(arr(got)) != () or bool(arr(got)) != (exp == "yes"):
        raise Bad(f"{name}: got {arr(got)}, expected {exp}")
    cnt(f"{name}-{exp}")


def close(name, got, exp, tol=1e-6):
    got, exp = arr(got), np.asarray(exp)
    if got.shape != exp.shape or not np.all(np.abs(got - exp) <= tol * max(1.0, np.max(np.abs(exp), initial=0))):
        raise Bad(f"{name}: got {np.round(got, 6).tolist()}, expected {np.round(exp, 6).tolist()}"[:500])
    cnt(name)


def refuses(name, f, *errs):
    try:
        got = f()
    except errs:
        cnt(name + "-refused")
        return
    except RuntimeError as e:                    # jax raises its own kind of error for a condition on values
        if BACKEND == "jax" and "Cannot" in str(e):
            cnt(name + "-refused")
            return
        raise Bad(f"{name}: raised {exc(e)}, expected {errs[0].__name__}")
    except Exception as e:
        raise Bad(f"{name}: raised {exc(e)}, expected {errs[0].__name__}")
    raise Bad(f"{name}: got {got}, expected {errs[0].__name__}")


def unit_c(A, b):
    """The c giving unit trace (independent Gaussian integral), or 1 when there is none."""
    n = len(A) // 2
    X = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n))
    M = np.eye(2 * n) - X @ A
    d = np.linalg.det(M)
    if abs(d) < 1e-9 or d.real <= 0:
        return 1.0
    t = np.exp(0.5 * b @ np.linalg.solve(M, X @ b)) / np.sqrt(d)
    return 1 / t if abs(t) > 1e-12 and abs(np.imag(t)) < 1e-9 * abs(t) else 1.0


def and3(*a):
    return "no" if "no" in a else "big" if "big" in a else "yes"


def labels(n):
    return tuple(sorted(RNG.sample(range(9 if RNG.random() < 0.7 else 3000), n)))


def entropy(W):
    w, v = np.linalg.eigh(W)
    r = v @ np.diag(np.sqrt(w)) @ v.T
    n = len(W) // 2
    Om = np.kron(np.array([[0, 1], [-1, 0]]), np.eye(n))
    nu = np.sort(np.abs(np.linalg.eigvalsh(1j * r @ Om @ r)))[::2]
    f = lambda x: 0.0 if x <= 0 else x * np.log(x)
    return nu, sum(f((x + 1) / 2) - f(max(0.0, (x - 1) / 2)) for x in nu)


GOOD = {}           # physical triples by size, for batches


def state(o):
    n = len(o["W"]) // 2
    if not o["A"]:
        return
    ms = labels(n)
    A, b = cmat(o["A"]), cv(o["b"])
    c = unit_c(A, b)
    dm = DM.from_bargmann(ms, (A, b, complex(c)))
    pos, phys = o["gamma"], and3(o["gamma"], o["bounded"])
    verdict("positive", lambda: dm.is_positive, pos)
    verdict("physical", lambda: dm.is_physical, phys)
    W, m = xxpp(o["W"]), xxppv(o["m"])
    V, mu = W * h(), m * np.sqrt(h())
    if o["psd"] == "yes":
        d2 = DM.from_phase_space(ms, (V, mu, 1.0))
        close("triple_A", d2.ansatz.A, A)
        close("triple_b", d2.ansatz.b, b)
        close("triple_c", d2.ansatz.c, c)
        verdict("physical", lambda: d2.is_physical, "yes")
        if o["det"][1]:
            pure = q(o["det"]) == 1
            sc = RNG.choice([1, 1, 2.0, 0.25])
            verdict("pure", lambda: (sc * d2).is_pure, "yes" if pure else "no")
            if pure:
                ket = Ket.from_phase_space(ms, (V, mu, 1.0), atol_purity=RNG.choice([None, 1e-5]))
                verdict("ket_physical", lambda: ket.is_physical, "yes")
                verdict("ket_pure", lambda: ket.is_pure, "yes")
                verdict("ket_separable", lambda: ket.is_separable, "yes" if o["product"] else "no")
            else:
                refuses("ket_mixed", lambda: Ket.from_phase_space(ms, (V, mu, 1.0), atol_purity=1e-5), ValueError)
        verdict("separable", lambda: d2.is_separable, "yes" if o["product"] else "no")
        nu, S = entropy(W)
        close("symplectic_eigenvalues", mmg.symplectic_eigenvals(math.astensor(V)), nu, 1e-5)
        close("entropy", mmg.von_neumann_entropy(math.astensor(V)), S, 1e-5)
        if phys == "yes":
            GOOD.setdefault(n, []).append((A, b, c))
    ch = o["change"]
    if ch["what"] != "none":
        A2, b2 = cmat(ch["A"]), cv(ch["b"])
        c2 = unit_c(A2, b2) * complex(q(ch["c"][0]), q(ch["c"][1]))
        d3 = DM.from_bargmann(ms, (A2, b2, complex(c2)))
        try:
            verdict("positive", lambda: d3.is_positive, ch["positive"])
            verdict("physical", lambda: d3.is_physical, ch["physical"])
        except Bad as e:
            raise Bad(str(e).replace(":", f" changed {ch['what']}:", 1))
    if RNG.random() < 0.15 and len(GOOD.get(n, [])) > 1:
        many = [(A, b, c)] if RNG.random() < 0.6 else []
        vs = [phys] if many else []
        for t in RNG.sample(GOOD[n], RNG.choice([1, 2]) if len(GOOD[n]) > 2 else 1):
            many.append(t)
            vs.append("yes")
        order = list(range(len(many)))
        RNG.shuffle(order)
        bt = [np.array([many[i][j] for i in order]) for j in range(3)]
        bt[2] = bt[2].astype(complex)
        verdict("batch_physical", lambda: DM.from_bargmann(ms, tuple(bt)).is_physical, and3(*vs))
    if n == 1 and phys == "yes" and RNG.random() < 0.3:
        refuses("fock", lambda: dm.to_fock(4).is_physical, NotImplementedError)
        refuses("superposition", lambda: (dm + Vacuum(ms).dm()).is_physical, NotImplementedError)


def ket(o):
    n = len(o["A"])
    A, b = cmat(o["A"]), cv(o["b"])
    ms = labels(n)
    D = np.linalg.det(np.eye(n) - A @ A.conj()).real
    c, norm1 = 1.0, False
    M = np.block([[A, -np.eye(n)], [-np.eye(n), A.conj()]])
    if D > 1e-9:
        be = np.concatenate([b, b.conj()])
        nn = (np.exp(-0.5 * be @ np.linalg.solve(M, be)) / np.sqrt(D)).real
        if nn > 0 and np.isfinite(nn):
            c, norm1 = 1 / np.sqrt(nn), True
    if abs(D) < 1e-9:
        return
    k = RNG.choice([1, 1, 1j, -1, 2, 0.5])
    psi = Ket.from_bargmann(ms, (A, b, complex(c * k)))
    exp = and3(o["pd"], "yes" if abs(k) == 1 else "no") if norm1 else "no" if o["pd"] == "no" else "big"
    verdict("ket_physical", lambda: psi.is_physical, exp)
    if o["pd"] == "yes" and norm1:
        close("ket_norm", psi.probability, abs(k) ** 2)
        verdict("pure", lambda: psi.is_pure, "yes")
        d = psi.dm()
        verdict("dm_physical", lambda: d.is_physical, "yes" if abs(k) == 1 else "no")
        verdict("positive", lambda: d.is_positive, "yes")
        verdict("dm_pure", lambda: d.is_pure, "yes")


def chan(o):
    k = len(o["X"]) // 2
    ms = labels(k)
    X, Y, d = xxpp(o["X"]), xxpp(o["Y"]), xxppv(o["d"])
    if np.linalg.cond(np.eye(2 * k) + X @ X.T + Y) > 1e6:
        return
    c = Channel.from_XY(ms, ms, math.astensor(X), math.astensor(Y * h()), math.astensor(d * np.sqrt(h())))
    verdict("CP", lambda: c.is_CP, o["gamma"] if o["bounded"] == "yes" or o["gamma"] == "no" else "big")
    verdict("TP", lambda: c.is_TP, o["bounded"])
    verdict("channel_physical", lambda: c.is_physical, o["cp"])
    ch = o["change"]
    if ch["what"] != "none":
        A, b, cc = [np.array(arr(x)).astype(complex) for x in c.ansatz.triple]
        z = complex(q(ch["z"][0]), q(ch["z"][1]))
        i = ch["i"] % k + k                       # an input wire: bra index i, ket index 2k + i
        j = 2 * k + i
        w = ch["what"]
        if w == "c2":
            cc = cc * 2
        elif w == "c-":
            cc = -cc
        elif w == "ci":
            cc = cc * 1j
        elif w in ("b1", "b2"):
            b[i] += z
            if w == "b2":
                b[j] += np.conj(z)
        elif w in ("A1", "A2"):
            A[i, i] += z
            if w == "A2":
                A[j, j] += np.conj(z)
        elif w == "gamma":
            A[i, j] += 0.3j
            A[j, i] += 0.3j
        c2 = Channel.from_bargmann(ms, ms, (A, b, cc))
        try:
            verdict("CP", lambda: c2.is_CP, ch["cp"])
            verdict("TP", lambda: c2.is_TP, ch["tp"])
            verdict("channel_physical", lambda: c2.is_physical, and3(ch["cp"], ch["tp"]))
        except Bad as e:
            raise Bad(str(e).replace(":", f" changed {w}:", 1))
    if o["cp"] == "yes" and RNG.random() < 0.2:
        # on one half of a larger state it stays physical
        n = k + 1
        st = Ket.random(tuple(ms) + (ms[-1] + 1,), max_r=0.4, seed=RNG.randrange(1000)) >> c
        verdict("physical_after", lambda: st.is_physical, "yes")
        verdict("channel_physical", lambda: (c >> Attenuator(ms[0], 0.7)).is_physical, "yes")
        if RNG.random() < 0.5:
            al = complex(RNG.choice([0.5, -0.3]), 0.2)
            verdict("channel_physical", lambda: (Dgate(ms[0], al) >> c).is_physical, "yes")
    if k == 1 and RNG.random() < 0.1:
        refuses("fock", lambda: c.to_fock(3).is_CP, NotImplementedError)
        refuses("fock", lambda: c.to_fock(3).is_TP, NotImplementedError)


def random_objects(i):
    """Everything the random constructors draw is physical."""
    seed, ms, r = RNG.randrange(10 ** 6), labels(RNG.choice([1, 2, 2, 3])), RNG.choice([0.1, 0.5, 1.0])
    n = len(ms)
    what = RNG.choice(["ket", "dm", "dm", "unitary", "channel"])
    if what in ("ket", "dm"):
        m = RNG.choice([None, 1, n])
        st = Ket.random(ms, max_r=r, seed=seed) if what == "ket" else DM.random(ms, m=m, max_r=r, seed=seed)
        if tuple(st.modes) != ms:
            raise Bad(f"random {what}: modes {st.modes}, expected {ms}")
        V, mu, p = [arr(x) for x in st.phase_space(0)]
        V = V.real / h()
        Om = np.kron(np.array([[0, 1], [-1, 0]]), np.eye(n))
        if np.linalg.eigvalsh(V + 1j * Om)[0] < -1e-7 or abs(p - 1) > 1e-7 or np.max(np.abs(mu)) > 1e-9:
            raise Bad(f"random {what}: not a centred state of unit norm")
        ev = np.linalg.eigvalsh(V)
        if ev[0] < np.exp(-2 * r) - 1e-7 or ev[-1] > np.exp(2 * r) + 1e-6:
            raise Bad(f"random {what}: squeezed beyond max_r")
        verdict("random_physical", lambda: st.is_physical, "yes")
        if what == "ket" and abs(np.linalg.det(V) - 1) > 1e-6:
            raise Bad("random ket: not pure")
    elif what == "unitary":
        S = arr(Unitary.random(ms, max_r=r, seed=seed).symplectic)
        Om = np.kron(np.array([[0, 1], [-1, 0]]), np.eye(n))
        close("random_symplectic", S @ Om @ S.T, Om)
        if np.linalg.norm(S, 2) > np.exp(r) + 1e-6:
            raise Bad("random unitary: squeezed beyond max_r")
    else:
        c = Channel.random(ms, max_r=r, seed=seed)
        X, Y = [arr(x).real for x in c.XY]
        Om = np.kron(np.array([[0, 1], [-1, 0]]), np.eye(n))
        if np.linalg.eigvalsh(Y / (1.0 if payload.get("y1") else h()) + 1j * Om - 1j * X @ Om @ X.T)[0] < -1e-6:
            raise Bad("random channel: not completely positive")
        verdict("channel_physical", lambda: c.is_physical, "yes")
    cnt("random_" + what)


FN = dict(state=state, ket=ket, chan=chan)
n = 0
for i, rec in enumerate(payload["recs"]):
    settings.HBAR = RNG.choice([1.0, 1.0, 2.0, 0.5])
    GOODCASE = None
    for k, o in enumerate(rec["hist"]):
        try:
            FN[rec["kind"]](o)
            emit(id=f"{i}.{k}", ok=True)
        except Bad as e:
            bad = ("bad", str(e))
        except Exception as e:
            bad = ("exc", rec["kind"] + ": " + exc(e))
        else:
            continue
        clause = bad[1].split(":")[0]
        emit(id=f"{i}.{k}", ok=False, key=f"{rec['kind']}-{clause.replace(' ', '-')}-{BACKEND}", clause=clause,
             detail=f"hbar={settings.HBAR} backend={BACKEND} {bad[1]}", case=dict(kind=rec["kind"], object=o))
    if i % 4 == 0:
        try:
            random_objects(i)
            emit(id=f"{i}.r", ok=True)
        except Exception as e:
            det = str(e) if isinstance(e, Bad) else exc(e)
            emit(id=f"{i}.r", ok=False, key=f"random-{det.split(':')[0].replace(' ', '-')[:40]}-{BACKEND}", clause="random", detail=det, case=dict(i=i))
settings.HBAR = 1.0
emit(id="counts", ok=True, notrace=True, counts=COUNT)
done()
