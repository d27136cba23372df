"""Replays Stellar.tla: stellar decompositions of states known in exact phase space."""
from wlib import *
from glib import *
import glib

RNG = glib.RNG
RNG.seed(payload["seed"])
COUNT = {}


class Bad(Exception):
    pass


def cnt(k):
    COUNT[k] = COUNT.get(k, 0) + 1


def h():
    return settings.HBAR / 2


def close(name, got, exp, tol=1e-6):
    got, exp = arr(got), np.asarray(exp)
    if got.shape != exp.shape or not np.all(np.isfinite(got)) or not np.all(np.abs(got - exp) <= tol * max(1.0, np.max(np.abs(exp), initial=0))):
        raise Bad(f"{name}: got {np.round(got, 6).tolist()}, expected {np.round(exp, 6).tolist()}"[:600])
    cnt(name)


def is_a(name, x, cls, modes):
    if type(x) is not cls:
        raise Bad(f"{name} type: {type(x).__name__}, expected {cls.__name__}")
    for ws in (x.wires.output,) + ((x.wires.input,) if cls not in (Ket, DM) else ()):
        if tuple(sorted(ws.modes)) != tuple(modes):
            raise Bad(f"{name} modes: {sorted(ws.modes)}, expected {modes}")
    if cls in (Ket, DM) and len(x.wires.input.modes):
        raise Bad(f"{name} modes: has input wires")


def omega(n):
    return np.kron(np.array([[0, 1], [-1, 0]]), np.eye(n))


def triple(x):
    return [arr(t) for t in x.ansatz.triple]


def judge(what, whole, core, T, o, ms, mixedcore):
    """whole == core >> T, core is a core state, T does to the vacuum what the specification says."""
    cm = [ms[i] for i in o["coreidx"]]
    om = [m for m in ms if m not in cm]
    tol = 1e-5
    is_a(what + " core", core, DM if mixedcore else Ket, ms)
    is_a(what + " operation", T, dict(kf=Operation, kp=Unitary, df=Map, dp=Channel, dm=Channel)[o["how"]], cm)
    got = core >> T
    is_a(what + " product", got, DM if o["how"][0] == "d" else Ket, ms)
    A, b, c = triple(whole)
    A2, b2, c2 = triple(got)
    close(what + " product A", A2, A, tol)
    close(what + " product b", b2, b, tol)
    close(what + " product c", c2, c, tol)
    W, m = xxpp(o["W"]), xxppv(o["m"])
    V, mu, p = [arr(x) for x in got.phase_space(0)]
    close(what + " product cov", V, W * h(), tol)
    close(what + " product means", mu, m * np.sqrt(h()), tol)
    close(what + " product norm", np.abs(p), 1.0, tol)
    # the core property
    Ac, bc, cc = triple(core)
    idx = list(core.wires[tuple(cm)].indices)
    s = max(1.0, np.max(np.abs(Ac)))
    close(what + " core A", Ac[np.ix_(idx, idx)] / s, np.zeros((len(idx),) * 2), tol)
    close(what + " core b", bc[idx] / s, np.zeros(len(idx)), tol)
    if om:
        left = core.contract(Vacuum(tuple(om)).dual if not mixedcore else Vacuum(tuple(om)).dm().dual)
        Al, bl, cl = triple(left)
        close(what + " vacuum left A", Al / s, np.zeros_like(Al), tol)
        close(what + " vacuum left b", bl / s, np.zeros_like(bl), tol)
        if not np.abs(cl) > 0:
            raise Bad(f"{what} vacuum left: amplitude {cl}")
    if o["how"] in ("kf", "df"):
        return
    # a physical core, and an operation that is physical and acts as it should
    if not mixedcore:
        close(what + " core norm", np.abs(arr(core.phase_space(0)[2])), 1.0, tol)
    else:
        close(what + " core trace", arr(core.phase_space(0)[2]), 1.0, tol)
    Vc = arr(core.phase_space(0)[0]) / h()
    if np.max(np.abs(Vc.imag)) > 1e-5 * max(1, np.max(np.abs(Vc))) or np.linalg.eigvalsh(Vc + 1j * omega(len(ms)))[0] < -1e-5 * max(1, np.max(np.abs(Vc))):
        raise Bad(f"{what} core not physical: {np.round(Vc, 4).tolist()}"[:500])
    X, Y = [arr(x) for x in T.XY] if o["how"] != "kp" else (arr(T.symplectic), np.zeros((2 * len(cm),) * 2))
    sx = max(1.0, np.max(np.abs(X)) ** 2)
    if o["how"] == "kp":
        close(what + " symplectic", X @ omega(len(cm)) @ X.T / sx, omega(len(cm)) / sx, tol)
        close(what + " SS^T", X @ X.T / sx, xxpp(o["cW"]) / sx, tol)
        A, b, c = triple(T.contract(T.dual, mode="zip"))
        k = len(cm)
        close(what + " unitary A", A, np.kron(np.array([[0, 1], [1, 0]]), np.eye(k)), 1e-4)
        close(what + " unitary b", b, np.zeros(2 * k), 1e-4)
        close(what + " unitary c", c, 1.0, 1e-4)
    else:
        if np.max(np.abs(X.imag)) > 1e-5 * sx or np.max(np.abs(Y.imag)) > 1e-5 * sx:
            raise Bad(f"{what} channel: complex X or Y")
        om_ = omega(len(cm))
        if np.linalg.eigvalsh(Y / h() + 1j * om_ - 1j * X @ om_ @ X.T)[0] < -1e-5 * sx:
            raise Bad(f"{what} channel not completely positive")
        close(what + " channel trace", arr(T.contract(TraceOut(tuple(cm))).ansatz.c), 1.0, 1e-4)
    on = Vacuum(tuple(cm)) >> T
    V, mu, p = [arr(x) for x in on.phase_space(0)]
    close(what + " on vacuum cov", V / sx, xxpp(o["cW"]) * h() / sx, tol)
    close(what + " on vacuum means", mu, xxppv(o["cm"]) * np.sqrt(h()), 1e-5)
    close(what + " on vacuum norm", np.abs(p), 1.0, 1e-5)


def blocks(dm, cm, om):
    A = triple(dm)[0]
    ci = list(dm.wires.bra[tuple(cm)].indices) + list(dm.wires.ket[tuple(cm)].indices)
    oi = list(dm.wires.bra[tuple(om)].indices) + list(dm.wires.ket[tuple(om)].indices)
    return A[np.ix_(oi, ci)], A[np.ix_(ci, ci)]


def sl(x, i):
    """One element of a batched component, through its triple."""
    A, b, c = x.ansatz.triple
    t = (A[i], b[i], c[i])
    if isinstance(x, Ket | DM):
        return type(x).from_bargmann(x.modes, t)
    return type(x).from_bargmann(tuple(sorted(x.wires.output.modes)), tuple(sorted(x.wires.input.modes)), t)


def run(what, f, wholes, os_, ms, mixedcore):
    """Decomposes (a batch, when there are several) and judges each element."""
    core, T = f()
    if len(wholes) == 1:
        judge(what, wholes[0], core, T, os_[0], ms, mixedcore)
    else:
        n = len(wholes)
        if core.ansatz.batch_shape != (n,) or T.ansatz.batch_shape != (n,):
            raise Bad(f"{what} batch: shapes {core.ansatz.batch_shape} {T.ansatz.batch_shape}, expected {(n,)}")
        for i in range(n):
            judge(what + " batch", wholes[i], sl(core, i), sl(T, i), os_[i], ms, mixedcore)
    cnt(what)


def refuses(name, f, err):
    try:
        f()
    except err:
        cnt(name + "-refused")
        return
    except Exception as e:
        raise Bad(f"{name}: raised {exc(e)}, expected {err.__name__}")
    raise Bad(f"{name}: accepted, expected {err.__name__}")


def build(cls, o, ms):
    V, mu = xxpp(o["W"]) * h(), xxppv(o["m"]) * np.sqrt(h())
    return cls.from_phase_space(ms, (V, mu, 1.0))


def batched(wholes, ms):
    ts = [triple(w) for w in wholes]
    return type(wholes[0]).from_bargmann(ms, tuple(np.stack([t[j] for t in ts]) for j in range(3)))


def decompositions(os_, todo):
    """Yields (label, thunk): every decomposition the records allow; all of os_ share their modes and core modes."""
    o = os_[0]
    n, M = len(o["modes"]), len(o["core"])
    ms = tuple(sorted(RNG.sample(range(9 if RNG.random() < 0.7 else 3000), n)))
    cm = tuple(ms[i - 1] for i in o["core"])
    om = [m for m in ms if m not in cm]
    os_ = [dict(x, coreidx=[i - 1 for i in x["core"]]) for x in os_]
    tag = lambda how: [dict(x, how=how) for x in os_]
    whole = lambda ws: ws[0] if len(ws) == 1 else batched(ws, ms)
    if "k" in todo and all(x["pure"] for x in os_):
        kets = [build(Ket, x, ms) for x in os_]
        W = whole(kets)
        yield "ket formal", lambda: run("ket formal", lambda: W.formal_stellar_decomposition(cm), kets, tag("kf"), ms, False)
        yield "ket physical", lambda: run("ket physical", lambda: W.physical_stellar_decomposition(cm), kets, tag("kp"), ms, False)
    if "d" in todo:
        dms = [build(DM, x, ms) for x in os_]
        Wd = whole(dms)
        yield "dm formal", lambda: run("dm formal", lambda: Wd.formal_stellar_decomposition(cm), dms, tag("df"), ms, True)
        bl = [blocks(d, cm, om) for d in dms]
        if n != 2 * M:
            yield "dm physical", lambda: refuses("dm physical", lambda: Wd.physical_stellar_decomposition(cm), ValueError)
        else:
            yield "dm physical", lambda: run("dm physical", lambda: Wd.physical_stellar_decomposition(cm), dms, tag("dp"), ms, False)
        ranks = []
        for R, Am in bl:
            N = n - M
            r, sg = R[N:, M:], R[N:, :M]
            sv = np.linalg.svd(r @ r.conj().T + sg @ sg.conj().T)[1] if N else np.zeros(0)
            big = [x for x in sv if x > 1e-6]
            ranks.append(None if any(1e-10 < x <= 1e-6 for x in sv) else len(big))
        if om and None not in ranks:
            if max(ranks) > M:
                yield "dm mixed", lambda: refuses("dm mixed", lambda: Wd.physical_stellar_decomposition_mixed(cm), ValueError)
            else:
                lab = f"dm mixed" + (" singular" if any(abs(np.linalg.svd(Am[M:, :M])[1][-1]) < 1e-6 for _, Am in bl) else "") + (" lowrank" if min(ranks) < M else "") + (" M>N" if M > n - M else "")
                yield lab, lambda: run("dm mixed", lambda: Wd.physical_stellar_decomposition_mixed(cm), dms, tag("dm"), ms, True)


POOL = {}
for i, rec in enumerate(payload["recs"]):
    settings.HBAR = RNG.choice([1.0, 1.0, 2.0, 0.5])
    good = [o for o in rec["recs"] if o["ok"]]
    if not good:
        continue
    picks = [[good[-1]]] + ([[RNG.choice(good)]] if len(good) > 1 else [])
    for o in good[-2:]:
        k = (tuple(o["modes"]), tuple(o["core"]), o["pure"])
        if RNG.random() < 0.4 and k in POOL:
            picks.append([o, POOL[k]] if RNG.random() < 0.5 else [POOL[k], o, o])
        POOL[k] = o
    for j, os_ in enumerate(picks):
        W0 = max(float(np.max(np.abs(xxpp(o["W"])))) for o in os_)
        if W0 > 60:
            continue
        for name, th in decompositions(os_, payload.get("todo", "kd")):
            try:
                th()
                emit(id=f"{i}.{j}.{name}", ok=True)
            except Exception as e:
                det = str(e) if isinstance(e, Bad) else name + " raised: " + exc(e)
                cl = det.split(":")[0]
                emit(id=f"{i}.{j}.{name}", ok=False, key=f"{cl.replace(' ', '-')}-{BACKEND}", clause=cl, detail=f"[{name}] hbar={settings.HBAR} {det}", case=dict(objects=os_))
settings.HBAR = 1.0
emit(id="counts", ok=True, notrace=True, counts=COUNT)
done()
