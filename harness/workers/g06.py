"""Replays Gaussian circuits generated by Gauss.tla and compares phase-space data, norms and purity."""
from wlib import *
from glib import *
import glib
from mrmustard.lab import Circuit
from mrmustard.physics.ansatz import PolyExpAnsatz
from mrmustard.physics import gaussian as mmg

RNG = glib.RNG
RNG.seed(payload["seed"])
COUNT = {}


def cnt(k):
    COUNT[k] = COUNT.get(k, 0) + 1


class Bad(Exception):
    pass


def want(name, got, exp, rtol=1e-6, atol=1e-8):
    got, exp = arr(got), np.asarray(exp)
    if got.shape != exp.shape:
        raise Bad(f"{name}: shape {got.shape}, expected {exp.shape}")
    scale = max(1.0, float(np.max(np.abs(exp), initial=0)))
    if not (np.all(np.isfinite(got)) and np.all(np.abs(got - exp) <= (atol + rtol) * scale)):
        raise Bad(f"{name}: got {np.round(got, 6).tolist()}, expected {np.round(exp, 6).tolist()}"[:600])
    cnt(name.split(" ")[0])


def prob_of(factors):
    p = 1.0
    for f in factors:
        if f["t"] == "proj":
            p *= 2 ** f["k"] / np.sqrt(q(f["det"])) * np.exp(-q(f["expo"]) / 2)
        else:
            p *= np.exp(-q(f["expo"]) / 2) / np.sqrt(np.pi * q(f["det"]))      # a density of x / sqrt(hbar)
    return p


def wantp(name, got, exp):       # probabilities are compared relatively
    got = arr(got)
    if got.shape != () or not np.isfinite(got) or abs(got - exp) > 2e-6 * abs(exp) + 1e-12:
        raise Bad(f"{name}: got {got}, expected {exp}")
    cnt(name.split(" ")[0])


SHORT = []


def photon_numbers(V, d, cutoff):
    """The photon-number distribution of one mode (V, d with vacuum variance 1), from its generating function on the unit circle."""
    N = 2048
    t = np.exp(2j * np.pi * np.arange(N) / N)
    lam = np.linalg.eigvalsh(V)
    root = np.sqrt((1 - t) * lam[0] + 1 + t) * np.sqrt((1 - t) * lam[1] + 1 + t)
    M = (1 - t)[:, None, None] * V + (1 + t)[:, None, None] * np.eye(2)
    g = 2 / root * np.exp(-0.5 * (1 - t) * np.einsum("i,nij,j->n", d, np.linalg.inv(M + 1e-300), d))
    return np.real(np.fft.fft(g) / N)[:cutoff]


def autoshape(st, V, mu, n):
    """The automatic Fock shape holds the asked share of every mode's photon-number distribution, and not a level more."""
    if not isinstance(st.ansatz, PolyExpAnsatz) or st.ansatz.num_derived_vars:
        return
    keep = settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX, settings.AUTOSHAPE_MIN
    try:
        prob, top, low = RNG.choice([0.9, 0.99, 0.999, 0.99999]), RNG.choice([6, 30, 50]), RNG.choice([1, 1, 3])
        explicit = RNG.random() < 0.5
        if not explicit:
            settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX, settings.AUTOSHAPE_MIN = prob, top, low
        manual = RNG.random() < 0.7
        kw = dict(max_prob=prob, max_shape=top, min_shape=low) if explicit else {}
        got = tuple(st.auto_shape(**kw) if manual else st.auto_shape(respect_manual_shape=False, **kw))
        dims = n if isinstance(st, Ket) else 2 * n
        if len(got) != dims:
            raise Bad(f"autoshape length: {got} for {dims} indices")
        for i, g in enumerate(got):
            k = i % n
            set_ = st.manual_shape[i] if manual else None
            if set_ is not None:
                if g != set_:
                    raise Bad(f"autoshape set: index {i} got {g}, the shape set is {set_}")
                cnt("autoshape set")
                continue
            cum = np.cumsum(photon_numbers(V[np.ix_([k, n + k], [k, n + k])] / h(), mu[[k, n + k]] / np.sqrt(h()), 60))
            if np.min(np.abs(cum - prob)) < 1e-8:
                continue
            need = int(np.sum(cum < prob)) + 1
            clip = lambda x: min(max(x, low), top)
            if g == clip(need):
                cnt("autoshape exact")
            elif g == clip(need - 1):
                cnt("autoshape one short")
                SHORT.append(f"mode {k}: shape {g} holds {cum[g - 1]} of the photon numbers, {prob} asked")
            else:
                raise Bad(f"autoshape: index {i} of {dims} got {g}, expected {clip(need)} (share {prob}, between {low} and {top})")
        if manual and not explicit and np.prod(got) < 3000:
            sh = tuple(st.fock_array().shape)
            if sh != got:
                raise Bad(f"autoshape array: the Fock array has shape {sh}, the automatic one is {got}")
            cnt("autoshape array")
    finally:
        settings.AUTOSHAPE_PROBABILITY, settings.AUTOSHAPE_MAX, settings.AUTOSHAPE_MIN = keep


def observe(st, o, lab, phys, deep):
    modes = tuple(lab[m] for m in o["modes"])
    if st.modes != modes:
        raise Bad(f"modes: {st.modes}, expected {modes}")
    W, m = xxpp(o["W"]), xxppv(o["m"])
    V, mu = W * h(), m * np.sqrt(h())
    p = prob_of(o["prob"])
    if payload.get("shapes"):
        if phys and RNG.random() < 0.6:
            autoshape(st if abs(p - 1) < 1e-12 else st.normalize(), V, mu, len(modes))
        return
    cov, means, coeff = st.phase_space(0)
    want("cov", cov, V)
    want("means", means, mu)
    wantp("coefficient", coeff, p)
    wantp("probability", st.probability, p)
    det = o["det"]
    if det[1] and phys:
        if isinstance(st, DM):
            wantp("purity", st.purity, 1 / np.sqrt(q(det)))
            wantp("L2_norm", st.L2_norm, p ** 2 / np.sqrt(q(det)))
        else:
            wantp("L2_norm", st.L2_norm, p)
            wantp("purity", st.purity, 1.0)
    if not deep:
        return
    n = len(modes)
    what = RNG.choice(["s", "marginal", "wigner", "quad", "roundtrip", "gauss", "normalize", "dm", "fidelity"])
    if what == "s":
        s = RNG.choice([-1, 1])
        c2, m2, k2 = st.phase_space(s)
        want("cov_s", c2, V - s * h() * np.eye(2 * n))
        want("means_s", m2, mu)
        wantp("coefficient_s", k2, p)
    elif what == "marginal":
        keep = sorted(RNG.sample(range(n), RNG.randint(1, n)))
        ix = keep + [n + i for i in keep]
        sub = tuple(modes[i] for i in keep)
        red = st[list(reversed(sub)) if RNG.random() < 0.5 else sub] if len(sub) > 1 or RNG.random() < 0.5 else st[sub[0]]
        if red.modes != sub:
            raise Bad(f"marginal: modes {red.modes}, expected {sub}")
        c2, m2, k2 = red.phase_space(0)
        want("marginal cov", c2, V[np.ix_(ix, ix)])
        want("marginal means", m2, mu[ix])
        wantp("marginal probability", red.probability, p)
    elif what == "wigner":
        x = mu + np.array([RNG.choice([-0.5, 0, 0.5, 1]) for _ in range(2 * n)])
        e = p / ((2 * np.pi) ** n * np.sqrt(np.linalg.det(V))) * np.exp(-0.5 * (x - mu) @ np.linalg.inv(V) @ (x - mu))
        want("wigner", math.real(st.wigner(*[float(y) for y in x])), e, atol=1e-7)
    elif what == "quad":
        phi = RNG.choice([0.0, np.pi / 2, 0.7])
        c, s = np.cos(phi), np.sin(phi)
        T = np.hstack([c * np.eye(n), s * np.eye(n)])
        v, u = T @ V @ T.T, T @ mu
        if n == 1 or RNG.random() < 0.5:
            x = [RNG.choice([-0.5, 0, 0.5, 1]) for _ in range(n)]
            y = u + np.array(x)
            e = p / np.sqrt((2 * np.pi) ** n * np.linalg.det(v)) * np.exp(-0.5 * np.array(x) @ np.linalg.inv(v) @ np.array(x))
            got = arr(st.quadrature_distribution(*[np.array([yy]) for yy in y], phi=phi))
            want("quadrature", got.reshape(()) if got.size == 1 else got, e, atol=1e-7)
    elif what == "roundtrip" and (phys or not isinstance(st, DM)):
        st2 = type(st).from_phase_space(modes, (V, mu, 1.0)) if type(st) in (Ket, DM) else None
        if st2 is not None:
            c2, m2, k2 = st2.phase_space(0)
            want("roundtrip cov", c2, V)
            want("roundtrip means", m2, mu)
            wantp("roundtrip norm", k2, 1.0)
            if isinstance(st, DM):
                wantp("fidelity_same", math.real(st2.fidelity(st / p)), 1.0)
    elif what == "gauss":
        nm = (np.diag(V)[:n] + np.diag(V)[n:] + mu[:n] ** 2 + mu[n:] ** 2 - settings.HBAR) / (2 * settings.HBAR)
        want("number_means", mmg.number_means(math.astensor(V), math.astensor(mu)), nm)
        if det[1] and phys:
            want("gaussian_purity", mmg.purity(math.astensor(V)), 1 / np.sqrt(q(det)))
    elif what == "normalize":
        c2, m2, k2 = st.normalize().phase_space(0)
        want("normalize cov", c2, V)
        want("normalize means", m2, mu)
        wantp("normalize", k2, 1.0)
    elif what == "dm":
        d = st.dm()
        c2, m2, k2 = d.phase_space(0)
        want("dm cov", c2, V)
        want("dm means", m2, mu)
        wantp("dm probability", d.probability, p)
    elif what == "fidelity" and phys:
        # overlap with a coherent state on all modes: exact Gaussian overlap formula
        al = [complex(RNG.choice([0, .5, -.5]), RNG.choice([0, .5, -.5])) for _ in range(n)]
        oth = Coherent(modes[0], al[0])
        for k in range(1, n):
            oth = oth >> Coherent(modes[k], al[k])
        dl = np.array([2 * a.real for a in al] + [2 * a.imag for a in al]) - m
        M = W + np.eye(2 * n)
        e = p * 2 ** n / np.sqrt(np.linalg.det(M)) * np.exp(-0.5 * dl @ np.linalg.inv(M) @ dl)
        f = st.fidelity(oth) if RNG.random() < 0.5 else st.expectation(oth)
        wantp("overlap", math.real(f), e)
        g = oth.fidelity(st)
        wantp("overlap reversed", math.real(g), e)
        if n == 1 and det[1]:
            # fidelity of two mixed single-mode states
            nb = RNG.choice([0.5, 1.0, 2.0])
            sg = Thermal(modes[0], nb) >> Dgate(modes[0], al[0])
            w = 2 * nb + 1
            M = W + w * np.eye(2)
            Dl, Lm = np.linalg.det(M) / 4, max(0.0, (np.linalg.det(W) - 1) * (w * w - 1) / 4)
            e = np.exp(-0.5 * dl @ np.linalg.inv(M) @ dl) / (np.sqrt(Dl + Lm) - np.sqrt(Lm))
            wantp("fidelity mixed", math.real((st / p if isinstance(st, DM) else st / np.sqrt(p)).dm().fidelity(sg)), e)


def check_composite(comp, o, lab):
    """The gates applied since the last change of modes, as one unitary or channel."""
    c = o["comp"]
    all_modes = [lab[m] for m in o["modes"]]
    ix = [all_modes.index(m) for m in comp.modes]
    n = len(all_modes)
    ii = ix + [n + i for i in ix]
    X, Y, d = xxpp(c["X"])[np.ix_(ii, ii)], xxpp(c["Y"])[np.ix_(ii, ii)], xxppv(c["d"])[ii]
    if c["un"]:
        if type(comp) is not Unitary and not isinstance(comp, Unitary):
            raise Bad(f"composite: {type(comp).__name__}, expected a Unitary")
        want("symplectic", comp.symplectic, X)
        return X, Y * 0, d
    if not isinstance(comp, Channel):
        raise Bad(f"composite: {type(comp).__name__}, expected a Channel")
    gx, gy = comp.XY
    want("channel_X", math.real(gx), X)
    want("channel_Y", math.real(gy), Y * YSCALE())
    return X, Y, d


def YSCALE():
    return 1.0 if payload.get("y1") else h()


def run(prog, hbar, labels, group):
    settings.HBAR = hbar
    cur, pend, undo, phys = None, None, None, True
    since_reset, whole = True, True          # pend covers every gate since the last change of modes
    for k, (r, o) in enumerate(prog):
        act = r["act"]
        ms = tuple(labels[m] for m in r.get("labs", []))
        nxt = prog[k + 1][0]["act"] if k + 1 < len(prog) else None
        try:
            if act == "start":
                cur = make_state(r["kind"], r["par"], ms)
            elif act == "op":
                op = make_op(r, ms)
                if op.modes != ms:
                    raise Bad(f"op: modes {op.modes}, expected {ms}")
                if RNG.random() < 0.3:
                    if r["un"]:
                        want("op_symplectic", op.symplectic, xxpp(r["X"]))
                    else:
                        gx, gy = op.XY
                        want("op_X", math.real(gx), xxpp(r["X"]))
                        want("op_Y", math.real(gy), xxpp(r["Y"]) * YSCALE())
                undo = (r, op)
                if pend is None:
                    pend, whole = op, since_reset
                else:
                    pend = pend >> op
                    cnt("composed")
                since_reset = False
                if nxt == "op" and group[k]:
                    continue
                if whole:
                    check_composite(pend, o, labels)
                cur, pend = cur >> pend, None
            elif act == "undo":
                inv = undo[1].inverse() if undo[0]["un"] or undo[0]["kind"] in ("Att", "Amp") else None
                cur = cur >> inv
                since_reset = False
            elif act == "state":
                cur = cur >> make_state(r["kind"], r["par"], ms)
                since_reset = True
            elif act == "trace":
                cur = cur >> TraceOut(ms if RNG.random() < 0.7 or len(ms) > 1 else ms[0])
                since_reset = True
            elif act == "proj":
                eff = make_state(r["kind"], r["par"], ms)
                if phys and RNG.random() < 0.5:
                    wantp("expectation", math.real(cur.expectation(eff)), prob_of(o["prob"]))
                cur = cur >> eff.dual
                since_reset = True
            elif act == "hom":
                cur = cur >> QuadratureEigenstate(ms[0], x=q(r["v"]) * np.sqrt(h()), phi=ang(r["an"])).dual
                since_reset = True
            elif act == "damp":
                cur = cur >> FockDamping(ms[0], float(-np.log(q(r["an"][0]))))
                since_reset = True
            if not isinstance(cur, (Ket, DM)):
                raise Bad(f"result: {type(cur).__name__} is not a state")
            observe(cur, o, labels, phys, RNG.random() < payload["deep"])
        except Bad as e:
            return k, "bad", str(e)
        except Exception as e:
            return k, "exc", exc(e)
    return None


for i, rec in enumerate(payload["recs"]):
    prog = rec["prog"]
    hbar = RNG.choice([1.0, 1.0, 2.0, 0.5])
    # a random increasing labelling of the modes
    labels = dict(zip(range(1, 10), sorted(RNG.sample(range(12), 9)) if RNG.random() < 0.7 else sorted(RNG.sample(range(9000), 9))))
    group = [RNG.random() < 0.6 for _ in prog]
    bad = run(prog, hbar, labels, group)
    if payload.get("shapes") and bad is not None and not bad[2].startswith("autoshape"):
        bad = None                               # the shapes only: the rest is G06's
    if bad is None:
        emit(id=i, ok=True)
    else:
        k, kind, det = bad
        step = prog[k][0]
        what = step.get("kind", "")
        clause = det.split(":")[0].split(" ")[0]
        emit(id=i, ok=False, key=f"{step['act']}-{what}-{clause}-{BACKEND}", clause=clause,
             detail=f"hbar={hbar} backend={BACKEND} step {k} {step['act']} {what} {step.get('var', '')}: {det}",
             case=dict(prog=[p[0] for p in prog[: k + 1]], labels=labels, hbar=hbar, group=group))
settings.HBAR = 1.0
if SHORT:
    emit(id="short", ok=False, key="autoshape one level short", clause="autoshape", detail=SHORT[0])
emit(id="counts", ok=True, notrace=True, counts=COUNT)
done()
