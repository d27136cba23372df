"""Replays Stats.tla: what is read off a state, against exact traces."""
import itertools
from math import factorial
from wlib import *
import glib
from mrmustard.lab import *
from mrmustard.lab.transformations import Operation, Unitary
from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
from mrmustard.physics.wigner import wigner_discretized
from mrmustard.physics import fock_utils

RNG = glib.RNG
RNG.seed(payload["seed"])
QUICK = payload.get("quick", True)
COUNT = {}


class Bad(Exception):
    pass


def close(name, got, exp, tol=1e-7, scale=1.0):
    got, exp = arr(got), np.asarray(exp)
    if got.shape != exp.shape or not np.all(np.isfinite(got)) or not np.all(np.abs(got - exp) <= tol * max(scale, np.max(np.abs(exp), initial=0))):
        raise Bad(f"{name}: got {np.round(got, 7).tolist()}, expected {np.round(exp, 7).tolist()}"[:600])
    COUNT[name] = COUNT.get(name, 0) + 1


# ------------------------------------------------------------------ arrays from the specification
def vec(v, dims):
    a = np.array([complex(*z) for z in v]).reshape(dims)
    for i, d in enumerate(dims):
        a = a * np.sqrt([float(factorial(n)) for n in range(d)]).reshape((d,) + (1,) * (len(dims) - i - 1))
    return a


def pad(a, extra):
    return np.pad(a, [(0, e) for e in extra])


def rho(x):                          # ket indices first
    vs = [(e["w"], vec(e["v"], x["dims"])) for e in x["mix"]]
    return sum((w * np.multiply.outer(v, v.conj()) for w, v in vs), np.zeros(tuple(x["dims"]) * 2, dtype=complex))


def ketarr(x):
    return vec(x["mix"][0]["v"], x["dims"])


def some():
    return RNG.choice([0, 0, 0, 1])


def fock(x, ms):
    """The state in Fock representation, sometimes with cutoffs larger than needed (and not the same for kets and bras)."""
    n = len(x["dims"])
    if x["ket"]:
        return Ket.from_fock(ms, math.astensor(pad(ketarr(x), [some() for _ in range(n)])))
    r = np.transpose(rho(x), list(range(n, 2 * n)) + list(range(n)))
    e = [some() for _ in range(n)]
    e = e + (e if RNG.random() < 0.7 else [some() for _ in range(n)])
    return DM.from_fock(ms, math.astensor(pad(r, e)))


def state(x, ms, form):
    if form == "sum" and not x["ket"] and len(x["mix"]) > 1:
        parts = [fock(dict(x, mix=[e]), ms).to_bargmann() for e in x["mix"]]
        s = parts[0]
        for p in parts[1:]:
            s = s + p
        return s
    s = fock(x, ms)
    if form == "fock":
        return s
    return s.to_bargmann()


def opr(op, ms, form):
    k = len(ms)
    o = np.array([[complex(*z) for z in r] for r in op["o"]]).reshape(tuple(op["do"]) + tuple(op["di"]))
    dims = tuple(op["do"]) + tuple(op["di"])
    for i, d in enumerate(dims):
        o = o * np.sqrt([float(factorial(n)) for n in range(d)]).reshape((d,) + (1,) * (2 * k - i - 1))
    cls = RNG.choice([Operation, Unitary])
    t = cls.from_fock(ms, ms, math.astensor(pad(o, [some() for _ in range(2 * k)])))
    return t if form == "fock" else t.to_bargmann()


def content(name, s, x, ms):
    """The library's state is the one of the specification."""
    if type(s) is not (Ket if x["ket"] else DM) or tuple(s.modes) != tuple(ms):
        raise Bad(f"{name} type: {type(s).__name__} on {s.modes}, expected {'Ket' if x['ket'] else 'DM'} on {ms}")
    n = len(ms)
    c = tuple(d + 1 for d in x["dims"])
    if x["ket"]:
        close(name + " array", s.fock_array(c), pad(ketarr(x), [1] * n))
    else:
        exp = np.transpose(pad(rho(x), [1] * (2 * n)), list(range(n, 2 * n)) + list(range(n)))
        close(name + " array", s.fock_array(c * 2), exp)
        if RNG.random() < 0.3:
            close(name + " array standard", s.fock_array(c * 2, standard_order=True), pad(rho(x), [1] * (2 * n)))


# ------------------------------------------------------------------ what can be read off
def checks(s, x, o, form, ms, lab):
    n = len(ms)
    norm = max(1.0, o["prob"])
    size = int(np.prod(x["dims"])) ** (1 if x["ket"] else 2)
    if isinstance(s.ansatz, PolyExpAnsatz):
        size = max(size, int(np.prod(s.ansatz.c.shape)))           # polynomials keep a variable for each operation they went through

    def other(y, mixed):
        k = int(np.prod(y)) ** (2 if mixed else 1)
        return RNG.choice(["fock", "barg"]) if form == "fock" or size**2 * k**2 < 6000 else "fock"


    def f_probability():
        close("probability", s.probability, float(o["prob"]))

    def f_norm():
        close("L2 norm", s.L2_norm, float(o["prob"] if x["ket"] else o["hs"]))
        p = 1.0 if x["ket"] else o["hs"] / o["prob"] ** 2
        close("purity", s.purity, p)
        if bool(arr(s.is_pure)) != (abs(p - 1) < 1e-9):
            raise Bad(f"is_pure: {s.is_pure} for purity {p}")

    def f_normalize():
        t = s.normalize()
        close("normalized probability", t.probability, 1.0)
        c = tuple(x["dims"]) * (1 if x["ket"] else 2)
        a = ketarr(x) / np.sqrt(o["prob"]) if x["ket"] else np.transpose(rho(x), list(range(n, 2 * n)) + list(range(n))) / o["prob"]
        close("normalized array", t.fock_array(c), a)

    def f_dist():
        c = max(x["dims"]) + RNG.choice([0, 0, 1])
        d = np.zeros((c,) * n)
        d[tuple(slice(0, k) for k in x["dims"])] = np.array(o["dist"], dtype=float).reshape(x["dims"])
        close("fock distribution", s.fock_distribution(c), d.reshape(-1))
        if RNG.random() < 0.4:
            close("fock distribution cut", s.fock_distribution(c - 1), d[(slice(0, c - 1),) * n].reshape(-1)) if c > 1 else None

    def at(modes):
        return tuple(lab[m] for m in modes)

    def overlap(name, y, f2=None):
        t = state(y["x"], at(y["x"]["modes"]), f2 or other(y["x"]["dims"], not y["x"]["ket"]))
        sc = norm * max(1.0, sum(e["w"] * float(np.sum(np.abs(vec(e["v"], y["x"]["dims"])) ** 2)) for e in y["x"]["mix"]))
        close(name, s.expectation(t), complex(y["val"]), 1e-8, sc)
        return t, sc

    def f_ket():
        overlap("expectation of a ket", o["ket"])

    def f_dm():
        overlap("expectation of a density matrix", o["dm"])

    def f_op():
        u = o["op"]
        t = opr(u["x"], at(u["modes"]), other(list(u["x"]["do"]) + list(u["x"]["di"]), False))
        close("expectation of an operator", s.expectation(t), complex(*u["val"]), 1e-8, 100 * norm)

    def fid(a, b, name, v, tol, sc):
        try:
            f = a.fidelity(b)
        except NotImplementedError:
            if a.ansatz.batch_shape or b.ansatz.batch_shape:      # superpositions are refused
                COUNT["fidelity refused"] = COUNT.get("fidelity refused", 0) + 1
                return
            raise
        close(name, f, v, tol, sc)

    def f_fidelity():
        t, sc = overlap("expectation of a state", o["full"])
        v = o["full"]["val"]
        fid(s, t, "fidelity with a ket", v, 1e-8, sc)
        if not x["ket"]:
            fid(t, s, "fidelity of a ket", v, 1e-8, sc)
            fid(s, t.dm(), "fidelity of pure", v, 1e-6, sc)
            fid(t.dm(), s, "fidelity with pure", v, 1e-6, sc)

    def f_mixed():
        m = o["mixd"]
        t, sc = overlap("expectation of a mixture", m)
        if x["ket"]:
            fid(s, t, "fidelity of a ket with a mixture", m["val"], 1e-8, sc)
            fid(t, s, "fidelity of a mixture with a ket", m["val"], 1e-8, sc)
            return
        G = np.array([[complex(*z) for z in r] for r in m["gram"]])
        G = G * np.sqrt([[e["w"] * f["w"] for f in m["x"]["mix"]] for e in x["mix"]])
        v = float(np.sum(np.linalg.svd(G)[1])) ** 2
        fid(s, t, "fidelity of mixtures", v, 1e-6, sc)
        fid(t, s, "fidelity of mixtures swapped", v, 1e-6, sc)
        fid(s, s, "fidelity with itself", float(o["prob"]) ** 2, 1e-6, sc)

    def f_reduce():
        r = o["red"]
        keep = at(r["modes"])
        t = s[RNG.choice([tuple(keep), list(keep), set(keep)])] if len(keep) > 1 or RNG.random() < 0.5 else s[keep[0]]
        if type(t) is not DM or tuple(t.modes) != keep:
            raise Bad(f"reduced type: {type(t).__name__} on {t.modes}, expected DM on {keep}")
        close("reduced probability", t.probability, float(r["prob"]))
        if r["hs"] >= 0:
            close("reduced L2 norm", t.L2_norm, float(r["hs"]))
        c = max(r["dims"])
        d = np.zeros((c,) * len(keep))
        d[tuple(slice(0, k) for k in r["dims"])] = np.array(r["dist"], dtype=float).reshape(r["dims"])
        close("reduced distribution", t.fock_distribution(c), d.reshape(-1))

    def f_wigner():
        if not o["wig"]:
            return
        z = np.array([complex(*a) for a in o["z"]])
        hb = settings.HBAR
        exp = o["wig"][0] * np.exp(-np.sum(np.abs(z) ** 2) / 2) / (np.pi * hb) ** n
        X, P = z.real * np.sqrt(hb / 2), z.imag * np.sqrt(hb / 2)
        sc = norm / (np.pi * hb) ** n
        b = s.to_bargmann() if form == "fock" else s
        close("wigner", b.wigner(*X, *P), complex(exp), 1e-7, sc)
        if n == 1:
            r = rho(x) if RNG.random() < 0.5 else pad(rho(x), [2, 2])
            for m in ("iterative", "clenshaw"):
                settings.DISCRETIZATION_METHOD = m
                w, Q, PP = wigner_discretized(math.astensor(r), np.array([X[0], 0.3]), np.array([0.1, P[0], -1.0]))
                close(f"discretized wigner {m}", w[0, 1], exp, 1e-7, sc)
                close(f"discretized wigner grid", np.stack([Q[0], PP[0]]), [[X[0]] * 3, [0.1, P[0], -1.0]])
            settings.DISCRETIZATION_METHOD = "iterative"

    def f_quad():
        hb = settings.HBAR
        t = np.array(o["t"], dtype=float)
        qs = t * np.sqrt(hb / 2)
        phi = o["ph"] * np.pi / 2 + RNG.choice([0, 0, 2 * np.pi, -2 * np.pi])
        exp = o["quad"] * float(np.prod(np.exp(-t**2 / 2))) / (np.pi * hb) ** (n / 2)
        sc = norm / (np.pi * hb) ** (n / 2)
        pts = [math.astensor(np.array([q, 0.37])) for q in qs]
        d = arr(s.quadrature_distribution(*pts, phi=phi)).reshape((2,) * n)
        close("quadrature distribution", d[(0,) * n], exp, 1e-7, sc)
        if n == 1 and form == "fock":
            a = ketarr(x) if x["ket"] else rho(x).T
            y, pdf = fock_utils.quadrature_distribution(math.astensor(a), phi, np.array([qs[0], 0.37]))
            close("fock_utils.quadrature_distribution", arr(pdf)[0], exp, 1e-7, sc)

    def f_noise():
        for u in o["noise"]:
            r = rho(x)
            d = int(np.prod(x["dims"]))
            r = (r.reshape(d, d) * 0.5 ** np.array(u["exps"], dtype=float)).reshape(r.shape)
            g = PhaseNoise(lab[u["mode"]], phase_stdev=float(np.sqrt(2 * u["k"] * np.log(2))))
            t = s >> g
            if type(t) is not DM or tuple(t.modes) != tuple(ms):
                raise Bad(f"phase noise type: {type(t).__name__} on {t.modes}")
            e = np.transpose(r, list(range(n, 2 * n)) + list(range(n)))
            close("phase noise", t.fock_array(tuple(x["dims"]) * 2), e, 1e-7, norm)
            close("phase noise probability", t.probability, float(o["prob"]))

    def f_dressed():
        """Expectation values do not change when a Gaussian unitary is applied to both."""
        if form == "fock" or n > 2 or not (x["ket"] or n == 1):
            return
        U = Dgate(ms[0], complex(RNG.uniform(-0.5, 0.5), RNG.uniform(-0.5, 0.5)))
        U = U >> Sgate(ms[0], RNG.uniform(0, 0.4), RNG.uniform(0, 6))
        if n == 2:
            U = U >> BSgate(ms, RNG.uniform(0, 1.5), RNG.uniform(0, 6)) >> Sgate(ms[1], RNG.uniform(0, 0.4), 0.3)
        U = Unitary._from_attributes(U.ansatz, U.wires)
        t = s >> U
        if not x["ket"]:
            close("dressed probability", t.probability, float(o["prob"]), 1e-6)
        y = o["full"]
        p = state(y["x"], at(y["x"]["modes"]), "barg") >> U
        close("dressed overlap", t.expectation(p), complex(y["val"]), 1e-6, norm * 10)
        if n == 1:
            u = o["op"]
            op = U.dual >> opr(u["x"], at(u["modes"]), "barg") >> U
            close("dressed operator", t.expectation(op), complex(*u["val"]), 1e-6, norm * 100)

    return [(f.__name__[2:], f) for f in (f_probability, f_norm, f_normalize, f_dist, f_ket, f_dm, f_op, f_fidelity, f_mixed, f_reduce, f_wigner, f_quad, f_noise, f_dressed)]


# ------------------------------------------------------------------ steps
def step(s, how, x, y, lab, form):
    """The state after the step, by the library; x before, y after."""
    w, m = how["what"], lab[how["mode"]]
    f2 = RNG.choice(["fock", "barg"]) if payload.get("mix", True) else form
    if w == "join":
        t = state(how["y"], (lab[how["y"]["modes"][0]],), f2)
        return RNG.choice([lambda: s >> t, lambda: t >> s])() if x["ket"] == how["y"]["ket"] else s >> t if RNG.random() < 0.5 else t >> s
    if w == "apply":
        return s >> opr(how["op"], (m,), f2)
    if w == "reduce":
        keep = tuple(lab[k] for k in how["keep"])
        gone = tuple(k for k in s.modes if k not in keep)
        return s[keep] if RNG.random() < 0.5 else s >> TraceOut(gone)
    if w == "project":
        return s >> state(how["y"], (m,), f2).dual
    if w == "scale":
        c = complex(*how["c"])
        c = c if x["ket"] else c.real
        return RNG.choice([lambda: s * c, lambda: c * s, lambda: s / (1 / c)])()
    t = state(how["y"], s.modes, form if isinstance(s.ansatz, PolyExpAnsatz) else "fock")
    if type(t.ansatz) is not type(s.ansatz):
        t = t.to_bargmann()
    return s + t


def group(x, form):
    big = int(np.prod(x["dims"])) ** (1 if x["ket"] else 2)
    return big <= (700 if form == "fock" else 150)


for i, rec in enumerate(payload["recs"]):
    settings.HBAR = RNG.choice([1.0, 1.0, 2.0, 0.5])
    settings.DEFAULT_REPRESENTATION = RNG.choice(["Bargmann", "Fock"])
    settings.DEFAULT_FOCK_SIZE = RNG.choice([5, 5, 6])
    labs = sorted(RNG.sample(RNG.choice([range(8), range(1, 60), range(5, 3000, RNG.choice([8, 16, 1]))]), 7))
    lab = {k + 1: labs[k] for k in range(7)}
    if payload.get("form"):
        base = payload["form"]
    else:
        base = RNG.choice(["fock", "fock", "barg", "sum"])
    s, prev = None, None
    for j, r in enumerate(rec["recs"]):
        x, o, how = r["x"], r["obs"], r["how"]
        ms = tuple(lab[m] for m in x["modes"])
        form = base
        if not group(x, form):
            form = "fock"
        ctxt = f"[{how['what']} {form} hbar={settings.HBAR} {settings.DEFAULT_REPRESENTATION} modes={ms}]"

        def attempt(name, f):
            try:
                f()
                emit(id=f"{i}.{j}.{name}", ok=True)
                return True
            except Exception as e:
                if "statically nested blocks" in str(e):    # more indices than Python can nest loops: beyond what numba can compile
                    emit(id=f"{i}.{j}.{name}", ok=True)
                    return False
                det = str(e) if isinstance(e, Bad) else f"{name} raised: " + exc(e)
                cl = det.split(":")[0]
                emit(id=f"{i}.{j}.{name}", ok=False, key=f"{cl.replace(' ', '-')}-{form}-{BACKEND}", clause=cl, detail=f"{ctxt} {det}", case=dict(rec=r))
                return False

        good = False
        if how["what"] != "start" and prev is not None and group(prev, form):
            def move():
                global s
                if s is None or RNG.random() < 0.4:
                    s = state(prev, tuple(lab[m] for m in prev["modes"]), form)
                s = step(s, how, prev, x, lab, form)
                content(how["what"], s, x, ms)
            good = attempt(how["what"], move)
        prev = x
        if not group(x, form):
            s = None
            continue
        if not good or RNG.random() < 0.3 or (isinstance(s.ansatz, PolyExpAnsatz) and np.prod(s.ansatz.c.shape) > (40 if x["ket"] else 600)):
            s = state(x, ms, form)
            if isinstance(s.ansatz, PolyExpAnsatz) and np.prod(s.ansatz.c.shape) > (40 if x["ket"] else 600):       # overlaps grow with the square of this
                s = fock(x, ms)
        now = "fock" if isinstance(s.ansatz, ArrayAnsatz) else "barg"
        for name, f in checks(s, x, o, now, ms, lab):
            if QUICK and BACKEND == "jax" and RNG.random() < 0.5:
                continue
            attempt(name, f)
settings.HBAR = 1.0
settings.DEFAULT_REPRESENTATION = "Bargmann"
import resource
emit(id="counts", ok=True, notrace=True, counts=dict(COUNT, maxrss_MB=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024))
done()
