"""Replays training runs of Train.tla and Stop.tla on the real optimizer."""
import contextlib, io, random
from wlib import *
import jax, optax
import jax.numpy as jnp
from mrmustard.lab import *
from mrmustard.lab import Circuit, CircuitComponent
from mrmustard.math.parameters import Constant, Variable
from mrmustard.training import Optimizer

RNG = random.Random(payload["seed"])
D, DS = 16384.0, 256.0
LRS = {"ln2": np.log(2.0), "turn": np.pi / 2}
UPD = {"r": "update_euclidean", "c": "update_euclidean", "o": "update_orthogonal", "u": "update_unitary", "s": "update_symplectic", "q": "update_euclidean"}
TWO = {"BSgate", "MZgate", "S2gate", "CXgate", "CZgate", "Interferometer", "RealInterferometer"}
CLS = {c.__name__: c for c in [Dgate, Coherent, Rgate, Sgate, BSgate, MZgate, S2gate, Pgate, CXgate, CZgate, SqueezedVacuum, DisplacedSqueezed,
                               Interferometer, RealInterferometer, Ggate, Attenuator, Identity, Number, Vacuum, BtoQ, TraceOut]}
INERT = {"Number": dict(n=2)}
COUNT = {}


class Bad(Exception):
    pass


def cnt(k, n=1):
    COUNT[k] = COUNT.get(k, 0) + n


def val(p):
    """The number a parameter of the specification stands for."""
    if p["k"] == "q":
        return np.float64(p["q"] * np.pi / 2)
    a = np.array(p["v"], dtype=float)
    a = a[..., 0] + 1j * a[..., 1]
    if p["k"] in "rc":
        a = a / D
        a = a[0] if len(a) == 1 else a
    if p["k"] == "s":
        a = a / DS
    return a if p["k"] in "cu" else np.real(a)


def bounds(p):
    return RNG.choice([(None, None), (-90.0, 90.0), (None, 75.0)]) if p["k"] == "r" else (None, None)


def comp(c, s, train=True):
    """A component of slot s and the bounds its parameters were given."""
    t = c["t"]
    mode = 0 if c.get("chain") else s
    kw, bd = {}, {}
    for p in c["ps"]:
        kw[p["n"]] = val(p)
        if p["tr"] and train:
            kw[p["n"] + "_trainable"] = True
            if p["k"] in "rc":
                kw[p["n"] + "_bounds"] = bd[p["n"]] = bounds(p)
            else:
                bd[p["n"]] = (None, None)
    if t == "MZgate":
        kw["internal"] = bool(s % 2)
    kw.update(INERT.get(t, {}))
    return CLS[t]((mode, mode + 7) if t in TWO else mode, **kw), bd


def build(item, s):
    """The object of an item and, per component, the bounds of its parameters."""
    t = item["t"]
    if t == "var":
        p = item["cs"][0]["ps"][0]
        b = bounds(p)
        v = val(p)
        if p["k"] in "rc":
            how = RNG.randrange(2)
            x = Variable(v, "x%d" % s, b, dtype=(math.float64 if p["k"] == "r" else math.complex128)) if how else Variable(math.astensor(v), "x%d" % s, bounds=b)
        else:
            x = {"o": Variable.orthogonal, "u": Variable.unitary, "s": Variable.symplectic}[p["k"]](v, "x%d" % s, b)
        return x, [{"x": b}], None
    if t == "chain":
        for c in item["cs"]:
            c["chain"] = True
    made = [comp(c, s) for c in item["cs"]]
    if t == "comp":
        return made[0][0], [made[0][1]], None
    circ = Circuit([m[0] for m in made])
    n = len(made)
    if RNG.random() < 0.6:
        circ.path = [(0, i) for i in range(1, n)]
    return circ, [m[1] for m in made], list(circ.path)


def comps(item, ob):
    return [ob] if item["t"] in ("var", "comp") else list(ob.components)


def param(item, ob, r):
    """The parameter object a reference points to, inside a given object."""
    if item["t"] == "var":
        return ob
    return getattr(comps(item, ob)[r[1] - 1].parameters, item["cs"][r[1] - 1]["ps"][r[2] - 1]["n"])


def look(item, ob, info, s, where):
    """Compares an object with what the specification says is in the slot."""
    t = item["t"]
    bds, path = info
    kinds = {"var": Variable, "comp": CircuitComponent}
    if not isinstance(ob, kinds.get(t, Circuit)):
        raise Bad(f"{where}: slot {s} holds {type(ob).__name__}")
    cs = comps(item, ob)
    if len(cs) != len(item["cs"]):
        raise Bad(f"{where}: slot {s} has {len(cs)} components")
    if path is not None and [tuple(x) for x in ob.path] != [tuple(x) for x in path]:
        raise Bad(f"{where}: contraction path of slot {s} is {ob.path}, was {path}")
    for i, (c, x) in enumerate(zip(item["cs"], cs)):
        if t != "var":
            if type(x) is not CLS[c["t"]]:
                raise Bad(f"{where}: component {i} of slot {s} is a {type(x).__name__}, not a {c['t']}")
            if set(x.parameters.names) < {p["n"] for p in c["ps"]}:
                raise Bad(f"{where}: component {i} of slot {s} has parameters {x.parameters.names}")
        for p in c["ps"]:
            o = x if t == "var" else getattr(x.parameters, p["n"])
            w = f"{where}: {c['t']}.{p['n']} of slot {s}"
            if type(o) is not (Variable if p["tr"] else Constant):
                raise Bad(f"{w} is a {type(o).__name__}")
            if t != "var":
                reg = x.parameters.variables if p["tr"] else x.parameters.constants
                if reg.get(p["n"]) is not o:
                    raise Bad(f"{w} is not the registered one")
            got, want = arr(o.value), val(p)
            if np.shape(got) != np.shape(want):
                raise Bad(f"{w} has shape {np.shape(got)}, expected {np.shape(want)}")
            if not close(got, want, rtol=1e-8, atol=1e-8):
                raise Bad(f"{w} is {got}, expected {want}")
            if p["tr"]:
                if o.update_fn != UPD[p["k"]]:
                    raise Bad(f"{w} has update rule {o.update_fn}")
                if tuple(o.bounds) != tuple(bds[i].get(p["n"], bds[i].get("x"))):
                    raise Bad(f"{w} has bounds {o.bounds}")
                if t == "var" and o.name != "x%d" % info_name(bds, s):
                    raise Bad(f"{w} is named {o.name}")
                if p["k"] in "rc" and np.asarray(got).dtype != (np.float64 if p["k"] == "r" else np.complex128):
                    raise Bad(f"{w} has dtype {np.asarray(got).dtype}")
            cnt("params")
        if t != "var" and x.ansatz is not None:
            ref = fresh(c, x)
            if x.wires != ref.wires:
                raise Bad(f"{where}: wires of component {i} of slot {s}: {x.wires} instead of {ref.wires}")
            if type(x.ansatz) is not type(ref.ansatz):
                raise Bad(f"{where}: component {i} of slot {s} is a {type(x.ansatz).__name__}")
            rep = lambda z: z.ansatz.triple if hasattr(z.ansatz, "_A") else (z.ansatz.array,)
            for a, b in zip(rep(x), rep(ref)):
                if not close(arr(a), arr(b), rtol=1e-6, atol=1e-6):
                    raise Bad(f"{where}: representation of {c['t']} in slot {s} is not that of its parameters {[(p['n'], val(p)) for p in c['ps']]}")
            cnt("representations")


ORIGIN = {}


def info_name(bds, s):
    return ORIGIN[id(bds)]


def fresh(c, like):
    kw = {p["n"]: val(p) for p in c["ps"]}
    m = like.modes
    kw.update(INERT.get(c["t"], {}))
    if c["t"] == "MZgate":
        kw["internal"] = bool(m[0] % 2)
    return CLS[c["t"]](tuple(m) if c["t"] in TWO else m[0], **kw)


VAC = lambda: Vacuum(0)


def phys(circ, t, how):
    """|L - t|^2 as the exponent of the overlap of a chain on the vacuum with a coherent state."""
    tgt = Coherent(0, t)
    cs = list(circ.components)
    if how == 2 and len(circ.path) == len(cs) - 1:
        st = VAC() >> circ.contract()
    elif how == 3:
        full = Circuit([VAC(), *cs])
        full.path = [(0, i) for i in range(1, len(cs) + 1)]
        st = full.contract()
    else:
        st = VAC()
        for c in cs:
            st = st >> c
    pure = not any(isinstance(c, Attenuator) for c in cs)
    if how == 1:
        f = st >> tgt.dual
        f = math.abs(f) ** 2 if pure else math.real(f)
    elif pure:
        f = st.fidelity(tgt)
    else:
        f = math.real(st.expectation(tgt.dm()))
    return -math.log(math.real(f))


def make_cost(op, items, objs):
    """The cost of a run as a function of the trained objects."""
    sel = op["sel"]
    terms = op["terms"]

    def cost(*args):
        ob = dict(objs)
        ob.update({s: a for s, a in zip(sel, args)})
        P = lambda r: param(items[r[0]], ob[r[0]], r).value
        total = 0.0
        for t in terms:
            if t["k"] == "m":
                A = np.array(t["A"], dtype=float)
                A = A[..., 0] + 1j * A[..., 1]
                p = P(t["r"])
                if not jnp.iscomplexobj(p):
                    A = np.real(A)
                total = total + jnp.real(jnp.sum(np.conj(A) * p))
            elif t["phys"]:
                total = total + phys(ob[t["phys"]], complex(*t["t"]), op["cfg"]["call"])
            else:
                z = -complex(*t["t"])
                for part in t["parts"]:
                    z = z + complex(*part["k"]) / 4 * P(part["r"])
                total = total + t["w"] / 2 * jnp.sum(jnp.real(z) ** 2 + jnp.imag(z) ** 2)
        return total

    return cost


def losses(op):
    out = []
    for step in op["hist"]:
        x = 0.0
        for t in step:
            x += t["x"][0][0] / t["x"][0][1] if t["w"] == 0 else t["w"] / 2 * sum((a / 4 / D) ** 2 + (b / 4 / D) ** 2 for a, b in t["x"])
        out.append(x)
    return out


@contextlib.contextmanager
def bar(on):
    settings.PROGRESSBAR = on
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        settings.PROGRESSBAR = False


def replay(rec):
    items, objs, infos = {}, {}, {}
    shared = Optimizer()
    for n, t in enumerate(rec["trace"]):
        op = t["op"]
        where = f"step {n + 1} ({op['k']})"
        if op["k"] == "new":
            s = op["s"]
            ob, bds, path = build(t["st"][s - 1], s)
            ORIGIN[id(bds)] = s
            KEEP.append(bds)
            objs[s], infos[s] = ob, (bds, path)
        elif op["k"] == "train":
            cfg = op["cfg"]
            lrs = dict(euclidean_lr=1 / op["lr"], symplectic_lr=LRS[op["sm"]], unitary_lr=np.pi / 2, orthogonal_lr=np.pi / 2)
            if cfg["fresh"]:
                opt = Optimizer(**lrs)
            else:
                opt = shared
                for k, v in lrs.items():
                    setattr(opt, k, v)
            cost = make_cost(op, items, objs)
            args = [objs[s] for s in op["sel"]]
            before = list(args)
            with bar(cfg["bar"]):
                res = opt.minimize(cost, args if RNG.random() < 0.5 else tuple(args), max_steps=op["n"], euclidean_optim=optax.sgd)
            if args != before and any(a is not b for a, b in zip(args, before)):
                raise Bad(f"{where}: the list of trained objects was modified")
            if len(res) != len(args):
                raise Bad(f"{where}: {len(res)} results for {len(args)} objects")
            got, want = [float(x) for x in opt.opt_history[1:]], losses(op)
            if len(got) != len(want):
                raise Bad(f"{where}: {len(got)} losses recorded, expected {len(want)}")
            if not close(got, want, rtol=1e-7, atol=1e-7):
                raise Bad(f"{where}: losses {got}, expected {want}")
            newobj = {o: r for o, r in zip(op["out"], res)}
            newinf = {o: infos[s] for o, s in zip(op["out"], op["sel"])}
            objs.update(newobj)
            infos.update(newinf)
            cnt("runs"); cnt("steps", op["n"])
            for x in op["terms"]:
                cnt("phys" if x.get("phys") else x["k"])
        for s in range(1, 6):
            items[s] = t["st"][s - 1]
            if items[s]["t"] == "chain":
                for c in items[s]["cs"]:
                    c["chain"] = True
            if items[s]["t"] != "none":
                look(items[s], objs[s], infos[s], s, where)


KEEP = []
Q = 2.0 ** -10


def script(rec):
    shared = Optimizer()
    for n, x in enumerate(rec["runs"]):
        run, want = x["run"], x["hist"]
        tab = jnp.array(run["tab"], dtype=jnp.float64) * Q

        def cost(c):
            i = jnp.clip(jnp.round(jax.lax.stop_gradient(c.value)).astype(int), 0, len(tab) - 1)
            return tab[i] + jax.lax.stop_gradient(c.value) - c.value

        opt = Optimizer(euclidean_lr=1.0, stable_threshold=run["thr"] * Q) if run["fresh"] else shared
        opt.euclidean_lr, opt.stable_threshold = 1.0, run["thr"] * Q
        with bar(run["bar"]):
            (res,) = opt.minimize(cost, [Variable(0.0, "c")], max_steps=run["max"], euclidean_optim=optax.sgd)
        got = [float(v) / Q for v in opt.opt_history[1:]]
        what = f"run {n + 1} (limit {run['max']}, threshold {run['thr']} quanta)"
        if len(got) != len(want):
            raise Bad(f"{what}: {len(got)} steps, expected {len(want)}; losses {want[-25:]}")
        if not close(got, want, atol=1e-6):
            raise Bad(f"{what}: losses {got} instead of {want}")
        if abs(float(res.value) - len(want)) > 1e-6:
            raise Bad(f"{what}: {float(res.value)} updates for {len(want)} losses")
        cnt("scripted runs"); cnt("scripted steps", len(want))


def bounded(rec):
    """Updates that would leave the bounds of a real variable end on them."""
    lo, hi = rec["bounds"]
    v = Variable(rec["x0"], "x", (lo, hi))
    (res,) = Optimizer(euclidean_lr=0.25).minimize(lambda x: (x.value - rec["t"]) ** 2, [v], max_steps=rec["n"], euclidean_optim=optax.sgd)
    got = float(res.value)
    if (lo is not None and got < lo - 1e-9) or (hi is not None and got > hi + 1e-9):
        raise Bad(f"a variable with bounds {lo, hi} was trained from {rec['x0']} to {got}")
    cnt("bounds")


for i, r in enumerate(payload["recs"]):
    fn = {"trace": replay, "runs": script, "bounds": bounded}[next(k for k in ("trace", "runs", "bounds") if k in r)]
    try:
        fn(r)
        ok, det = True, ""
    except Bad as e:
        ok, det = False, str(e)
    except Exception as e:
        ok, det = False, exc(e)
    key = "O13/bounds" if fn is bounded else f"O13/{fn.__name__}/{(payload['off'] + i)}"
    emit(id=key, ok=ok, key=key, clause=fn.__name__, detail=det[:600], case=r)
    KEEP.clear()
    if i % 10 == 9:
        jax.clear_caches()
emit(id="count", ok=True, key="count", clause="info", detail=str(COUNT), notrace=True, case=None)
done()
