"""Replays Tensors.tla: the array operations of mrmustard.math, outside and inside a compiled function."""
from wlib import *
from glib import *
import glib

RNG = glib.RNG
RNG.seed(payload["seed"])
COUNT = {}
JAX = BACKEND == "jax"
if JAX:
    import jax


class Bad(Exception):
    key = ""


def cnt(k):
    COUNT[k] = COUNT.get(k, 0) + 1


def value(t, dtype=None):
    a = np.array([complex(*e) for e in t["d"]]).reshape(t["sh"])
    return a


def is_real(t):
    return all(e[1] == 0 for e in t["d"])


ORDERED = {"mod", "clip", "sort", "max", "maximum", "minimum"}           # not defined on complex numbers
COUNTED = {"transpose", "reverse", "reshape", "moveaxis", "swapaxes", "expand_dims", "tile", "pad", "diag", "diag_part", "diagonal", "sum", "sumall", "prod", "prodall", "conj", "gather", "broadcast_to", "atleast_nd",
           "sort", "max", "concat", "stack", "block", "matmul", "tensordot", "einsum", "kron", "outer", "maximum", "minimum", "mod", "equal", "zeros_like", "ones_like", "eye_like", "trace"}


def operand(t, op):
    """A tensor of the backend with these entries; a real one as floats, sometimes as integers or complex numbers."""
    a = value(t)
    if is_real(t):
        k = RNG.random()
        if k < 0.75 or op in ORDERED:
            a = a.real
            if op in COUNTED and k < 0.15:
                a = a.astype(np.int64)
    return math.astensor(a)


def ax(i, n):
    """An axis numbered from 1, sometimes counted from the end."""
    return i - 1 - n if RNG.random() < 0.3 else i - 1


def seq(q):
    q = list(q)
    return RNG.choice([tuple, list])(q)


def lab(q):
    return "".join("abcdefgh"[i - 1] for i in q)


NOT_TRACED = {"gradient", "eigvals"}            # eigenvalues of the same matrix come out in any order


def call(rec, ins):
    """The operation as (function of the tensors): everything else is fixed."""
    o, p = rec["op"], rec["par"]
    nd = ins[0].ndim
    m = math
    if o == "transpose":
        return lambda t, q=seq(i - 1 for i in p["perm"]): m.transpose(t, q)
    if o == "reverse":
        return lambda t: m.transpose(t)
    if o == "reshape":
        sh = list(p["shape"])
        if RNG.random() < 0.3:
            sh[RNG.randrange(len(sh))] = -1
        if len(sh) == 1 and RNG.random() < 0.5:
            return lambda t: m.reshape(t, sh[0])
        return lambda t, sh=seq(sh): m.reshape(t, sh)
    if o == "moveaxis":
        a, b = [ax(i, nd) for i in p["old"]], [ax(i, nd) for i in p["new"]]
        if len(a) == 1 and RNG.random() < 0.5:
            return lambda t: m.moveaxis(t, a[0], b[0])
        return lambda t, a=seq(a), b=seq(b): m.moveaxis(t, a, b)
    if o == "swapaxes":
        return lambda t, a=ax(p["a"], nd), b=ax(p["b"], nd): m.swapaxes(t, a, b)
    if o == "expand_dims":
        return lambda t, a=ax(p["axis"], nd + 1): m.expand_dims(t, a)
    if o == "tile":
        return lambda t, r=seq(p["reps"]): m.tile(t, r)
    if o == "pad":
        pads = [tuple(q) for q in p["pad"]]
        v = p["value"]
        if v == 0 and RNG.random() < 0.5:
            return lambda t: m.pad(t, pads)
        return lambda t: m.pad(t, pads, mode="CONSTANT", constant_values=v)
    if o == "diag":
        return lambda t: m.diag(t, k=p["k"])
    if o == "diag_part":
        return lambda t: m.diag_part(t, k=p["k"])
    if o == "diagonal":
        return lambda t, a=ax(p["a"], nd), b=ax(p["b"], nd): m.diagonal(t, p["k"], a, b)
    if o in ("trace", "conj", "real", "imag", "dagger", "max", "det", "inv", "eigvals", "eye_like", "ones_like", "zeros_like", "expm", "unitary_to_orthogonal"):
        return getattr(m, o)
    if o in ("matvec", "kron", "outer", "maximum", "minimum", "mod", "make_complex", "equal", "solve", "allclose"):
        return getattr(m, o)
    if o == "sum":
        a = [ax(i, nd) for i in p["axes"]]
        if len(a) == 1 and RNG.random() < 0.5:
            return lambda t: m.sum(t, axis=a[0])
        return lambda t, a=seq(a): m.sum(t, axis=a)
    if o == "sumall":
        return lambda t: m.sum(t)
    if o == "prod":
        return lambda t, a=ax(p["axis"], nd): m.prod(t, axis=a)
    if o == "prodall":
        return lambda t: m.prod(t)
    if o == "gather":
        ix = np.array(p["ix"]).reshape(p["ish"])
        if len(p["ish"]) == 1 and RNG.random() < 0.5:
            ix = list(p["ix"])
        return lambda t, a=ax(p["axis"], nd): m.gather(t, m.astensor(ix) if JAX else ix, axis=a)
    if o == "broadcast_to":
        return lambda t, sh=seq(p["shape"]): m.broadcast_to(t, tuple(sh))
    if o == "atleast_nd":
        return lambda t: m.atleast_nd(t, p["n"])
    if o == "sort":
        if p["axis"] == nd and RNG.random() < 0.5:
            return lambda t: m.sort(t)
        return lambda t, a=ax(p["axis"], nd): m.sort(t, axis=a)
    if o == "clip":
        return lambda t: m.clip(t, p["lo"], p["hi"])
    if o == "adj":
        return lambda t: m.inv(t)
    if o == "concat":
        return lambda *ts, a=ax(p["axis"], nd): m.concat(ts if RNG.random() < 0.5 else list(ts), axis=a)
    if o == "stack":
        return lambda *ts, a=ax(p["axis"], nd + 1): m.stack(list(ts), axis=a)
    if o == "block":
        return lambda a, b, c, d: m.block([[a, b], [c, d]])
    if o in ("matmul", "matmul3"):
        return lambda *ts: m.matmul(*ts)
    if o == "tensordot":
        q = [[i - 1 for i in p["at"]], [i - 1 for i in p["au"]]]
        return lambda t, u: m.tensordot(t, u, q)
    if o == "einsum":
        s = f"{lab(p['lt'])},{lab(p['lu'])}->{lab(p['lo'])}"
        if RNG.random() < 0.2:
            return lambda t, u: m.einsum(s, t, u, optimize="optimal")
        return lambda t, u: m.einsum(s, t, u)
    if o == "update_add_tensor":
        ix = [list(i) for i in p["ix"]]
        return lambda t, v: m.update_add_tensor(t, m.astensor(ix), v)
    if o == "update_tensor":
        ix = np.array([i - 1 for i in p["rows"]])
        return lambda t, v: m.update_tensor(t, m.astensor(ix), v)
    if o == "all_diagonals":
        return lambda t: m.all_diagonals(t, p["real"])
    if o in ("sqrtm", "sqrtmh"):
        return lambda t: m.sqrtm(t)
    if o == "norm2":
        return lambda t: m.norm(t)
    if o == "map_fn":
        return lambda t: m.map_fn(lambda e: m.sum(e), t)
    if o == "pow":
        return lambda t: m.pow(t, p["k"])
    raise KeyError(o)


def want(rec):
    e = value(rec["out"])
    o = rec["op"]
    if o == "expm":
        e = e / 2
    if o == "norm2":
        e = np.sqrt(e)
    return e


def compare(rec, got, how):
    o = rec["op"]
    exp = want(rec)
    if o == "adj":
        got = arr(got) * complex(*rec["par"]["det"])
    got = arr(got)
    if o == "eigvals":
        if got.shape != exp.shape:
            raise Bad(f"{how}: shape {got.shape}, expected {exp.shape}")
        got, exp = np.sort_complex(np.round(got, 5)), np.sort_complex(exp)
    if got.shape != exp.shape:
        raise Bad(f"{how}: shape {got.shape}, expected {exp.shape}")
    tol = 1e-4 if o == "eigvals" else 1e-7
    if not np.all(np.isfinite(got)) or not np.all(np.abs(got - exp) <= tol * max(1.0, np.max(np.abs(exp), initial=0))):
        e = Bad(f"{how}: got {np.round(got, 5).tolist()}, expected {exp.tolist()}"[:500])
        if o == "sqrtm" and JAX and np.allclose(got, np.diag(np.diag(exp))):
            e.key = " only the diagonal"            # see known_findings.json
        raise e
    cnt(f"{o}:{how}")


INPLACE = {"update_tensor", "update_add_tensor"}
SAME_DTYPE = {"transpose", "reverse", "reshape", "moveaxis", "swapaxes", "expand_dims", "tile", "diag", "diag_part", "diagonal", "trace", "gather", "broadcast_to", "sort", "eye_like", "ones_like", "zeros_like", "update_tensor",
              "update_add_tensor", "pad", "sum", "conj", "concat", "stack", "matmul", "tensordot", "einsum", "kron", "outer", "block"}


def gradient(rec):
    if not JAX:
        return
    x, a = value(rec["ins"][0]).real, math.astensor(value(rec["ins"][1]).real)
    f = lambda z: math.sum(math.prod(math.einsum("ijl,l->ij", a, z), axis=1))
    g, val = jax.grad(f)(math.astensor(x)), f(math.astensor(x))
    if abs(float(val) - rec["par"]["value"]) > 1e-8 * max(1, abs(rec["par"]["value"])):
        raise Bad(f"value {val}, expected {rec['par']['value']}")
    compare(rec, g, "gradient")


def one(rec, traced):
    if rec["op"] == "gradient":
        return gradient(rec)
    o = rec["op"]
    ins = [operand(t, o) for t in rec["ins"]]
    if o in INPLACE and not JAX:
        ins[0] = np.array(ins[0], dtype=np.result_type(ins[0], ins[1]))
    if o in INPLACE and JAX:
        d = np.result_type(np.asarray(ins[0]), np.asarray(ins[1]))
        ins[0] = math.astensor(np.asarray(ins[0], dtype=d))
    f = call(rec, ins)
    keep = [np.array(arr(t)) for t in ins]
    got = f(*ins)
    compare(rec, got, "plain")
    for i, (t, k) in enumerate(zip(ins, keep)):
        if i == 0 and o in INPLACE:
            continue
        if not np.array_equal(arr(t), k):
            raise Bad(f"operand {i} changed: {k.tolist()} -> {arr(t).tolist()}"[:300])
    if o in SAME_DTYPE:
        e = np.result_type(*[k.dtype for k in keep])
        if arr(got).dtype != e:
            raise Bad(f"dtype {arr(got).dtype}, operands {[str(k.dtype) for k in keep]}")
    if traced and JAX and o not in NOT_TRACED:
        compare(rec, jax.jit(lambda *ts: f(*ts))(*[math.astensor(k) for k in keep]), "traced")


for r in payload["recs"]:
    for i, rec in enumerate(r["recs"]):
        ok, det, sub = True, "", ""
        try:
            one(rec, traced=RNG.random() < payload.get("traced", 0.3))
        except Bad as e:
            ok, det, sub = False, str(e), e.key
        except Exception as e:
            ok, det = False, "raised " + exc(e)
        emit(id=f"{i}", ok=ok, key=f"{rec['op']} {BACKEND} {payload.get('name', '')}".strip() + sub, clause=rec["op"], detail=det, case=None if ok else dict(op=rec["op"], ins=rec["ins"], par=rec["par"], out=rec["out"]))
emit(id="counts", ok=True, notrace=True, counts=COUNT)
done()
