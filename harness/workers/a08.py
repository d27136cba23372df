"""Replays programs of ansatz operations generated by Ansatz.tla and compares the values of every result at every point."""
from wlib import *
from itertools import product
from math import factorial
from mrmustard.physics.ansatz import PolyExpAnsatz

C = lambda u: complex(u[0], u[1])
LETTERS = "pqrstuvwxyz"


def leaf(x, perm=None):
    n, bs, ls, d = x["n"], x["bs"], x["ls"], x["d"]
    sh = d["sh"]
    K = d["k"] if ls else 1
    T = n + len(sh)
    terms = d["terms"]
    lead = tuple(bs) + ((K,) if ls else ())
    A = np.array([[[C(v) for v in row] for row in t["A"]] for t in terms], dtype=complex).reshape(lead + (T, T)) / 2
    b = np.array([[C(v) for v in t["b"]] for t in terms], dtype=complex).reshape(lead + (T,))
    c = np.array([[C(v) for v in t["c"]] for t in terms], dtype=complex).reshape(lead + tuple(sh))
    w = np.ones(tuple(sh))
    for k in product(*[range(s) for s in sh]):
        for ki in k:
            w[k] *= np.sqrt(factorial(ki))
    c = c * w
    if perm is not None:
        A, b, c = A[..., perm, :, :], b[..., perm, :], np.take(c, perm, axis=len(bs))
    return PolyExpAnsatz(A, b, c, lin_sup=bool(ls))


def value(v):
    val = sum((C(co) * np.exp(C(q)) for q, co in v), 0j)
    scale = sum((max(abs(C(co)), 1e3) * np.exp(q[0]) for q, co in v), 0.0)     # a wrong integer coefficient is off by one or more
    return val, scale


def bl(lbls):
    return ["bat" + str(k) for k in lbls]


def apply(step, args):
    op, d = step["op"], step["d"]
    x = args[0] if args else None
    if op == "leaf":
        return leaf(step)
    if op == "add":
        return x + args[1]
    if op == "sub":
        return x - args[1]
    if op == "neg":
        return -x
    if op == "mul":
        return x * C(d["s"])
    if op == "rmul":
        return C(d["s"]) * x
    if op == "div":
        return x / (1 / C(d["s"]))
    if op == "half":
        return x / 2
    if op == "conj":
        return x.conj
    if op == "and":
        return x & args[1]
    if op == "reorder":
        return x.reorder([k - 1 for k in d["order"]])
    if op == "reorder_batch":
        return x.reorder_batch([k - 1 for k in d["order"]])
    if op == "simplify":
        return x.simplify()
    if op == "decompose":
        return x.decompose_ansatz()
    if op == "trace":
        return x.trace(tuple(k - 1 for k in d["z"]), tuple(k - 1 for k in d["zc"]))
    if op == "contract":
        y = args[1]
        i1, i2, out = bl(d["ba"]) + d["la"], bl(d["bb"]) + d["lb"], bl(d["bout"]) + d["out"]
        return y.contract(x, i2, i1, out) if d["flip"] else x.contract(y, i1, i2, out)
    if op == "peval":
        n = step["n"] + len(d["idx"])
        z = [None] * n
        if d["mode"] == "eval":
            for k, i in enumerate(d["idx"]):
                z[i - 1] = np.array([2 * C(v) for v in d["lists"][k]])
            if len(d["idx"]) % 2:
                return x.eval(*z)
            s = LETTERS[: len(d["idx"])]
            return x.eval(*z, batch_string=",".join(s) + "->" + s)
        vals = np.array([[2 * C(v) for v in row] for row in d["vals"]]).reshape(tuple(d["zb"]) + (len(d["idx"]),))
        for k, i in enumerate(d["idx"]):
            z[i - 1] = vals[..., k]
        return x(*z)
    raise RuntimeError(op)


def check_obs(F, step):
    """None or a complaint."""
    n, bs = step["n"], tuple(step["bs"])
    if F.num_CV_vars != n:
        return f"expected {n} variables, found {F.num_CV_vars}"
    want_batch = bs
    got_batch = tuple(F.batch_shape)[:-1] if step["ls"] else tuple(F.batch_shape)
    if got_batch != want_batch:
        return f"expected batch shape {want_batch}, found {F.batch_shape} (superposition={bool(step['ls'])})"
    pts = [o for o in step["obs"] if o["v"]]
    if not pts:
        return None
    for o in pts:
        z = [2 * C(v) for v in o["p"]]
        got = arr(F(*z))
        if got.shape != bs:
            return f"value at a point has shape {got.shape}, expected {bs}"
        for q, (g, v) in enumerate(zip(got.reshape(-1), o["v"])):
            val, scale = value(v)
            if not abs(g - val) <= 1e-8 * scale + 1e-7:
                return f"at z={z}, batch element {q}: {g}, expected {val}"
    if n and len(pts) > 1:
        zs = [np.array([2 * C(o["p"][i]) for o in pts]) for i in range(n)]
        exp = np.array([[value(v) for v in o["v"]] for o in pts])
        val, scale = exp[..., 0], np.abs(exp[..., 1])
        got = arr(F(*zs))
        if got.shape != (len(pts),) + bs:
            return f"values at {len(pts)} points have shape {got.shape}"
        if not np.all(np.abs(got.reshape(len(pts), -1) - val) <= 1e-8 * scale + 1e-7):
            return "values at several points differ from the values one by one"
        got = arr(F.eval(*zs, batch_string=",".join("k" for _ in zs) + "->k"))
        if not (got.shape == (len(pts),) + bs and np.all(np.abs(got.reshape(len(pts), -1) - val) <= 1e-8 * scale + 1e-7)):
            return "eval with a shared batch label differs from the values one by one"
    zero = [o for o in pts if all(v == [0, 0] for v in o["p"])]
    if zero:
        sc = arr(F.scalar)
        for g, v in zip(sc.reshape(-1), zero[0]["v"]):
            val, scale = value(v)
            if not abs(g - val) <= 1e-8 * scale + 1e-7:
                return f"scalar {g}, expected F(0)={val}"
    return None


def laws(F, step, rnd):
    if not (F == F):
        return "not equal to itself"
    if step["ls"] and not step["bs"]:
        K = F.batch_shape[-1]
        perm = rnd.permutation(K)
        A, b, c = (arr(v) for v in F.triple)
        H = PolyExpAnsatz(A[perm], b[perm], c[perm], lin_sup=True)
        if not (F == H and H == F):
            return f"not equal to itself with its terms in the order {list(perm)}"
        c2 = c.copy()
        c2[(0,) * c2.ndim] += 3 + abs(c2).max()
        if F == PolyExpAnsatz(A, b, c2, lin_sup=True):
            return "equal to a superposition with another coefficient"
        if step["op"] == "simplify":
            for i in range(K):
                for j in range(i):
                    if np.allclose(A[i], A[j]) and np.allclose(b[i], b[j]):
                        return f"terms {j} and {i} have the same exponential after simplifying"
            G = F.simplify()
            if G.batch_shape != F.batch_shape or not (G == F):
                return "simplifying twice differs from simplifying once"
    return None


rnd = np.random.default_rng(payload["seed"])
ops = {}
for b, trail in enumerate(payload["recs"]):
    objs = []
    for i, step in enumerate(trail):
        op = step["op"]
        args = []
        dead = False
        desc = f"{op}"
        for a in step["args"]:
            if "id" in a:
                args.append(objs[a["id"] - 1])
                dead |= objs[a["id"] - 1] is None
            else:
                args.append(leaf(a))
        if dead:
            objs.append(None)
            continue
        ops[op] = ops.get(op, 0) + 1
        key = f"{op}:{BACKEND}"
        case = dict(backend=BACKEND, step=i, trail=trail[: i + 1])
        try:
            F = apply(step, args)
            why = check_obs(F, step) or laws(F, step, rnd)
            clause = "value"
        except Exception as e:
            F, why, clause = None, exc(e), "refused"
        if why:
            info = [(list(a.batch_shape), int(a._lin_sup), a.num_CV_vars, a.num_derived_vars) for a in args]
            emit(id=f"{b}.{i}", ok=False, key=key, clause=clause, detail=f"{op} of {info} (batch, sup, vars, derived): {why}", case=case)
            objs.append(None)
        else:
            objs.append(F)
    emit(id=str(b), ok=True)
emit(id="ops", ok=True, notrace=True, ops=ops)
done()
