from wlib import *
from mrmustard.physics.wires import Wires

SETS = [[1, 8, 17], [0, 1, 2], [2, 33, 1000], [3, 999, 20480], [7, 8192, 5000003], [0, 200001, 99999999]]   # mode labels: any natural numbers
LBL = SETS[0]


def mk(w):
    a = [set() for _ in range(6)]
    for c, m in w:
        a[c].add(LBL[m])
    return Wires(*a)


def legs(W):
    """Observed legs in the order of the reported indices (public API only)."""
    out = []
    for w in W.sorted_wires:
        cl = not hasattr(w, "is_ket")
        c = (4 if w.is_out else 5) if cl else (0 if w.is_out else 1) + (2 if w.is_ket else 0)
        out.append((w.index, [c, LBL.index(w.mode) if w.mode in LBL else -w.mode]))
    return out


def std(W, what, want, probs):
    got = legs(W)
    if [g[1] for g in got] != want:
        probs.append((what, f"legs {[g[1] for g in got]} expected {want}"))
    elif [g[0] for g in got] != list(range(len(want))):
        probs.append((what, f"indices {[g[0] for g in got]} are not the standard order"))
    return not probs


def fp(W):
    return (legs(W), W.ids)


def pair(r, probs):
    a, b = mk(r["a"]), mk(r["b"])
    fa, fb = fp(a), fp(b)
    try:
        res, perm = a @ b
        ok = True
    except ValueError as e:
        ok = False
    if ok != r["ok"]:
        probs.append(("defined", f"composition {'accepted' if ok else 'refused'} but spec says {'defined' if r['ok'] else 'undefined'}"))
        return
    if ok:
        std(res, "compose", r["r"], probs)
        if list(perm) != r["p"]:
            probs.append(("perm", f"{list(perm)} expected {r['p']}"))
        hascl = any(l[0] > 3 for l in r["a"] + r["b"])
        ia, ib = a.contracted_indices(b)
        if (list(ia), list(ib)) != (r["ia"], r["ib"]):
            probs.append(("contracted_indices", f"{ia},{ib} expected {r['ia']},{r['ib']}"))
        if not hascl:
            la, lb, lo = a.contracted_labels(b)
            if (list(la), list(lb), list(lo)) != (r["la"], r["lb"], r["lo"]):
                probs.append(("contracted_labels", f"{la},{lb},{lo} expected {r['la']},{r['lb']},{r['lo']}"))
        # dual / adjoint of the composition
        d, _ = b.dual @ a.dual
        if d != res.dual or sorted(legs(d)) != sorted(legs(res.dual)):
            probs.append(("dual_compose", "dual does not reverse composition"))
        e, _ = a.adjoint @ b.adjoint
        if e != res.adjoint or sorted(legs(e)) != sorted(legs(res.adjoint)):
            probs.append(("adjoint_compose", "adjoint does not distribute over composition"))
        # composition must not share wires with the operands: change the result, look at the operands
        for w in res.sorted_wires:
            w.index += 100
    if fp(a) != fa or fp(b) != fb:
        probs.append(("pure", "an operand changed"))
    # adding: defined exactly when disjoint
    over = [l for l in r["a"] if l in r["b"]]
    try:
        s = a + b
        if over:
            probs.append(("add", f"overlapping legs {over} accepted"))
        elif sorted(x[1] for x in legs(s)) != sorted(r["a"] + r["b"]):
            probs.append(("add", "sum has wrong legs"))
    except ValueError:
        if not over:
            probs.append(("add", "disjoint sum refused"))
    for (x, y, nm) in ((a.adjoint, mk(r["b"]), "adjoint"), (a.dual, mk(r["b"]), "dual")):
        xl = [l[1] for l in legs(x)]
        over = [l for l in xl if l in r["b"]]
        try:
            s = x + y
            if over:
                probs.append(("add", f"{nm}: overlapping legs {over} accepted"))
        except ValueError:
            if not over:
                probs.append(("add", f"{nm}: disjoint sum refused"))
    # equality and hashing
    if (a == b) != r["eq"]:
        probs.append(("eq", f"== gave {a == b}"))
    if r["eq"] and hash(a) != hash(b):
        probs.append(("hash", "equal wires have different hashes"))
    # self composition through one shared object behaves like composition of two separate copies
    if r["eq"] and r["ok"]:
        res, perm = a @ a
        std(res, "compose_same_object", r["r"], probs)
        if list(perm) != r["p"]:
            probs.append(("perm_same_object", f"{list(perm)} expected {r['p']}"))


def view(r, probs):
    w = mk(r["w"])
    f = fp(w)
    std(w, "standard_order", r["w"], probs)
    got = dict(input=w.input, output=w.output, ket=w.ket, bra=w.bra, quantum=w.quantum, classical=w.classical,
               inket=w.input.ket, outbra=w.output.bra)
    for k, v in got.items():
        if list(v.indices) != r[k]:
            probs.append(("view_" + k, f"indices {v.indices} expected {r[k]}"))
        if [x[1] for x in legs(v)] != [r["w"][i] for i in r[k]]:
            probs.append(("view_" + k, "view selects wrong legs"))
        if len(v) != len(r[k]) or bool(v) != bool(r[k]):
            probs.append(("view_" + k, "len/bool of view"))
    for k in ("ket", "bra"):
        if sorted(got[k].modes) != sorted({LBL[r["w"][i][1]] for i in r[k]}):
            probs.append(("modes", k))
    for m in range(3):
        if list(w[LBL[m]].indices) != r["modes"][m]:
            probs.append(("getitem", f"mode {m}: {w[LBL[m]].indices} expected {r['modes'][m]}"))
        both = sorted(r["modes"][m] + r["modes"][(m + 1) % 3])
        if list(w[(LBL[m], LBL[(m + 1) % 3])].indices) != both:
            probs.append(("getitem", f"modes pair {m}"))
    std(w.dual, "dual", r["dual"], probs)
    std(w.adjoint, "adjoint", r["adjoint"], probs)
    for nm, z in (("dual.dual", w.dual.dual), ("adjoint.adjoint", w.adjoint.adjoint), ("copy", w.copy()),
                  ("copy_new", w.copy(new_ids=True)), ("args", Wires(*w.args)),
                  ("dual.adjoint.dual.adjoint", w.dual.adjoint.dual.adjoint)):
        std(z, nm, r["w"], probs)
        if not (z == w and w == z):
            probs.append(("eq", nm))
        elif hash(z) != hash(w):
            probs.append(("hash", f"{nm}: equal wires hash differently"))
    if w.dual.adjoint != w.adjoint.dual:
        probs.append(("commute", "dual and adjoint do not commute"))
    if set(w.ids) & set(w.dual.ids) or set(w.ids) & set(w.adjoint.ids):
        probs.append(("ids", "dual/adjoint share wire ids with the original"))
    # disjoint pieces add back to the whole
    s = w.input + w.output
    if s != w or sorted(legs(s)) != sorted(legs(w)):
        probs.append(("add", "input + output is not the whole"))
    if fp(w) != f:
        probs.append(("pure", "viewing changed the wires"))


def triple(r, probs):
    a, b, c = mk(r["a"]), mk(r["b"]), mk(r["c"])
    l = (a @ b)[0] @ c
    rr = a @ (b @ c)[0]
    std(l[0], "assoc_left", r["r"], probs)
    std(rr[0], "assoc_right", r["r"], probs)


for i, rec in enumerate(payload["recs"]):
    probs = []
    r = rec.get("r", rec)
    LBL = SETS[i % len(SETS)]
    try:
        {"pair": lambda: pair(rec["r"], probs), "view": lambda: view(rec["r"], probs), "triple": lambda: triple(rec, probs)}[rec["k"]]()
    except Exception as e:
        probs.append(("exception", exc(e)))
    if probs:
        key = f"{rec['k']}:{probs[0][0]}:{json.dumps(r.get('w', [r.get('a'), r.get('b'), r.get('c')]) if isinstance(r, dict) else rec)}"
        emit(id=i, ok=False, key=key, clause=probs[0][0], detail="; ".join(f"{a}: {b}" for a, b in probs[:4]), case=rec)
    else:
        emit(id=i, ok=True)
done()
