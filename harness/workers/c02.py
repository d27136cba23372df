from wlib import *
from netlib import *
from mrmustard.lab import TraceOut, Ket, DM, Unitary, Channel, CircuitComponent

FN = {"shift": lambda x, y: x >> y, "rshift": lambda x, y: y >> x, "contract": lambda x, y: x.contract(y), "rcontract": lambda x, y: y.contract(x)}


def one(i, r, probs):
    op = r["op"]
    v = i % 3
    x = mk(r["x"], v)
    cls_x = type(x)
    before = fingerprint(x)
    bad = "bad" in r["r"]
    want = r["r"]
    if op in FN:
        y = mk(r["y"], (i // 3) % 3)
        by = fingerprint(y)
        try:
            got = FN[op](x, y)
        except ValueError as e:
            if not bad:
                probs.append((op, f"refused: {exc(e)}"))
            return
        if bad:
            probs.append((op, "accepted a composition that is not defined"))
            return
        if op.endswith("shift") and not want["legs"]:
            if isinstance(got, CircuitComponent):
                probs.append((op, "closed network did not return a number"))
                return
            g = np.asarray(got)
            w = np.array(complex(*want["arr"][0]))
            if g.shape != () or not close(g, w):
                probs.append((op, f"closed network gave {g} expected {w}"))
        else:
            compare(got, want, op, probs)
            if op == "shift":
                for a, b, c in ((Ket, Unitary, Ket), (Ket, Channel, DM), (DM, Unitary, DM), (DM, Channel, DM), (Unitary, Unitary, Unitary), (Unitary, Channel, Channel), (Channel, Unitary, Channel), (Channel, Channel, Channel)):
                    if type(x) is a and type(y) is b and not (a in (Ket, DM) and got.wires.input) and type(got) is not c:
                        probs.append(("class", f"{a.__name__}>>{b.__name__} returned {type(got).__name__}"))
        if fingerprint(y) != by:
            probs.append(("pure", f"{op} changed its right operand"))
    elif op == "assoc":
        y, z = mk(r["y"], (i // 3) % 3), mk(r["z"], (i // 9) % 3)
        for w, nm in ((r["r"], "left"), (r["r2"], "right")):
            if "bad" in w:
                continue
            got = (x >> y) >> z if nm == "left" else x >> (y >> z)
            if not w["legs"]:
                if isinstance(got, CircuitComponent) or not close(np.asarray(got), np.array(complex(*w["arr"][0]))):
                    probs.append(("assoc", f"{nm}: closed network wrong"))
            else:
                compare(got, w, "assoc_" + nm, probs)
    elif op == "adjoint":
        compare(x.adjoint, want, op, probs)
        compare(x.adjoint.adjoint, r["x"], "adjoint_adjoint", probs)
        if not (x.adjoint.adjoint == x):
            probs.append(("eq", "adjoint.adjoint != self"))
    elif op == "dual":
        compare(x.dual, want, op, probs)
        compare(x.dual.dual, r["x"], "dual_dual", probs)
    elif op == "dm":
        k = mk(r["x"], 1)
        if bad:
            return
        compare(k.dm(), want, op, probs)
        if type(k.dm()) is not DM:
            probs.append(("class", "dm() is not a DM"))
        compare(x.contract(x.adjoint), want, op, probs)
    elif op == "scale":
        z = complex(*r["z"])
        compare(x * z, want, op, probs)
        compare(z * x, want, op, probs)
        if type(x * z) is not cls_x:
            probs.append(("class", f"scaling a {cls_x.__name__} gave {type(x * z).__name__}"))
        if z:
            compare((x * z) / z, r["x"], "div", probs)
        compare(x >> z, want, "shift_scalar", probs)
        compare(x + x * z, dict(want, arr=[[a[0] + b[0], a[1] + b[1]] for a, b in zip(want["arr"], r["x"]["arr"])]), "add", probs)
        compare(x - x * z, dict(want, arr=[[b[0] - a[0], b[1] - a[1]] for a, b in zip(want["arr"], r["x"]["arr"])]), "sub", probs)
    elif op == "trace":
        if bad:
            return
        ms = sorted({LBL[l[1]] for l in r["y"]["legs"]})
        got = x >> TraceOut(tuple(ms))
        if not want["legs"]:
            if isinstance(got, CircuitComponent) or not close(np.asarray(got), np.array(complex(*want["arr"][0]))):
                probs.append(("trace", f"full trace gave {got} expected {want['arr'][0]}"))
        else:
            compare(got, want, op, probs)
    if len({l[1] for l in r["x"]["legs"]} ) and op in ("adjoint", "dual", "scale"):
        # moving to other modes relabels legs only
        sets = {c: [l[1] for l in r["x"]["legs"] if l[0] == c] for c in range(4)}
        used = [tuple(v) for v in sets.values() if v]
        if len(set(used)) == 1:
            ms = list(used[0])
            new = [0, 2, 3][: len(ms)] if i % 2 else [3, 1, 2][: len(ms)]
            new = sorted(new) if True else new
            moved = dict(r["x"], legs=[[c, new[ms.index(m)]] for c, m in r["x"]["legs"]])
            arg = [LBL[m] for m in new]
            got = x.on(tuple(arg) if len(arg) > 1 or i % 2 else arg[0])
            compare(got, moved, "on", probs)
            compare(got.on(tuple(LBL[m] for m in ms)), r["x"], "on_back", probs)
    if fingerprint(x) != before:
        probs.append(("pure", f"{op} changed its operand"))


for i, rec in enumerate(payload["recs"]):
    relabel(i)
    probs = []
    try:
        one(i + payload.get("off", 0), rec, probs)
    except Exception as e:
        probs.append(("exception", f"{rec['op']}: {exc(e)}"))
    if probs:
        emit(id=i, ok=False, key=f"{rec['op']}:{probs[0][0]}:{rec['x']['legs']}:{rec.get('y', {}).get('legs') if isinstance(rec.get('y'), dict) else ''}",
             clause=probs[0][0], detail="; ".join(f"{a}: {b}" for a, b in probs[:4]), case=rec)
    else:
        emit(id=i, ok=True)
done()
