import random
from copy import deepcopy
from wlib import *
from netlib import *
from mrmustard.lab import BSgate, Circuit
from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
from mrmustard.path import branch_and_bound as bb


class FockBS(CircuitComponent):
    pass


FockBS.__name__ = "BSgate"


def comp(x):
    n = len(x["legs"])
    if x["kind"] == "F":
        cls = FockBS if x["bs"] else CircuitComponent
        return cls(ArrayAnsatz(np.ones(x["dims"], dtype=np.complex128), 0), Wires(*sets(x)))
    if x["bs"]:
        c = BSgate(tuple(sorted({LBL[m] for _, m in x["legs"]})), 0.3, 0.4)
    else:
        c = CircuitComponent(PolyExpAnsatz(0.1 * np.eye(n, dtype=np.complex128), np.zeros(n, dtype=np.complex128), 1.0 + 0j), Wires(*sets(x)))
    c.manual_shape = x["dims"]
    return c


def one(rec, probs, rng):
    comps = [comp(x) for x in rec["circ"]]
    paths = {tuple(tuple(e) for e in p): c for p, c in zip(rec["paths"], rec["costs"])}
    n = 0
    # per-step costs of given orders
    for p in rec["replay"]:
        g = bb.parse_components(comps)
        bb.assign_costs(g)
        for e in p:
            g = bb.contract(g, tuple(e))
        want = paths[tuple(tuple(e) for e in p)]
        if list(g.costs) != want or g.cost != sum(want):
            probs.append(("costs", f"path {p}: costs {g.costs} total {g.cost}, cost model gives {want}"))
        c = next(iter(g.components()))
        if c.cost != sum(want):
            probs.append(("component_cost", f"path {p}: component reports {c.cost}, sum of steps is {sum(want)}"))
        if list(legs_of(c.wires)) != [(k, LBL[m], i) for i, (k, m) in enumerate(rec["raw"]["legs"])]:
            probs.append(("result_wires", f"path {p}: {legs_of(c.wires)}"))
        n += 1
    # the optimum
    best = min(sum(c) for c in rec["costs"])
    worst = max(sum(c) for c in rec["costs"])
    for n_init in (0, 1, 3, 12):
        for heur in ((), ("1BB", "2BB", "1BF", "1FB", "1FF", "2FF")):
            if heur and n_init != 3:
                continue
            random.seed(rng.randrange(10**6)); settings.SEED = rng.randrange(10**6)
            g = bb.parse_components(comps)
            bb.assign_costs(g)
            shapes0 = [list(c.shape) for c in g.components()]
            o = bb.optimal_contraction(g, n_init, heur, False)
            sol = tuple(tuple(e) for e in o.solution)
            if sol not in paths:
                probs.append(("solution", f"n_init={n_init} heuristics={heur}: {sol} is not a complete valid path"))
                continue
            if list(o.costs) != paths[sol] or o.cost != sum(paths[sol]):
                probs.append(("reported", f"n_init={n_init} heuristics={heur}: reported {o.costs} for {sol}, cost model gives {paths[sol]}"))
            if not heur and o.cost != best:
                probs.append(("optimal", f"n_init={n_init}: cost {o.cost} for {sol}; the minimum over all orders is {best}"))
            if o.cost < best:
                probs.append(("optimal", f"reported cost {o.cost} below the minimum {best}"))
            if [list(c.shape) for c in g.components()] != shapes0:
                probs.append(("pure", "the search changed the graph it was given"))
    # Fock shapes
    before = [tuple(c.auto_shape()) for c in comps]
    circ = Circuit(comps)
    g = bb.parse_components(circ.components)
    bb.assign_costs(g)
    g.optimize_fock_shapes(circ.components, verbose=False)
    for j, (c, x) in enumerate(zip(circ.components, rec["circ"])):
        got = list(c.manual_shape)
        if got != list(g.component(j).shape):
            probs.append(("shapes", f"component {j}: manual_shape {got}, graph {g.component(j).shape}"))
        for i, v in enumerate(got):
            if not (rec["tight"][j][i] <= v <= rec["loose"][j][i]):
                probs.append(("shapes", f"component {j} ({x['kind']}, bs={x['bs']}) leg {i}: {v}, must be between {rec['tight'][j][i]} and {rec['loose'][j][i]} (was {x['dims'][i]})"))
    if [tuple(c.auto_shape()) for c in comps] != before:
        probs.append(("pure", "optimising the shapes of a circuit changed the original components"))
    after = [tuple(c.manual_shape) for c in circ.components]
    g2 = bb.parse_components(circ.components)
    g2.optimize_fock_shapes(circ.components, verbose=False)
    if [tuple(c.manual_shape) for c in circ.components] != after:
        probs.append(("shapes", "optimising the shapes twice gives another result than once"))
    return n, worst > best


rng = random.Random(payload["seed"])
for i, rec in enumerate(payload["recs"]):
    relabel(i)
    probs = []
    n, var = 0, False
    try:
        n, var = one(rec, probs, rng)
    except Exception as e:
        probs.append(("exception", exc(e)))
    io = ";".join("".join(str(m) for c, m in x["legs"] if c in (1, 3)) + ">" + "".join(str(m) for c, m in x["legs"] if c in (0, 2)) + x["kind"] + "".join(map(str, x["dims"])) for x in rec["circ"])
    if probs:
        emit(id=i, ok=False, key=f"{probs[0][0]}:{io}", clause=probs[0][0], detail="; ".join(f"{a}: {b}" for a, b in probs[:4]), case=dict(circ=rec["circ"], path=rec["replay"][:1]))
    else:
        emit(id=i, ok=True, paths=n, vary=var)
done()
