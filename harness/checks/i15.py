A = ["ket", "dm", "uni", "chan", "gen"]
ST, MP = ["ket", "dm"], ["uni", "chan"]
UNOPS = [(n, f, t, s) for n, f, t, s in [
    ("adjoint", A, "gen", True), ("dual", A, "gen", True), ("on", ST + MP, "same", True), ("to_fock", A, "same", True),
    ("to_fock_auto", ST, "same", True), ("to_bargmann", A, "same", True), ("light_copy", A, "same", True),
    ("mul", A, "same", False), ("rmul", A, "same", False), ("div", A, "same", False), ("addself", A, "same", False), ("subself", A, "same", False),
    ("dm", ["ket"], "dm", False), ("normalize", ST, "same", False), ("getitem", ST, "dm", False), ("inverse", MP, "same", False),
    ("formal", ST, "same", False), ("physical", ST, "same", False), ("to_quadrature", A, "gen", False), ("traceout", ST, "none", False),
    ("selfshift", MP, "same", False), ("shiftdual", ST, "none", False),
    ("observe_fock", A, "none", False), ("observe_state", ST, "none", False), ("observe_map", MP, "none", False), ("observe_wires", A, "none", False),
    ("observe_ansatz", A, "none", False), ("sample", ST, "none", False), ("serialize", A, "none", False), ("scalars", A, "none", False),
    ("circ_contract", ["circ"], "none", False), ("circ_shift", ["circ"], "circ", False), ("circ_repr", ["circ"], "none", False)]]
def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    return '"%s"' % v
CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
 MaxPool = {mp}
 NCtor = 12
 UnOps <- TheOps
 NModes = 3
INVARIANT Emit
PROPERTY Frame
PROPERTY Local
CHECK_DEADLOCK FALSE
"""
MC = "---- MODULE MCPool ----\nEXTENDS Pool\nTheOps == <<%s>>\n====\n" % ",\n ".join(
    "[name |-> %s, from |-> {%s}, to |-> %s, share |-> %s]" % (tla(n), ",".join(map(tla, f)), tla(t), tla(s)) for n, f, t, s in UNOPS)

def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "MCPool", CFG.format(base=ctx.seed * 100 + k, n=28 if q else 300, depth=d, mp=mp), files={"MCPool.tla": MC})
            for k, (d, mp) in enumerate([(12, 8), (20, 12), (26, 16), (16, 14)] * (1 if q else 2))]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} histories")
    ws = [ctx.start_worker("i15", dict(recs=recs[k::6], seed=ctx.seed * 10 + k)) for k in range(6)]
    ws += [ctx.start_worker("i15", dict(recs=recs[k:: 16 if q else 6], seed=ctx.seed), "jax") for k in range(2)]
    ops, bad = {}, {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("ops", {}).items():
                ops[k] = ops.get(k, 0) + v
            for k, v in r.pop("refused", {}).items():
                bad[k] = bad.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["operations_performed"] = ops
    ctx.extra["operations_refused_by_the_code"] = bad
    ctx.extra["rule"] = "every object of the pool re-observed after every step; observations keyed by the specification's versions"
    ctx.sample(*[[t["op"] for t in r["trace"]] for r in recs[:2]])
