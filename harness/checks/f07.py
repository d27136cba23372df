CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Mode = "{mode}"
INVARIANT Confluent
INVARIANT Complete
INVARIANT Pivots
INVARIANT Hafnians
INVARIANT TaylorB
INVARIANT TaylorA
INVARIANT Conserved
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    fill = ctx.pool.submit(ctx.tlc, "Lattice", CFG.format(base=ctx.seed, n=25 if q else 250, mode="fill"))
    futs = [ctx.pool.submit(ctx.tlc, "Lattice", CFG.format(base=ctx.seed * 100 + k, n=250 if q else 1500, mode="table")) for k in range(2 if q else 8)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} lattices")
    W = 5
    ws = [ctx.start_worker("f07", dict(recs=recs[k::W], seed=ctx.seed * 10 + k, large=2 if q else 8, nopnr=1)) for k in range(W)] if not q else \
         [ctx.start_worker("f07", dict(recs=recs[k::2], seed=ctx.seed * 10 + k, large=1, nopnr=1)) for k in range(2)]
    ws += [ctx.start_worker("f07", dict(recs=recs[k:: 2 if q else 4], seed=ctx.seed * 10 + 5 + k, large=8), jit=True) for k in range(1 if q else 4)]
    ws += [ctx.start_worker("f07", dict(recs=recs[k:: 12 if q else 8], seed=ctx.seed * 10 + k, large=1), "jax") for k in range(2 if q else 8)]
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    fr = fill.result()
    ctx.extra["comparisons"] = tot
    ctx.extra["fill_states"] = {k: v for k, v in fr.items() if k != "emitted"}
    ctx.sample(*[dict(kind=r["prob"]["kind"], A=r["prob"]["A"], b=r["prob"]["b"], shape=r["prob"]["shape"]) for r in recs[:4]])
