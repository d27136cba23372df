CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
INVARIANT MapsOK
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    q = ctx.quick
    fs = [ctx.pool.submit(ctx.tlc, "Batch", CFG.format(base=ctx.seed * 100 + k, n=40 if q else 500, depth=d)) for k, d in enumerate([8, 12, 16, 24])]
    rr = [r for f in fs for r in f.result()["emitted"]]
    W = 6
    ws = [ctx.start_worker("b09", dict(recs=rr[k::W])) for k in range(W)]
    ws += [ctx.start_worker("b09", dict(recs=rr[k:: 24 if q else 16]), "jax") for k in range(1 if q else 4)]
    for w in ws:
        ctx.collect(w.result())
    ctx.sample([t["op"] for t in rr[0]["trace"]], [t["op"] for t in rr[-1]["trace"]])
    ctx.extra["rule"] = "batch shape predicted by the index maps, and every point equal to the unbatched computation it is mapped to"
