CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
 Batched = {batched}
INVARIANT Laws
INVARIANT Even
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "Ansatz", CFG.format(base=ctx.seed * 100 + k, n=110 if q else 800, depth=10 if k % 2 else 7, batched="TRUE" if k % 2 else "FALSE"))
            for k in range(6 if q else 12)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} programs")
    ws = [ctx.start_worker("a08", dict(recs=recs[k::6], seed=ctx.seed * 10 + k)) for k in range(6)]
    ws += [ctx.start_worker("a08", dict(recs=recs[3:: 160 if q else 6], seed=ctx.seed), jit=True)]
    ws += [ctx.start_worker("a08", dict(recs=recs[k:: 160 if q else 4], seed=ctx.seed), "jax") for k in range(1 if q else 4)]
    ops = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("ops", {}).items():
                ops[k] = ops.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["operations_performed"] = ops
    ctx.extra["points_compared"] = sum(len([o for o in s["obs"] if o["v"]]) for r in recs for s in r)
    ctx.sample(*[[(s["op"], s["n"], s["bs"], s["ls"]) for s in r] for r in recs[:2]])
