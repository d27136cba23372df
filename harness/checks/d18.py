CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxSteps = {steps}
INVARIANT CondPure
INVARIANT Local
INVARIANT Symmetric
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "Stellar", CFG.format(base=ctx.seed * 100 + k, n=160 if q else 2000, steps=(3, 5, 7)[k % 3])) for k in range(6)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} histories")
    ws = [ctx.start_worker("d18", dict(recs=recs[k::5], seed=ctx.seed * 10 + k)) for k in range(5)]
    ws += [ctx.start_worker("d18", dict(recs=recs[k:: 14 if q else 4], seed=ctx.seed + 50 + k), "jax") for k in range(2 if q else 3)]
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["comparisons"] = tot
    ctx.sample(*[dict(modes=r["recs"][-1]["modes"], core=r["recs"][-1]["core"], pure=r["recs"][-1]["pure"], operations=len(r["recs"]) - 1) for r in recs[:5]])
