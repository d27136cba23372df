CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxSteps = {steps}
INVARIANT Adds
INVARIANT Purity
INVARIANT Marginal
INVARIANT Parity
INVARIANT Schwarz
INVARIANT Grams
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "Stats", CFG.format(base=ctx.seed * 100 + k, n=70 if q else 900, steps=(4, 5, 3)[k % 3])) for k in range(6)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} histories")
    nj = 2 if q else 3
    ws = [ctx.start_worker("x17", dict(recs=recs[k::5], seed=ctx.seed * 10 + k, quick=q), jit=True) for k in range(5)]
    ws += [ctx.start_worker("x17", dict(recs=recs[k :: 26 if q else 6], seed=ctx.seed + 50 + k, quick=q), "jax") for k in range(nj)]
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["comparisons"] = tot
    ctx.sample(*[dict(modes=r["recs"][-1]["x"]["modes"], cutoffs=r["recs"][-1]["x"]["dims"], steps=[x["how"]["what"] for x in r["recs"]]) for r in recs[:5]])
