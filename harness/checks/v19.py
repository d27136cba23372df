CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxSteps = {steps}
INVARIANT SafePhysical
INVARIANT TripleAgrees
INVARIANT ProductFlips
INVARIANT SinglePure
INVARIANT ChannelAgrees
INVARIANT ChangeSound
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "Phys", CFG.format(base=ctx.seed * 100 + k, n=260 if q else 2500, steps=(4, 6)[k % 2])) for k in range(5 if q else 8)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} histories")
    ws = [ctx.start_worker("v19", dict(recs=recs[k::5], seed=ctx.seed * 10 + k)) for k in range(5)]
    ws += [ctx.start_worker("v19", dict(recs=recs[k:: 10 if q else 4], seed=ctx.seed + 50), "jax") for k in range(2)]
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["comparisons"] = tot
    ctx.sample(*[dict(kind=r["kind"], verdicts=[o.get("psd") or o.get("cp") or o.get("pd") for o in r["hist"]]) for r in recs[:4]])
