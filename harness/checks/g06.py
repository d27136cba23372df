CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxModes = {modes}
 MaxSteps = {steps}
INVARIANT Symmetric
INVARIANT PureDet
INVARIANT Purity
INVARIANT CompSymplectic
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "Gauss", CFG.format(base=ctx.seed * 100 + k, n=140 if q else 1500, modes=(2, 3, 3, 4)[k % 4], steps=(5, 7, 8, 6)[k % 4]))
            for k in range(6 if q else 8)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} circuits")
    ws = [ctx.start_worker("g06", dict(recs=recs[k::5], seed=ctx.seed * 10 + k, deep=0.5)) for k in range(5)]
    ws += [ctx.start_worker("g06", dict(recs=recs[3:: 60 if q else 10], seed=ctx.seed, deep=0.2), jit=True)]
    ws += [ctx.start_worker("g06", dict(recs=recs[k:: 40 if q else 8], seed=ctx.seed, deep=0.3), "jax") for k in range(2 if q else 4)]
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["comparisons"] = tot
    acts = {}
    for r in recs:
        for s, _ in r["prog"]:
            k = s["act"] + ":" + s.get("kind", "")
            acts[k] = acts.get(k, 0) + 1
    ctx.extra["steps"] = acts
    ctx.sample(*[[[s["act"], s.get("kind", ""), s.get("labs", [])] for s, _ in r["prog"]] for r in recs[:3]])
