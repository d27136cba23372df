CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxOps = {ops}
INVARIANT Confluent
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "Einsum", CFG.format(base=ctx.seed * 100 + k, n=(50 if k % 2 else 100) if q else (300 if k % 2 else 900), ops=4 if k % 2 else 3))
            for k in range(6 if q else 12)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} networks with paths")
    ws = [ctx.start_worker("e05", dict(recs=recs[k::5], seed=ctx.seed * 10 + k)) for k in range(5)]
    ws += [ctx.start_worker("e05", dict(recs=recs[3:: 300 if q else 10], seed=ctx.seed), jit=True)]
    ws += [ctx.start_worker("e05", dict(recs=recs[k:: 200 if q else 8], seed=ctx.seed), "jax") for k in range(1 if q else 4)]
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["runs"] = tot
    ctx.extra["networks"] = len({str(r["ops"]) for r in recs})
    ctx.sample(*[[r["kinds"], [o["ls"] for o in r["ops"]], r["out"], r["path"]] for r in recs[:3]])
