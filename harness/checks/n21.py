CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxSteps = {steps}
INVARIANT WellFormed
INVARIANT Inverses
INVARIANT Totals
INVARIANT Cyclic
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
LAPACK = ("sqrtm", "sqrtmh", "expm", "eigvals", "det", "adj", "solve", "matmul3", "einsum", "map_fn", "gradient", "prod", "sort")


def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "Tensors", CFG.format(base=ctx.seed * 100 + k, n=60 if q else 1000, steps=40)) for k in range(6)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} histories, {sum(len(r['recs']) for r in recs)} operations")
    p = lambda k, part, **kw: dict(recs=part, seed=ctx.seed * 10 + k, **kw)
    # a second process that finds the first one's compiled functions in the cache
    few = [dict(recs=[o for o in r["recs"] if o["op"] in LAPACK]) for r in recs[: 24 if q else 200]]
    cache = dict(XDG_CACHE_HOME=ctx.scratch + "/shared_cache")
    first = ctx.start_worker("n21", p(90, few, name="cold"), "jax", env=cache)
    ws = [ctx.start_worker("n21", p(k, recs[k::3])) for k in range(3)]
    ws += [ctx.start_worker("n21", p(50 + k, recs[k:: 8 if q else 4]), "jax") for k in range(4)]
    first.result()
    ws += [first, ctx.start_worker("n21", p(90, few, name="warm"), "jax", env=cache)]
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["comparisons"] = tot
    ctx.sample(*[dict(op=r["recs"][0]["op"], shapes=[t["sh"] for t in r["recs"][0]["ins"]], out=r["recs"][0]["out"]["sh"], operations=len(r["recs"])) for r in recs[:5]])
