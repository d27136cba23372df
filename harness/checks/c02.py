CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    n, depth, procs = (60, 6, 6) if ctx.quick else (900, 8, 8)
    futs = [ctx.pool.submit(ctx.tlc, "TensorNet", CFG.format(base=ctx.seed * 100 + k, n=n, depth=depth)) for k in range(procs)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} steps")
    ws = [ctx.start_worker("c02", dict(recs=recs[k::4], off=k)) for k in range(4)]
    ws += [ctx.start_worker("c02", dict(recs=recs[k::2], off=k), "jax") for k in range(2)] if not ctx.quick else [ctx.start_worker("c02", dict(recs=recs[::12]), "jax")]
    for w in ws:
        ctx.collect(w.result())
    c = {}
    for r in recs:
        c[r["op"]] = c.get(r["op"], 0) + 1
    ctx.extra["operations"] = c
    ctx.extra["undefined_compositions"] = sum("bad" in r["r"] for r in recs)
    ctx.sample(*[r for r in recs if r["op"] == "shift"][:2], [r for r in recs if r["op"] == "assoc"][0])
