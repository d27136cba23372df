from checks import g06
CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
 D = {d}
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    q = ctx.quick
    runs = [(3, 8), (3, 14), (3, 20), (3, 26), (4, 10), (4, 16)]
    futs = [ctx.pool.submit(ctx.tlc, "Repr", CFG.format(base=ctx.seed * 90 + k, n=(90 if d == 3 else 40) * (1 if q else 8), depth=dep, d=d)) for k, (d, dep) in enumerate(runs)]
    gfuts = [ctx.pool.submit(ctx.tlc, "Gauss", g06.CFG.format(base=ctx.seed * 70 + k, n=60 if q else 600, modes=(2, 3)[k], steps=(5, 6)[k])) for k in range(2)]
    recs = [r for f in futs for r in f.result()["emitted"]]
    ctx.log(f"{len(recs)} programs, {sum(len(r['prog']) for r in recs)} steps")
    ws = [ctx.start_worker("r10", dict(recs=recs[k::5], seed=ctx.seed * 10 + k)) for k in range(5)]
    j = 12 if q else 4
    ws += [ctx.start_worker("r10", dict(recs=recs[k::j], seed=ctx.seed * 10 + 50 + k), "jax") for k in range(2)]
    gauss = [r for f in gfuts for r in f.result()["emitted"]]
    ws += [ctx.start_worker("g06", dict(recs=gauss[k::2], seed=ctx.seed * 10 + k, deep=0, shapes=1)) for k in range(2)]
    ws += [ctx.start_worker("g06", dict(recs=gauss[::8], seed=ctx.seed * 10 + 9, deep=0, shapes=1), "jax")]
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["comparisons"] = tot
    ctx.sample(*[[p["op"] for p in r["prog"]] for r in recs[:3]])
