CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
 NS = {ns}
 NV = {nv}
 SeedI = {seedi}
 CacheI = {cachei}
 Kinds = 11
 Alphabet = "{alpha}"
INVARIANT TypeOK
INVARIANT FullUnwind
INVARIANT Emit
PROPERTY LeaveOne
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    q = ctx.quick
    C = lambda **k: CFG.format(**{**dict(base=1, n=1, depth=14, ns=14, nv=4, seedi=2, cachei=3, alpha="random"), **k})
    rnd = [ctx.pool.submit(ctx.tlc, "Settings", C(base=ctx.seed * 100 + k, n=120 if q else 1200, depth=d))
           for k, d in enumerate([8, 14, 20, 30] if q else [6, 8, 12, 14, 18, 20, 30, 40])]
    # few settings and values, so that contexts and assignments collide all the time
    small = [ctx.pool.submit(ctx.tlc, "Settings", C(base=ctx.seed * 100 + 50 + k, n=250 if q else 2500, depth=16, ns=2, nv=3, seedi=s, cachei=0))
             for k, s in enumerate([2, 0])]
    # every history of the small alphabet
    ex = [("HBAR", "ATOL", 0, 4 if q else 5), ("STABLE_FOCK_CONVERSION", "SEED", 2, 4 if q else 5)]
    exh = [ctx.pool.submit(ctx.tlc, "Settings", C(depth=d, ns=2, nv=3 if s == 0 else 2, seedi=s, cachei=0, alpha="all"), heap="4g") for _, _, s, d in ex]
    ws = []
    rr = [r for f in rnd for r in f.result()["emitted"]]
    ws += [ctx.start_worker("s11", dict(recs=rr[k::3], names=None)) for k in range(3)]
    ws += [ctx.start_worker("s11", dict(recs=rr[:: 10 if q else 4], names=None), "jax")]
    sm = [f.result()["emitted"] for f in small]
    ws += [ctx.start_worker("s11", dict(recs=sm[0], names=["DEFAULT_FOCK_SIZE", "SEED"])), ctx.start_worker("s11", dict(recs=sm[1], names=["HBAR", "EINSUM_OPTIMIZE"]))]
    for (a, b, s, d), f in zip(ex, exh):
        e = f.result()["emitted"]
        ctx.log(f"exhaustive {a},{b} depth {d}: {len(e)} histories")
        ctx.extra[f"exhaustive_{a}_{b}_depth{d}"] = len(e)
        ws += [ctx.start_worker("s11", dict(recs=e[k::2], names=[a, b])) for k in range(2)]
    for w in ws:
        ctx.collect(w.result())
    ctx.sample([t["op"] for t in rr[0]["trace"]], [t["op"] for t in rr[-1]["trace"]])
    ctx.extra["rule"] = "values of all settings compared after every step; random draws compared as functions of (seed, draws since)"
