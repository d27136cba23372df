CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxSize = {size}
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
GAUSS = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxModes = 2
 MaxSteps = {steps}
INVARIANT Purity
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def main(ctx):
    q = ctx.quick
    futs = [ctx.pool.submit(ctx.tlc, "Measure", CFG.format(base=ctx.seed * 30 + k, n=45 if q else 260, size=36 if q else 64)) for k in range(4)]
    gf = [ctx.pool.submit(ctx.tlc, "Gauss", GAUSS.format(base=ctx.seed * 70 + k, n=60 if q else 400, steps=3 + k)) for k in range(2)]
    states, conds, fams = {}, {}, None
    for f in futs:
        for r in f.result()["emitted"]:
            if r["k"] == "state":
                states[tuple(r["id"])] = r
            elif r["k"] == "cond":
                conds.setdefault(tuple(r["id"]), []).append(r)
            else:
                fams = r["fams"]
    homs = [r for f in gf for r in f.result()["emitted"]]
    recs = []
    for k, r in states.items():
        r["conds"] = conds.get(k, [])
        recs.append(r)
    ctx.log(f"{len(recs)} states, {sum(len(r['conds']) for r in recs)} conditional states, {len(homs)} Gaussian states")
    mk = lambda k, n, sh: dict(recs=recs[k::n], homs=homs[k::n], fams=fams, seed=ctx.seed * 10 + k, shots=sh, nfam=(6 if q else 60), fh=4 if q else 2)
    ws = [ctx.start_worker("m16", mk(k, 5, 3000 if q else 20000)) for k in range(5)]
    j = mk(0, 25 if q else 6, 500)
    j.update(nfam=2 if q else 6, fh=0)
    ws.append(ctx.start_worker("m16", j, "jax"))
    tot = {}
    for w in ws:
        rs = w.result()
        for r in rs:
            for k, v in r.pop("counts", {}).items():
                tot[k] = tot.get(k, 0) + v
        ctx.collect(rs)
    ctx.extra["comparisons"] = tot
    ctx.sample(*[dict(dims=r["dims"], ket=r["ket"], joint=r["joint"]) for r in recs[:3]])
