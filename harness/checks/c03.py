import random
CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 MaxComp = {maxc}
 NModes = {modes}
 Kinds = {kinds}
 Values = {values}
 Mixed = {mixed}
INVARIANT Confluent
INVARIANT NeverStuck
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
def cfg(base, n, maxc, modes, kinds=False, values=True, mixed=False):
    b = lambda x: "TRUE" if x else "FALSE"
    return CFG.format(base=base, n=n, maxc=maxc, modes=modes, kinds=b(kinds), values=b(values), mixed=b(mixed))

def group(emitted, mixed, rng, nreplay):
    circs, paths = {}, {}
    for r in emitted:
        k = tuple(r["id"])
        if r["k"] == "circ":
            circs[k] = r
        else:
            paths.setdefault(k, []).append(r)
    out = []
    for k, c in circs.items():
        ps = paths.get(k, [])
        c["paths"] = [p["path"] for p in ps]
        c["costs"] = [p["costs"] for p in ps]
        c["replay"] = rng.sample(c["paths"], min(nreplay, len(ps)))
        c["mixed"] = mixed
        # a disconnected circuit some prefix of which closes to a number: outside the claim about component-by-component contraction
        c["disc_scalar"] = not c["conn"]
        if len(c["circ"]) > 1:
            out.append(c)
    return out

def main(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    s = ctx.seed * 50
    jobs = []
    for k in range(5 if q else 14):
        jobs.append((False, ctx.pool.submit(ctx.tlc, "Circuits", cfg(s + k, 36 if q else 150, 6, 3 if k % 2 else 4), heap="3g")))
    for k in range(2 if q else 6):
        jobs.append((True, ctx.pool.submit(ctx.tlc, "Circuits", cfg(s + 20 + k, 25 if q else 80, 5, 3, mixed=True), heap="3g")))
    recs = []
    for mixed, j in jobs:
        recs += group(j.result()["emitted"], mixed, rng, 6 if q else 24)
    ctx.log(f"{len(recs)} circuits, {sum(len(r['paths']) for r in recs)} complete paths")
    ws = [ctx.start_worker("c03", dict(recs=recs[k::6], seed=ctx.seed * 10 + k, physical=True)) for k in range(6)]
    ws.append(ctx.start_worker("c03", dict(recs=recs[::14], seed=ctx.seed * 10 + 7, gaussian=True), "jax"))
    np_ = ph = ga = 0
    for w in ws:
        rs = w.result()
        ctx.collect(rs)
        np_ += sum(r.get("paths", 0) for r in rs)
        ga += sum(r.get("gau", 0) for r in rs)
        ph += sum(bool(r.get("phys")) for r in rs)
    ctx.extra.update(circuits=len(recs), complete_paths_enumerated=sum(len(r["paths"]) for r in recs), paths_replayed=np_, physical_circuits=ph, gaussian_circuits=ga,
                     disconnected=sum(not r["conn"] for r in recs), dangling=sum("bad" in r["raw"] or bool(r["raw"].get("legs")) for r in recs))
    ctx.sample(*[dict(components=[c["legs"] for c in r["circ"]], path=r["replay"][:1], value=r["val"]) for r in recs if r["replay"]][:2])
