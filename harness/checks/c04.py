import random
from checks.c03 import cfg, group

def main(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    s = ctx.seed * 70
    jobs = [ctx.pool.submit(ctx.tlc, "Circuits", cfg(s + k, 70 if q else 260, 6 if q or k % 3 else 7, 3 if k % 2 else 4, kinds=True, values=False), heap="3g")
            for k in range(6 if q else 16)]
    recs = []
    for j in jobs:
        recs += [c for c in group(j.result()["emitted"], False, rng, 10 if q else 40) if c["conn"] and c["paths"] and "bad" not in c["raw"]]
    # large circuits with every order enumerated, but only so many of each kind
    ctx.log(f"{len(recs)} connected circuits, {sum(len(r['paths']) for r in recs)} complete paths")
    ws = [ctx.start_worker("c04", dict(recs=recs[k::7], seed=ctx.seed * 10 + k)) for k in range(7)]
    vary = 0
    for w in ws:
        rs = w.result()
        ctx.collect(rs)
        vary += sum(bool(r.get("vary")) for r in rs)
    ctx.extra.update(circuits=len(recs), orders_enumerated=sum(len(r["paths"]) for r in recs), circuits_where_order_matters=vary)
    ctx.sample(*[dict(components=[[c["legs"], c["dims"], c["kind"]] for c in r["circ"]], path=r["replay"][0], minimum=min(map(sum, r["costs"]))) for r in recs[:2]])
