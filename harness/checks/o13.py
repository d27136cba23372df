"""O13: training runs (Train.tla) and their end (Stop.tla), replayed on the optimizer."""
CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
INVARIANT InGroup
INVARIANT Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
"""
STOP = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Runs = 3
INVARIANT Bounded
INVARIANT Earned
PROPERTY Ends
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    tr = [ctx.pool.submit(ctx.tlc, "Train", CFG.format(base=ctx.seed * 100 + k, n=(12 if q else 60), depth=d)) for k, d in enumerate([5, 7, 9, 12])]
    st = ctx.pool.submit(ctx.tlc, "Stop", STOP.format(base=ctx.seed * 100 + 50, n=40 if q else 400))
    recs = [r for f in tr for r in f.result()["emitted"]]
    runs = st.result()["emitted"]
    bnd = [dict(bounds=[0.0, 1.0], x0=0.5, t=3.0, n=6), dict(bounds=[-1.0, None], x0=0.5, t=-4.0, n=6)]
    k = 6
    ws = []
    for i in range(k):
        part = recs[i::k] + runs[i::k] + (bnd if i == 0 else [])
        ws.append(ctx.start_worker("o13", dict(recs=part, off=1000 * i, seed=ctx.seed), "jax", threads=1))
    for w in ws:
        ctx.collect(w.result())
    ctx.sample([t["op"]["k"] for t in recs[0]["trace"]], runs[0]["runs"][0]["run"])
    ctx.extra["histories"] = len(recs)
    ctx.extra["scripted"] = len(runs)
