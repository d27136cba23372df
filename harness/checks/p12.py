CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
 Alphabet = "{alpha}"
 Jax = {jax}
INVARIANT Consistent
INVARIANT Emit
PROPERTY Grow
CHECK_DEADLOCK FALSE
"""
import re, os
def argnames(ctx):
    """Constructor argument names, from the specification's table of components."""
    src = open(os.path.join(os.path.dirname(__file__), "..", "..", "specs", "Params.tla")).read()
    return {m.group(1): re.findall(r'(?:A1\(|AB\(|n \|-> )"(\w+)"', m.group(2)) for m in re.finditer(r'\[c \|-> "(\w+)", m \|-> \d, a \|-> <<(.*)>>\]', src)}
def main(ctx):
    q = ctx.quick
    argn = argnames(ctx)
    C = lambda **k: CFG.format(**{**dict(base=1, n=1, depth=14, alpha="random", jax="FALSE"), **k})
    rnd = [ctx.pool.submit(ctx.tlc, "Params", C(base=ctx.seed * 100 + k, n=100 if q else 1000, depth=d)) for k, d in enumerate([8, 14, 20, 26, 32, 40])]
    jx = [ctx.pool.submit(ctx.tlc, "Params", C(base=ctx.seed * 100 + 50 + k, n=40 if q else 400, depth=d, jax="TRUE")) for k, d in enumerate([14, 24])]
    exh = ctx.pool.submit(ctx.tlc, "Params", C(depth=4, alpha="all"), heap="4g")
    rr = [r for f in rnd for r in f.result()["emitted"]]
    ws = [ctx.start_worker("p12", dict(recs=rr[k::4], argn=argn, off=k)) for k in range(4)]
    jr = [r for f in jx for r in f.result()["emitted"]]
    ws += [ctx.start_worker("p12", dict(recs=jr[k::2], argn=argn, off=k), "jax") for k in range(2)]
    e = exh.result()["emitted"]
    ctx.log(f"{len(rr)} + {len(jr)} histories, {len(e)} exhaustive")
    ctx.extra["exhaustive_registry_histories"] = len(e)
    ws += [ctx.start_worker("p12", dict(recs=e[k::14], argn=argn, off=k)) for k in range(2 if q else 14)]
    for w in ws:
        ctx.collect(w.result())
    ctx.sample([t["op"] for t in rr[0]["trace"]], [t["op"] for t in jr[-1]["trace"]])
    ctx.extra["rule"] = "registries, values, bounds, update rules and representations compared after every step"
