CFG = """SPECIFICATION Spec
CONSTANTS
 ModeSet = {modes}
 Cls = {cls}
 Density = {dens}
 Mode = "{mode}"
INVARIANT Laws
{emit}
CHECK_DEADLOCK FALSE
"""
def cfg(modes, cls, mode, dens=50, emit=True):
    return CFG.format(modes="{%s}" % ",".join(map(str, modes)), cls="{%s}" % ",".join(map(str, cls)), mode=mode, dens=dens,
                      emit="INVARIANT Emit" if emit else "")

def main(ctx):
    q = ctx.quick
    jobs = [
        ctx.pool.submit(ctx.tlc, "Wires", cfg([0], range(6), "pairs")),                          # 4096 pairs, exhaustive
        ctx.pool.submit(ctx.tlc, "Wires", cfg([0, 1], [2, 3], "pairs")),                         # ket-only, two modes, exhaustive
        ctx.pool.submit(ctx.tlc, "Wires", cfg([0, 1, 2], range(6), "randpairs", 40), "simulate", 1, 1501 if q else 4001, ctx.seed),
        ctx.pool.submit(ctx.tlc, "Wires", cfg([0, 1, 2], range(4), "randpairs", 55), "simulate", 1, 2501 if q else 4001, ctx.seed + 1),
        ctx.pool.submit(ctx.tlc, "Wires", cfg([0, 1, 2], range(4), "randtriples", 45), "simulate", 1, 4001, ctx.seed + 2),
        ctx.pool.submit(ctx.tlc, "Wires", cfg([0], range(4), "triples")),                        # all triples, one mode
    ]
    if not q:
        jobs.append(ctx.pool.submit(ctx.tlc, "Wires", cfg([0, 1], range(4), "pairs"), heap="6g"))   # 65536 pairs
        for i in range(6):
            jobs.append(ctx.pool.submit(ctx.tlc, "Wires", cfg([0, 1, 2], range(4), "randpairs", 30 + 8 * i), "simulate", 1, 4001, ctx.seed + 10 + i))
    recs = []
    for j in jobs:
        recs += j.result()["emitted"]
    uniq, seen = [], set()
    for r in recs:
        s = repr(r)
        if s not in seen:
            seen.add(s)
            uniq.append(r)
    ctx.log(f"{len(recs)} records, {len(uniq)} distinct")
    n = 4
    ws = [ctx.start_worker("w01", dict(recs=uniq[i::n])) for i in range(n)]
    for w in ws:
        ctx.collect(w.result())
    ctx.sample(*[r for r in uniq if r["k"] == "pair"][-2:], *[r for r in uniq if r["k"] == "triple"][-1:])
    ctx.extra["rule"] = "every wire set / ordered pair / composable triple emitted by Wires.tla, compared field by field with the real Wires"
    ctx.extra["exhaustive"] = False
