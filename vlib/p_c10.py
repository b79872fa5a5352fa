"""C10 regions to pixels: boxes, sheet headers and the pixel scale of render runs."""
import random
from . import rcli, render


def session(rng, quick):
    evs = [{"e": "begin"}]
    for k in range(rng.randint(1, 6)):
        # one scale per event: nothing may carry over from the box before
        sc = render.Scale(rng, cells=rng.choice([None, None, 1, 2, 200, 256, 1000]))
        if rng.random() < .5:
            q = rng.choice(render.QS)
            evs.append(render.box(sc, k, q, rng.choice(["", "X", "Y", "Z"]), 2000 if quick else 20000, rng.random() < .25))
        else:
            X = [sc.pos() for _ in range(3)]
            W = [rng.choice([0, sc.span(x, sc.cells)]) for x in X]
            evs.append(dict(sc.base(), e="hdcb", O=X, Wd=W))
    return evs


def run(ctx):
    ctx.model_check("RegionCover")
    if not ctx.quick:
        ctx.model_check("RegionCover", "RegionCover_deep.cfg", timeout=700)
    rng = random.Random(ctx.seed * 10007 + 10)
    rows = []
    for s in range(2500 if ctx.quick else 40000):
        rows += [dict(e, s=s) for e in session(rng, ctx.quick)]
    ev = ctx.drive_parallel(ctx.build("cmd/rendd"), rows)
    for e in ev:
        e.pop("msg", None)
        e.pop("L", None)
    ctx.sample(*[e for e in ev if e["e"] != "begin"][:4])
    ctx.validate("DepositTrace", ev)
    # the pixel scale the command derives from ImagePixels and TotalPixels
    cs = [c for m in ("ip", "both", "tp") for c in rcli.cases(rng, 50 if ctx.quick else 500, m)]
    ev = rcli.runs(ctx, cs)
    for e in ev:
        for s in e["sheets"]:
            s["cut"] = 0
        for k in ("err", "L", "maxvol", "log", "threads"):
            e.pop(k, None)
    ctx.validate("RenderCliTrace", ev)
    ctx.notes.update(render_runs=len(cs))
    ctx.assumptions += ["positions on pixel edges only where the pixel width is exact in binary"]
