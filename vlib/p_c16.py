"""C16 the render command."""
import copy, random
from . import rcli


def broken(rng, c):
    """An invalid variant of a configuration."""
    c = copy.deepcopy(c)
    r = rng.choice(c["regions"])
    k = rng.randrange(22)
    if k == 0:
        c["q"] = rng.choice(["Densty", "Pressure", "", "EndQuantity", "Density Velocity"])
    elif k == 1:
        c["skip"] = rng.choice([3, 5, 6, 7, 12, -1, -2, 1000])
    elif k == 2:
        c["skip"] = 0
    elif k == 3:
        c["tp"] = c["ip"] = 0
    elif k == 4:
        c["tp"], c["ip"] = -c["tp"] or -5, 0
    elif k == 5:
        c["pts"] = c["pd"] = 0
        c["auto"] = False
    elif k == 6:
        c["pts"], c["pd"], c["auto"] = -3, 0, False
    elif k == 7:
        c["bounds"] = "none"
    elif k == 8:
        c["bounds"] = "missing"
    elif k == 9:
        c["input"] = False
    elif k == 10:
        c["output"] = False
    elif k == 11:
        c["mode"] = rng.choice(["none", "both", "nofile"])
    elif k == 12:
        r["X"][rng.randrange(3)] = rng.choice([-1, rcli.U, rcli.U + 5, -300])
    elif k in (13, 14) :
        d = rng.randrange(3)
        if r["kind"] == "Box":
            r["W"][d] = rng.choice([0, -3, rcli.U + 1, 2 * rcli.U])
        else:
            r["r"], r["m"] = rng.choice([(0, 1), (-5, 1), (5, -2), (321, 0), (160, 3), (200, 2)])
    elif k == 15:
        r["axis"] = rng.choice(["W", "XY", "0", "None", "1"])
    elif k == 16:
        s = rng.choice(c["sheets"])
        n = 12 * (s["segw"] + 1) ** 3       # bytes of velocities, which only some quantities need
        s["cut"] = rng.choice([1, 4, n - 1, n, n + 4]) + (n if c["q"] in ("Density", "DensityGradient") else 0)
        s["cut"] = min(s["cut"], 2 * n)
        # every sheet reaches the boxes then
        for sh in c["sheets"]:
            sh["P"] = list(s["P"])
            sh["O"], sh["Wd"], sh["decoy"] = list(s["P"]), [0] * 3, list(s["P"])
        c["regions"] = [dict(r, kind="Box", X=list(s["P"]), W=[1, 1, 1], r=0, m=0) for r in c["regions"]]
    elif k == 17:
        c["sheets"][0]["cut"] = 12 * 2 * (c["sheets"][0]["segw"] + 1) ** 3 + rng.choice([1, 40, 150, 155, 160])
    else:
        return None
    return c


def run(ctx):
    ctx.model_check("RenderRun")
    rng = random.Random(ctx.seed * 16001 + 16)
    cs = rcli.cases(rng, 260 if ctx.quick else 3000)
    bad = []
    while len(bad) < (160 if ctx.quick else 1200):
        b = broken(rng, rng.choice(cs))
        if b:
            bad.append(b)
    ev = rcli.runs(ctx, cs + bad)
    for e in ev:
        for s in e["sheets"]:
            s.setdefault("cut", 0)
        for k in ("err", "L", "maxvol", "log", "threads", "stale"):
            e.pop(k, None)
    ctx.notes.update(runs=len(cs), invalid_configurations=len(bad), grids=sum(len(e["grids"]) for e in ev))
    ctx.sample(*[{k: v for k, v in e.items() if k not in ("grids", "sheets")} for e in ev[:3]])
    ctx.validate("RenderCliTrace", ev)
    ctx.assumptions += ["regions have distinct names", "the subsampling length divides the segment width", "sheet files are collapsed to one point each"]
