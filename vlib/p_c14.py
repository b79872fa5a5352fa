"""C14 histogram runs: threads, schedules, file orders, spread and collapsed sheets."""
import concurrent.futures as cf
import math, os, random, shutil, struct, subprocess
from .places import place, respell
from . import core, rcli
from .convert import MAIN
from .p_c09 import offedge

U = 640


def finite(num, den):
    """is num/den a finite binary fraction?"""
    d = den // math.gcd(num, den)
    return d & (d - 1) == 0


def spell(rng, scale):
    """a spelling of the name of a scale: case does not matter"""
    return rng.choice([scale] * 4 + [scale.lower(), scale.upper(), scale.swapcase()])


def info(rng, pal=None, scale=None):
    """scale, limits and bins under which no value is at a bin edge that rounding could move"""
    if not scale:
        scale = rng.choice(["Linear", "Linear", "Log"])
        pal = [rng.randint(-24, 60) for _ in range(rng.randint(1, 6))]
        if scale == "Log":
            pal += [-100000, -100001]
    while True:
        a, b = sorted(rng.sample(range(-30, 80), 2))
        if rng.random() < .3:
            a = rng.choice(pal[:-2] or [a])
            b = a + rng.randint(1, 60)
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 37])
        good = True
        for v in pal:
            if v > -100000 and (v - a) * n % (b - a) == 0 and (v != a or scale == "Log"):
                good = good and scale == "Linear" and finite(b - a, n)
        if good:
            return scale, a, b, n, pal


def mkgrid(rng, near, pal, L, g):
    cells = rng.choice([4, 5, 8, 10])
    sub = U // cells
    if rng.random() < .3:
        org, span = [0] * 3, [cells] * 3
    else:
        span = [rng.randint(1, min(cells, 6)) for _ in range(3)]
        org = [rng.randrange(cells) for _ in range(3)]
        if near and rng.random() < .8:
            org = [(near[d] // sub - rng.randrange(span[d])) % cells for d in range(3)]
    n = span[0] * span[1] * span[2]
    if rng.random() < .3:
        vals = [rng.choice(pal)] * n
    else:
        vals = [rng.choice(pal) for _ in range(n)]
    return {"e": "grid", "g": g, "L": L, "cells": cells, "org": org, "span": span,
            "axis": rng.randint(0, 2) if rng.random() < .03 else -1, "cut": rng.choice([1, 4]) if rng.random() < .03 else 0,
            "scale": "", "vals": vals}


def mkbox(rng, near):
    X, W = [], []
    for d in range(3):
        w = rng.choice([8, 8 * rng.randint(1, 12), 8 * rng.randint(1, 40), 8 * rng.randint(1, 80), U])
        x = 8 * rng.randrange(80)
        if near and rng.random() < .8:
            x = (near[d] // 8 * 8 - 8 * rng.randint(0, (w - 1) // 8)) % U
        X.append(x)
        W.append(w)
    if rng.random() < .12:
        X, W = [0] * 3, [U] * 3
    return {"X": X, "W": W}


def mksheet(rng, f, L, ps, segw, dec):
    P = [offedge(rng, 0, U) for _ in range(3)] if not ps or rng.random() < .3 else list(rng.choice(ps))
    if rng.random() < .1:                       # on the lower faces of the simulation box
        P = [0 if rng.random() < .6 else p for p in P]
    ps.append(P)
    O, Wd = [], []
    for d in range(3):
        w = rng.choice([0, 0, 8, 8 * rng.randint(0, 12), 8 * rng.randint(0, 36)])
        O.append((P[d] - 8 * rng.randint(0, w // 8)) % U)
        Wd.append(w)
    if rng.random() < .55:
        # spread over its bounds: anywhere, or each axis a grid of its own
        O = [(p - 8 * rng.randint(1, 34)) % U for p in P]
        Wd = [rng.choice([8, 24, 80, 160, 280]) for _ in range(3)]
        O = [o // 8 * 8 + 4 for o in O]
        if rng.random() < .5:
            P = [(O[i % 3] + 8 * rng.randint(0, Wd[i % 3] // 8)) % U for i in range(3 * (segw + 1) ** 3)]
        else:
            P, n = [], segw + 1
            for i in range(n ** 3):
                c = (i % n, i // n % n, i // (n * n))
                P += [(O[d] + (Wd[d] * c[d] // segw) // 8 * 8) % U for d in range(3)]
    return {"e": "sheet", "f": f, "L": L, "cw": 2 * segw, "segw": segw, "P": P, "O": O, "Wd": Wd, "dec": dec,
            "decoy": [(o + rng.randint(0, w)) % U for o, w in zip(O, Wd)], "V": [0, 0, 0],
            "cut": 12 * (segw + 1) ** 3 + rng.choice([1, 12, 90]) if rng.random() < .03 else 0}


def session(rng, scheds, crowd=0):
    L = repr(float(rng.choice([2.5, 10, 62.5, 100, 640, 250])))
    segw = rng.choice([1, 2, 2, 4])
    dec = rng.choice([x for x in (1, 1, 2, 4) if segw % x == 0])
    evs, ps, nf = [{"e": "begin"}], [], rng.randint(1, 4)
    for f in range(nf):
        evs.append(mksheet(rng, f, L, ps, segw, dec))
    for r in range(rng.randint(1, 3)):
        near = rng.choice(ps)
        scale, lo, hi, n, pal = info(rng)
        g = mkgrid(rng, near, pal, L, r)
        g["scale"] = scale
        evs.append(g)
        files = rng.sample(range(nf), rng.randint(1, nf))
        th, sched = rng.choice([1, 2, 3, 4, 5, 8, 16]), []
        if scheds and rng.random() < .5:
            th = rng.choice([2, 3, 3, 4])
            sched = rng.choice(scheds[th])["sched"]
        evs.append({"e": "hist", "L": L, "g": r, "files": files, "boxes": [mkbox(rng, near if rng.random() < .8 else None) for _ in range(crowd or rng.randint(1, 3))],
                    "pts": rng.choice([1500, 3000, 11000]) if rng.random() < .04 else rng.randint(1, 9), "threads": th, "skip": rng.choice([s for s in (1, 1, 2, 4) if segw % s == 0 and s % dec == 0]),
                    "sched": sched, "scale": scale, "spell": spell(rng, scale), "min": lo, "max": hi, "bins": n})
        # the same manager once more, possibly over files that were replaced
        for _ in range(rng.choice([0, 0, 1, 1, 2]) if g["axis"] < 0 and not g["cut"] else 0):
            for f in range(nf):
                if rng.random() < .4:
                    evs.append(mksheet(rng, f, L, ps, segw, dec))
            if rng.random() < .5:
                _, lo, hi, n, _ = info(rng, pal, scale)
            prev = [e for e in evs if e["e"] == "hist"][-1]
            evs.append(dict(prev, again=True, min=lo, max=hi, bins=n, sched=prev["sched"] if rng.random() < .5 else [],
                            skip=rng.choice([s for s in (1, 1, 2, 4) if segw % s == 0 and s % dec == 0])))
    return evs


def uniform(rng):
    """evenly laid out sheets, many samples: the share of every box is known"""
    L = repr(float(rng.choice([2.5, 10, 62.5, 100, 640, 250])))
    segw = rng.choice([1, 1, 2])
    evs = [{"e": "begin"}]
    nf = rng.randint(1, 2)
    for f in range(nf):
        Wd = [8 * segw * rng.choice([0, 1, 5, rng.randint(2, 34 // segw), 34 // segw]) for _ in range(3)]
        O = [offedge(rng, 0, U) for _ in range(3)]
        P, n = [], segw + 1
        for i in range(n ** 3):
            c = (i % n, i // n % n, i // (n * n))
            P += [(O[d] + Wd[d] // segw * c[d]) % U for d in range(3)]
        evs.append({"e": "sheet", "f": f, "L": L, "cw": 2 * segw, "segw": segw, "P": P, "O": O, "Wd": Wd, "dec": 1, "decoy": O, "V": [0] * 3, "cut": 0})
    evs.append({"e": "grid", "g": 0, "L": L, "cells": 4, "org": [0] * 3, "span": [4] * 3, "axis": -1, "cut": 0, "scale": "Linear", "vals": [6] * 64})
    boxes = []
    for _ in range(6):
        sh = evs[1 + rng.randrange(nf)]
        X, W = [0] * 3, [U] * 3
        for d in rng.sample(range(3), rng.choice([1, 1, 2])):
            # a slab that holds part of the sheet, from one side or from within
            lo, w = sh["O"][d] // 8, max(1, sh["Wd"][d] // 8)
            a, b = rng.choice([(lo + w // 2 + 1, lo + w + 3), (lo - 3, lo + (w + 1) // 2), (lo + w // 4, lo + w * 3 // 4 + 1)])
            X[d], W[d] = a * 8 % U, (b - a) * 8
        boxes.append({"X": X, "W": W})
    evs.append({"e": "hist", "L": L, "g": 0, "files": rng.sample(range(nf), nf), "boxes": boxes, "pts": rng.choice([800, 1000]),
                "threads": rng.choice([1, 2, 3, 8]), "skip": rng.choice([1, segw]), "sched": [], "scale": "Linear", "spell": "Linear", "min": 0, "max": 8, "bins": 2})
    return evs


def tiled(rng):
    """larger evenly laid out sheets under a grid of one value: boxes that hold some of the cubes"""
    L = repr(float(rng.choice([2.5, 10, 62.5, 100, 640, 250])))
    segw = 4
    Wd = [8 * segw * rng.randint(0, 8) for _ in range(3)]
    O = [offedge(rng, 0, U) for _ in range(3)]
    P, n = [], segw + 1
    for i in range(n ** 3):
        c = (i % n, i // n % n, i // (n * n))
        P += [(O[d] + Wd[d] // segw * c[d]) % U for d in range(3)]
    evs = [{"e": "begin"}, {"e": "sheet", "f": 0, "L": L, "cw": 8, "segw": segw, "P": P, "O": O, "Wd": Wd, "dec": 1, "decoy": O, "V": [0] * 3, "cut": 0},
           {"e": "grid", "g": 0, "L": L, "cells": 4, "org": [0] * 3, "span": [4] * 3, "axis": -1, "cut": 0, "scale": "Linear", "vals": [6] * 64}]
    boxes = []
    for _ in range(4):
        X, W = [], []
        for d in range(3):
            st = Wd[d] // segw
            a = rng.randint(0, 3)
            b = rng.randint(a + 1, 4)
            X.append((O[d] + a * st - 4) % U)
            W.append((b - a) * st + 8)
        boxes.append({"X": X, "W": W})
    evs.append({"e": "hist", "L": L, "g": 0, "files": [0], "boxes": boxes, "pts": rng.randint(1, 5),
                "threads": rng.choice([1, 2, 3, 5, 8]), "skip": rng.choice([1, 1, 2]), "sched": [], "scale": "Linear", "spell": "Linear", "min": 0, "max": 8, "bins": 2})
    return evs


def expand(ev):
    out, sheets = [], {}
    for e in ev:
        e.pop("L", None)
        e.pop("again", None)
        if e["e"] == "sheet":
            sheets[e["s"], e["f"]] = e
        if e["e"] != "hist":
            out.append(e)
            continue
        hooks = e.pop("events", None) or []
        e.pop("sched", None)
        e["wgt"] = sum(1 if len(sheets[e["s"], f]["P"]) == 3 else 6 * (sheets[e["s"], f]["segw"] // e["skip"]) ** 3 for f in e["files"])
        out.append(e)
        if e["outcome"] != "ok":
            continue
        for h in hooks:
            out.append({"s": e["s"], "e": "begin_box" if h["e"] == "begin" else h["e"], "id": h["id"], "f": h["f"]})
        out.append({"s": e["s"], "e": "hran"})
    return out


# ------------------------------------------------------------------ the command
def write_grid(path, g, scale, L, cosmo):
    pw = float(L) / g["cells"]
    b = struct.pack("<Q3q", 0x7ffffffffffffffe, 344, 0, 0) + struct.pack("<8d", 1, .5, .25, .75, 50, 1, 1, float(L))
    b += struct.pack("<5q", 1, g["cells"], 1, 1, g["axis"])
    b += struct.pack("<6d", *[x * pw for x in g["org"] + g["span"]]) + struct.pack("<6q", *g["org"], *g["span"])
    b += struct.pack("<d", pw) + bytes(104)
    val = lambda v: 0. if v == -100000 else -1. if v == -100001 else 10 ** (v / 12) if scale == "Log" else v / 4
    b += struct.pack("<%df" % len(g["vals"]), *[val(v) for v in g["vals"]])
    open(path, "wb").write(b[:len(b) - g["cut"]] if g["cut"] else b)


def parse_txt(path, bins, scale):
    counts, centers = [], []
    for line in open(path):
        if line.startswith("#") or not line.strip():
            continue
        try:
            a, b = line.split()
            x = float(a)
            centers.append(round(math.log10(x) * 12000) if scale == "Log" else round(x * 4000))
            counts.append(int(b))
        except ValueError:
            centers.append(core.BAD)
            counts.append(-1)
    return counts, centers


def cli(ctx, binary, s, seed):
    rng = random.Random(seed)
    L = repr(float(rng.choice(rcli.WIDTHS)))
    segw = rng.choice([1, 2, 4])
    skip = rng.choice([x for x in (1, 1, 2, 4) if segw % x == 0])
    d = place(rng, ctx.tmp, "histcli%d" % s)
    os.makedirs(d + "/in")
    os.makedirs(d + "/out")
    evs, ps = [{"e": "begin", "s": s}], []
    cosmo = {"z": 0, "om": 4, "ol": 12, "h": 10}
    for f in range(rng.randint(1, 3)):
        sh = mksheet(rng, f, L, ps, segw, skip)
        while len(sh["P"]) > 3:
            ps.pop()
            sh = mksheet(rng, f, L, ps, segw, skip)
        sh["skip"] = skip
        rcli.write_sheet("%s/in/%s.dat" % (d, chr(97 + f)), float(L), sh, cosmo)
        evs.append(dict(sh, s=s, outcome="ok"))
    near = rng.choice(ps)
    scale, lo, hi, n, pal = info(rng)
    g = mkgrid(rng, near, pal, L, 0)
    g["scale"] = scale
    write_grid(d + "/grid.gtet", g, scale, L, cosmo)
    evs.append(dict(g, s=s, outcome="ok"))
    regions = []
    for k in range(rng.randint(1, 3)):
        if rng.random() < .6:
            b = mkbox(rng, near)
            r = {"kind": "Box", "X": b["X"], "W": b["W"], "r": 0, "m": 0}
        else:
            m = rng.choice([0, 1, 2])
            rad = 8 * rng.randint(1, 40 // max(1, m))
            r = {"kind": "Ball", "X": [(p // 8 * 8 + 8 * rng.randint(-rad // 8, rad // 8)) % U for p in near], "W": [0] * 3, "r": rad, "m": m}
        regions.append(dict(r, name=rng.choice(["b%d", "my box %d", "x.%d"]) % k, axis="", file=0))
    lin = lambda v: repr(10 ** (v / 12) if scale == "Log" else v / 4)
    pre, app = rng.choice(["", "pre_"]), rng.choice(["", "_app"])
    pts, th = rng.randint(1, 9), rng.choice([0, 1, 2, 3, 8])
    t = ["[TetraHist]", "Quantity = Density", "HistMin = " + lin(lo), "HistMax = " + lin(hi), "HistBins = %d" % n, "HistScale = " + scale,
         "Particles = %d" % pts, "Input = %s/in" % d, "Output = %s/out" % d, "GridFile = %s/grid.gtet" % d]
    t += ["SubsampleLength = %d" % skip] * (skip > 1) + ["PrependName = " + pre] * (pre != "") + ["AppendName = " + app] * (app != "")
    head, rest = t[:1], t[1:]
    rng.shuffle(rest)
    open(d + "/hist.cfg", "w").write(respell(rng, "\n".join(head + rest) + "\n", d))
    open(d + "/bounds.cfg", "w").write("\n\n".join(rcli.region_text(r, float(L)) for r in regions) + "\n")
    stale = {}
    if rng.random() < .3:       # an earlier run's files
        for r in regions:
            f = "%s%s%s.txt" % (pre, r["name"], app)
            stale[f] = "1 2\n" * rng.choice([0, 1, 400])
            open(d + "/out/" + f, "w").write(stale[f])
    cmd = [binary] + (["-Threads", str(th)] if th else []) + ["-TetraHist", d + "/hist.cfg", d + "/bounds.cfg"]
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=120)
        outcome, err = ("ok" if p.returncode == 0 else "refused"), p.stderr[-300:]
    except subprocess.TimeoutExpired:
        outcome, err = "hang", ""
    out = sorted(f for f in os.listdir(d + "/out") if f not in stale or open(d + "/out/" + f).read() != stale[f])
    counts, centers = [], []
    for r in regions:
        f = "%s/out/%s%s%s.txt" % (d, pre, r["name"], app)
        a, b = parse_txt(f, n, scale) if os.path.basename(f) in out else ([], [])
        counts.append(a)
        centers.append(b)
    shutil.rmtree(d)
    evs.append({"e": "tetrahist", "s": s, "g": 0, "files": [e["f"] for e in evs if e["e"] == "sheet"], "regions": regions, "boxes": [], "pts": pts,
                "skip": skip, "min": lo, "max": hi, "bins": n, "pre": pre, "app": app, "outcome": outcome, "err": err,
                "out": out, "counts": counts, "centers": centers})
    for e in evs:
        e.pop("L", None)
    return evs


def run(ctx):
    ctx.model_check("HistRun")
    if not ctx.quick:
        ctx.model_check("HistRun", "HistRun_deep.cfg", timeout=700)
    scheds = {w: ctx.generate("RenderOrders", "RenderOrders_%d.cfg" % w) for w in (2, 3, 4)}
    rng = random.Random(ctx.seed * 14001 + 14)
    rows = []
    nses = 450 if ctx.quick else 5000
    for s in range(nses):
        rows += [dict(e, s=s) for e in session(rng, scheds)]
    for k in range(60 if ctx.quick else 600):
        rows += [dict(e, s=20000 + k) for e in uniform(rng)] + [dict(e, s=30000 + k) for e in tiled(rng)]
    for k, m in enumerate((17, 33, 66) if ctx.quick else (9, 17, 33, 65, 66, 129) * 4):
        rows += [dict(e, s=40000 + k) for e in session(rng, scheds, m)]
    # every order of the steps of two and three workers
    for w in (2, 3):
        for k, sc in enumerate(scheds[w]):
            s = 10000 + 1000 * w + k
            ps = []
            L = "100.0"
            evs = [{"e": "begin"}] + [dict(mksheet(rng, f, L, ps, 2, 1), cut=0) for f in range(2)]
            g = dict(mkgrid(rng, ps[0], [1, 5], L, 0), axis=-1, cut=0, scale="Linear")
            evs.append(g)
            evs.append({"e": "hist", "L": L, "g": 0, "files": rng.sample([0, 1], 2), "boxes": [mkbox(rng, p) for p in (ps[0], ps[0], ps[1])],
                        "pts": 3, "threads": w, "skip": 1, "sched": sc["sched"], "scale": "Linear", "min": 0, "max": 8, "bins": 2})
            rows += [dict(e, s=s) for e in evs]
    ev = ctx.drive_parallel(ctx.build("cmd/rund", tags="verif"), rows, timeout=60)
    keep = set(rng.sample(range(nses), 60 if ctx.quick else 600))
    rrows = [dict(r, s=r["s"] + 50000) for r in rows if r["s"] in keep]
    for r in rrows:
        if r["e"] == "hist":
            r["sched"], r["threads"] = [], max(2, r["threads"])
    ev += ctx.drive_parallel(ctx.build("cmd/rund", race=True), rrows, timeout=120,
                             env={"GORACE": "halt_on_error=1 exitcode=66"}, label="race")
    ev = expand(ev)
    binary = ctx.build(MAIN)
    with cf.ThreadPoolExecutor(max_workers=core.CORES) as ex:
        for es in ex.map(lambda k: cli(ctx, binary, 100000 + k, ctx.seed * 7 + k), range(120 if ctx.quick else 1500)):
            ev += es
    ctx.notes["histograms"] = sum(e["e"] in ("hist", "tetrahist") for e in ev)
    ctx.notes["histograms with counts"] = sum(e["e"] in ("hist", "tetrahist") and any(map(any, e.get("counts", []))) for e in ev)
    ctx.notes["refused"] = sum(e.get("outcome") in ("err", "refused") for e in ev)
    ctx.sample(*[e for e in ev if e["e"] == "hist"][:2], *[e for e in ev if e["e"] == "tetrahist"][:2])
    for e in ev:
        e.pop("msg", None)
    ctx.validate("HistTrace", ev)
    ctx.assumptions += ["subsampling lengths divide the segment width", "tetrahedra span less than half the simulation",
                        "no value lies where rounding decides its bin", "Monte Carlo samples lie inside their tetrahedron (C11)"]
