"""C09 whole render runs: threads, schedules, file orders, several boxes."""
import random
from . import render

U = 640


def offedge(rng, lo, hi):
    """a position = 4 mod 8 in [lo, hi): never within 4 units of a pixel edge"""
    return rng.randrange(lo // 8, max(lo // 8 + 1, hi // 8)) * 8 + 4


def mkbox(rng, cells, q, near, full):
    sub = U // cells
    while True:
        if full:
            X, W = [0] * 3, [U] * 3
        else:
            X, W = [], []
            for d in range(3):
                w = rng.choice([8, 8 * rng.randint(1, sub // 8 * 2), 8 * rng.randint(1, U // 8)])
                x = offedge(rng, 0, U)
                if near and rng.random() < .7:
                    x = (near[d] - 8 * rng.randint(0, w // 8)) % U
                X.append(x)
                W.append(min(w, U))
        axis = rng.choice(["", "", "X", "Y", "Z"])
        vol = 1
        for d in range(3):
            vol *= 1 if axis == "XYZ"[d:d + 1] and q in ("Density", "Velocity") else render.span_of(X[d], W[d], sub)
        if vol <= (1000 if full else 400):
            return {"X": X, "W": W, "axis": axis, "cells": cells, "pts": rng.randint(1, 6) if rng.random() < .97 else rng.choice([17, 64, 100, 1000])}
        if full:
            axis = rng.choice("XYZ")
            if q not in ("Density", "Velocity"):
                cells = min(cells, 5)
                full = cells in (4, 5)


def session(rng, scheds, quick, crowd=0):
    base = rng.choice([4, 5, 8])
    cw = 2 * base
    segw = rng.choice([2, 2, 4])
    L = repr(float(rng.choice([1, 10, 62.5, 100, 640, 250])))
    evs = [{"e": "begin"}]
    nf = rng.randint(1, 6)
    dec = rng.choice([x for x in (1, 1, 2, 4) if segw % x == 0])       # runs subsample at least this much
    ps = []
    for f in range(nf):
        P = [offedge(rng, 0, U) for _ in range(3)] if not ps or rng.random() < .4 else list(rng.choice(ps))
        ps.append(P)
        O, Wd = [], []
        for d in range(3):
            w = rng.choice([0, 0, 8, 8 * rng.randint(0, 12), 8 * rng.randint(0, 36)])
            O.append((P[d] - 8 * rng.randint(0, w // 8)) % U)
            Wd.append(w)
        if rng.random() < .25:                        # spread over its bounds instead
            P = [(O[d % 3] + rng.randint(0, Wd[d % 3])) % U for d in range(3 * (segw + 1) ** 3)]
        evs.append({"e": "sheet", "f": f, "L": L, "cw": cw, "segw": segw, "P": P, "O": O, "Wd": Wd,
                    "dec": dec, "decoy": [(o + rng.randint(0, w)) % U for o, w in zip(O, Wd)],
                    "V": [rng.randint(-40, 40) for _ in range(3)]})
    general = any(len(e["P"]) > 3 for e in evs[1:])
    for _ in range(rng.randint(1, 3)):
        q = rng.choice(render.QS[:2] * 3 + render.QS)
        full = general or rng.random() < .1
        boxes = [mkbox(rng, rng.choice([c for c in (base, 2 * base, 4 * base) if c <= 20]) if not full else base, q,
                       rng.choice(ps) if rng.random() < .8 else None, full) for _ in range(crowd or rng.randint(1, 3))]
        files = list(range(nf))
        rng.shuffle(files)
        files = files[:rng.randint(1, nf)]
        th = rng.choice([1, 2, 3, 4, 5, 8, 16])
        sched = []
        if rng.random() < .6:
            th = rng.choice([2, 3, 3, 4])
            sched = rng.choice(scheds[th])["sched"]
        evs.append({"e": "run", "L": L, "q": q, "boxes": boxes, "files": files, "threads": th,
                    "skip": rng.choice([s for s in (1, 1, 2, 4) if segw % s == 0 and s % dec == 0]), "sched": sched})
        vals = [{"e": "vals", "b": i + 1, "scale": 64, "total": general} for i in range(len(boxes))]
        evs += vals
        # the same manager once more: all of its files, or some of them
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            for f in sorted(set(files)):
                if rng.random() < .4 and len(last(evs, f)["P"]) == 3:
                    evs.append(moved(rng, last(evs, f)))
            al = rng.random() < .5
            more = files if al else rng.sample(files, rng.randint(1, len(files)))
            sched = rng.choice(scheds[th])["sched"] if th in (2, 3, 4) and rng.random() < .5 else []
            evs.append({"e": "more", "files": more, "all": al, "sched": sched,
                        "skip": rng.choice([s for s in (1, 1, 2, 4) if segw % s == 0 and s % dec == 0])})
            evs += vals
    return evs


def last(evs, f):
    return [e for e in evs if e["e"] == "sheet" and e["f"] == f][-1]


def moved(rng, sh):
    """the same file with other contents within the same bounds"""
    P = [(o + 8 * rng.randint(0, w // 8)) % U for o, w in zip(sh["O"], sh["Wd"])]
    return dict(sh, P=[p if (p - q) % 8 == 0 else q for p, q in zip(P, sh["P"])], V=[rng.randint(-40, 40) for _ in range(3)])


def expand(ev):
    out = []
    for e in ev:
        if e["e"] not in ("run", "more"):
            out.append(e)
            continue
        hooks = e.pop("events", None) or []
        out.append(e)
        if e["outcome"] != "ok":
            continue
        for h in hooks:
            out.append({"s": e["s"], "e": "begin_box" if h["e"] == "begin" else h["e"], "id": h["id"], "f": h["f"]})
        out.append({"s": e["s"], "e": "ran"})
    return out


def run(ctx):
    ctx.model_check("RenderRun")
    if not ctx.quick:
        ctx.model_check("RenderRun", "RenderRun_deep.cfg", timeout=700)
    scheds = {w: ctx.generate("RenderOrders", "RenderOrders_%d.cfg" % w) for w in (2, 3, 4)}
    rng = random.Random(ctx.seed * 9001 + 9)
    rows, n = [], 0
    for s in range(400 if ctx.quick else 5000):
        rows += [dict(e, s=s) for e in session(rng, scheds, ctx.quick)]
    # very many boxes
    for k, m in enumerate((17, 33, 40, 66) if ctx.quick else (9, 17, 18, 32, 33, 34, 40, 64, 65, 66, 129) * 4):
        rows += [dict(e, s=40000 + k) for e in session(rng, scheds, ctx.quick, m)]
    # every order of the steps of two and three workers
    for w in (2, 3):
        for k, sc in enumerate(scheds[w]):
            s = 10000 + 1000 * w + k
            P, P2 = [offedge(rng, 0, U) for _ in range(3)], [offedge(rng, 0, U) for _ in range(3)]
            evs = [{"e": "begin"}]
            for f, p in ((0, P), (1, P2), (2, P)):
                evs.append({"e": "sheet", "f": f, "L": "100.0", "cw": 10, "segw": 2, "P": p, "O": p, "Wd": [0] * 3, "dec": 1, "decoy": p,
                            "V": [rng.randint(-40, 40) for _ in range(3)]})
            q = rng.choice(["Density", "Velocity"])
            boxes = [mkbox(rng, rng.choice([5, 10]), q, p, False) for p in (P, P, P2)]
            evs.append({"e": "run", "L": "100.0", "q": q, "boxes": boxes, "files": rng.sample([0, 1, 2], 3), "threads": w, "skip": 1, "sched": sc["sched"]})
            evs += [{"e": "vals", "b": i + 1, "scale": 64, "total": False} for i in range(3)]
            rows += [dict(e, s=s) for e in evs]
    ev = ctx.drive_parallel(ctx.build("cmd/rund", tags="verif"), rows, timeout=60)
    # the same without hooks or forced order, under the race detector
    rrows, keep = [], random.Random(ctx.seed).sample(range(400 if ctx.quick else 5000), 60 if ctx.quick else 800)
    keep = set(keep)
    rrows = [dict(r, s=r["s"] + 50000, sched=[]) if r["e"] in ("run", "more") else dict(r, s=r["s"] + 50000) for r in rows if r["s"] in keep]
    for r in rrows:
        if r["e"] == "run":
            r["threads"] = max(2, r["threads"])
    ev += ctx.drive_parallel(ctx.build("cmd/rund", race=True), rrows, timeout=120,
                             env={"GORACE": "halt_on_error=1 exitcode=66"}, label="race")
    ev = expand(ev)
    for e in ev:
        e.pop("msg", None)
        e.pop("L", None)
    ctx.notes["hook events"] = sum(e["e"] in ("start", "done", "merge", "begin_box", "load") for e in ev)
    ctx.notes["forced schedules"] = sum(e["e"] == "run" and bool(e.get("sched")) or 0 for e in rows)
    ctx.sample(*[e for e in ev if e["e"] == "run"][:2])
    for e in ev:
        e.pop("sched", None)
    ctx.validate("RenderRunTrace", ev)
    ctx.assumptions += ["sheet files of one run have the same size", "the race detector watches unforced runs; a detected race ends the run and is refused",
                        "forced schedules order the start, end and merging of the workers' shares, not single deposits"]
