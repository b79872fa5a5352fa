"""Runs of the converter, shared by C01, C02 and C03."""
import concurrent.futures as cf
import os, random, shutil, struct, subprocess
from .places import place, respell
from . import core
from .gadget import catalogue

MAIN = "github.com/phil-mansfield/gotetra/render/main"


def snapshot(rng, n, layout="grid", jitter=None):
    """Particle content by site."""
    B = 64 * rng.choice([1, 2, 5, 16, 62, 100, 250])
    N = n ** 3
    ra = rng.choice([1, 2, 3, 4, 4])
    off = [rng.randint(0, B - 1) for _ in range(3)]
    if jitter is None:
        jitter = rng.choice([0, 1, B // (2 * n), B // n, B // 8])
    pos = []
    for i in range(N):
        x, y, z = i % n, i // n % n, i // (n * n)
        if layout == "grid":
            p = [B * c // n + o + rng.randint(-jitter, jitter) for c, o in zip((x, y, z), off)]
        elif layout == "clump":       # everything close together, possibly across the boundary
            p = [o + rng.randint(-jitter, jitter) for o in off]
        else:
            p = [rng.randint(0, B - 1) for _ in range(3)]
        q = [c % B for c in p]
        # some particles have drifted out of the box (by less than one box width)
        pos += [c if rng.random() > .1 else (c - B if rng.random() < .5 else c + B) for c in q]
    vm = rng.choice([0, 10, 3000, 40000])
    bias = rng.choice([0, 0, vm, -vm])
    vel = [rng.randint(-vm, vm) + bias for _ in range(3 * N)]
    hd = {"z": rng.randint(0, 999), "om": rng.randint(0, 64), "ol": rng.randint(0, 64), "h100": rng.randint(30, 64),
          "mass": rng.randint(1, 10 ** 6), "width": B}
    return {"n": n, "pos": pos, "vel": vel, "ra": ra, "hd": hd}


def chunk_cuts(rng, N):
    """Files whose particle counts lie at or next to multiples of powers of two."""
    cuts, at = [], 0
    while len(cuts) < 24:
        p = 2 ** rng.randint(1, 12)
        at += max(0, p * rng.randint(1, 3) + rng.choice([-1, 0, 0, 1, 2, 3, rng.randint(1, max(1, p // 64)), rng.randint(1, max(1, p // 16))]))
        if at > N:
            break
        cuts.append(at)
    return cuts


def write_snapshot(rng, d, sn, bi=8, nfiles=None):
    os.makedirs(d)
    N = sn["n"] ** 3
    order = list(range(N))
    style = rng.choice(["shuffle", "shuffle", "sorted", "reversed"])
    if style == "shuffle":
        rng.shuffle(order)
    elif style == "reversed":
        order.reverse()
    if nfiles == "chunks" or (not nfiles and rng.random() < .3):
        cuts = chunk_cuts(rng, N)
    else:
        cuts = sorted(rng.randint(0, N) for _ in range((nfiles or rng.choice([1, 1, 2, 3, 5, 8])) - 1))
    nf = len(cuts) + 1
    parts = [order[a:b] for a, b in zip([0] + cuts, cuts + [N])]
    rng.shuffle(parts)
    for k, p in enumerate(parts):
        c = {"pos": [sn["pos"][3 * i + d] for i in p for d in range(3)], "vel": [sn["vel"][3 * i + d] for i in p for d in range(3)],
             "ra": sn["ra"], "box": sn["hd"]["width"], "total": N, "mass": sn["hd"]["mass"], "z": sn["hd"]["z"], "om": sn["hd"]["om"],
             "ol": sn["hd"]["ol"], "h100": sn["hd"]["h100"], "idv": [i + 1 for i in p], "nfiles": nf}
        with open(os.path.join(d, "snap.%d" % k), "wb") as f:
            f.write(catalogue(c, "little", rng.choice([4, 8]), rng.choice([4, 8]), bi))


def fx(v, sc):
    r = v * sc
    return int(r) if r == r and abs(r) < 2147483000 and r == int(r) else core.BAD


def read_sheet(path, xu, vu, mu):
    """Sheet file by the documented layout, numbers back in input units."""
    b = open(path, "rb").read()
    flag, size = struct.unpack("<2i", b[:8])
    if flag != 0 or size != 152 or len(b) < 160:
        return {"outcome": "badfile"}
    d = struct.unpack("<4d7q2d12f", b[8:160])
    gc = d[8]
    if gc < 0 or len(b) != 160 + 24 * gc:
        return {"outcome": "badfile"}
    sx, sv = 64 / xu, 64 / vu
    xs = [fx(v, sx) for v in struct.unpack("<%df" % (3 * gc), b[160:160 + 12 * gc])]
    vs = [fx(v, sv) for v in struct.unpack("<%df" % (3 * gc), b[160 + 12 * gc:])]
    hd = {"z": fx(d[0], 64), "om": fx(d[1], 64), "ol": fx(d[2], 64), "h100": fx(d[3], 64),
          "countwidth": d[5], "segwidth": d[6], "gridwidth": d[7], "gridcount": gc, "idx": d[9], "cells": d[10],
          "mass": fx(d[11], 64 / mu), "width": fx(d[12], sx),
          "origin": [fx(v, sx) for v in d[13:16]], "span": [fx(v, sx) for v in d[16:19]],
          "vorigin": [fx(v, sv) for v in d[19:22]], "vspan": [fx(v, sv) for v in d[22:25]]}
    return {"outcome": "ok", "hd": hd, "xs": xs, "vs": vs}


def session(ctx, binary, s, case):
    """case: rng, snaps {k: snapshot}, cf {cells, iterated, start, end}, optional nfiles."""
    rng = random.Random(case["seed"])
    d = place(rng, ctx.tmp, "conv%d" % s)
    os.makedirs(d)
    cfg, snaps, bi = case["cf"], case["snaps"], rng.choice([4, 8])
    xu, vu, mu = rng.choice([1, 1, .5, 2, 2.0 ** -10, .25]), rng.choice([1, 1, .5, 4]), rng.choice([1, 2.0 ** 10, .5, 8])
    if case.get("nfiles") == "chunks":      # units that leave nothing alone
        xu, vu = rng.choice([.5, 2, 4]), rng.choice([.5, 4])
    ev = [{"e": "begin"}]
    for k, sn in snaps.items():
        write_snapshot(rng, os.path.join(d, "in_%03d" % k), sn, bi, case.get("nfiles"))
        ev.append({"e": "snap", "k": k, **sn})
    lines = ["[ConvertSnapshot]", "InputFormat = " + rng.choice(["LGadget-2", "Arepo-type-2"]), "Cells = %d" % cfg["cells"]]
    if bi == 4 or rng.random() < .5:
        lines.append("Gadget2IDSize = %d" % (8 * bi))
    if cfg["iterated"]:
        lines += ["IteratedInput = %s/in_%%03d" % d, "IteratedOutput = %s/out_%%03d" % d]
        if cfg["start"] or rng.random() < .5:
            lines.append("IterationStart = %d" % cfg["start"])
        if cfg["end"] >= 0:
            lines.append("IterationEnd = %d" % cfg["end"])
    else:
        lines += ["Input = %s/in_%03d" % (d, cfg["start"]), "Output = %s/out_%03d" % (d, cfg["start"])]
    for name, u in (("XUnits", xu), ("VUnits", vu), ("MUnits", mu)):
        if u != 1 or rng.random() < .3:
            lines.append("%s = %r" % (name, u))
    cp = os.path.join(d, "convert.cfg")
    open(cp, "w").write(respell(rng, "\n".join(lines) + "\n", d))
    cmd = [binary, "-ConvertSnapshot", cp] + (["-Threads", str(rng.randint(1, 8))] if rng.random() < .5 else [])
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=180)
        if p.returncode == 0 and rng.random() < .2:
            # once more, over files that were tampered with
            for x in os.listdir(d):
                for f in os.listdir(os.path.join(d, x)) if x.startswith("out_") else []:
                    open(os.path.join(d, x, f), rng.choice(["ab", "wb"])).write(b"\xa5" * rng.choice([0, 1, 12, 5000]))
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=180)
        outcome, err = ("ok" if p.returncode == 0 else "err"), p.stderr[-300:]
    except subprocess.TimeoutExpired:
        outcome, err = "hang", ""
    outs = sorted(int(x[4:]) for x in os.listdir(d) if x.startswith("out_"))
    ev.append({"e": "convert", "cf": cfg, "units": [xu, vu, mu], "outcome": outcome, "out": outs, "err": err})
    for k in outs:
        od = os.path.join(d, "out_%03d" % k)
        for f in sorted(os.listdir(od)):
            ev.append({"e": "sheet", "k": k, "name": f, **read_sheet(os.path.join(od, f), xu, vu, mu)})
    ev.append({"e": "done"})
    shutil.rmtree(d)
    return [dict(x, s=s) for x in ev]


def run(ctx, focus, cases):
    ctx.model_check("Convert")
    binary = ctx.build(MAIN)
    with cf.ThreadPoolExecutor(max_workers=core.CORES) as ex:
        res = list(ex.map(lambda a: session(ctx, binary, *a), enumerate(cases)))
    ev = [e for r in res for e in r]
    for e in ev:
        e.pop("units", None)
        e.pop("err", None)
    ctx.sample(*[{k: v for k, v in e.items() if k in ("hd", "e", "k", "cf", "out", "name")} for e in ev if e["e"] in ("convert", "sheet")][:5])
    ctx.validate("ConvertTrace", ev, env={"FOCUS": focus})
    ctx.notes.update(conversions=len(cases), sheet_files=sum(e["e"] == "sheet" for e in ev),
                     particles=sum(e["n"] ** 3 for e in ev if e["e"] == "snap"))


def simple(rng, n, c, layout="grid", **kw):
    return {"seed": rng.getrandbits(48), "snaps": {0: snapshot(rng, n, layout)},
            "cf": {"cells": c, "iterated": False, "start": 0, "end": 0}, **kw}


def divisors(n):
    return [c for c in range(1, n + 1) if n % c == 0]
