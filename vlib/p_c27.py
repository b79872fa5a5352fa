"""C27 whole runs: snapshot, segments, grids, histograms, judged from the particles alone."""
import concurrent.futures as cf
import os, random, shutil, struct, subprocess
from .places import place, respell
from . import core
from .convert import MAIN, fx, write_snapshot
from .rcli import GH, rx


def extent(B, xs):
    rel = [(x - xs[0] + B // 2) % B - B // 2 for x in xs]
    return max(rel) - min(rel)


def snapshot(rng, n, cells):
    """particles whose segments (with the layer of particles after them) span less than half the box"""
    B = 64 * rng.choice([1, 2, 5, 16, 62, 100, 250])
    N, seg = n ** 3, n // cells
    layout = [rng.choice(["grid", "grid", "clump"]) if 2 * seg < n and cells > 2 else "clump" for _ in range(3)]
    off = [rng.randrange(B) for _ in range(3)]
    jit = [rng.choice([0, 1, B // 64, B // 20 if lay == "grid" else B // rng.choice([4, 5, 9, 30])]) for lay in layout]
    jit = [min(j, B // 4 - 1 if lay == "clump" else (B // 2 - B // cells) // 2 - 1) for j, lay in zip(jit, layout)]
    pos = []
    for i in range(N):
        c = (i % n, i // n % n, i // (n * n))
        for d in range(3):
            p = off[d] + rng.randint(-jit[d], jit[d]) + (B * c[d] // n if layout[d] == "grid" else 0)
            pos.append(p % B)
    for i in range(3 * N):       # drifted out of the box
        if rng.random() < .03:
            pos[i] += rng.choice([-B, B])
    vm = rng.choice([0, 10, 3000, 40000])
    bias = [rng.choice([0, 0, vm, -vm, 500]) for _ in range(3)]
    hd = {"z": rng.randint(0, 999), "om": rng.randint(0, 64), "ol": rng.randint(0, 64), "h100": rng.randint(30, 64),
          "mass": rng.randint(1, 10 ** 6), "width": B}
    return {"n": n, "pos": pos, "vel": [rng.randint(-vm, vm) + bias[i % 3] for i in range(3 * N)], "ra": rng.choice([1, 2, 3, 4, 4]), "hd": hd}


def region(rng, B, pix, full):
    cw = B // pix
    while True:
        if full:
            X, W = [cw * rng.choice([0, rng.randrange(pix)]) for _ in range(3)], [B - 1] * 3
        else:
            X = [rng.choice([0, cw * rng.randrange(pix), rng.randrange(B)]) for _ in range(3)]
            W = [rng.choice([B - 1, rng.randint(1, B - 1), rng.randint(1, cw)]) for _ in range(3)]
        if all((x + w) // cw + 1 - x // cw <= pix for x, w in zip(X, W)):
            return {"X": X, "W": W}


def image_region(rng, B, pix, image):
    """a region whose longest side is `image` of `pix` pixels"""
    cw = B // pix
    while True:
        X = [rng.choice([0, cw * rng.randrange(pix), rng.randrange(B)]) for _ in range(3)]
        W = [image * cw if rng.random() < .4 else rng.randint(1, image * cw) for _ in range(3)]
        if max(W) == image * cw and all((x + w) // cw + 1 - x // cw <= pix for x, w in zip(X, W)):
            return {"X": X, "W": W}


def text(name, r, unit):
    t = ['[Box "%s"]' % name]
    for d in range(3):
        t += ["%s = %r" % ("XYZ"[d], r["X"][d] * unit), "%sWidth = %r" % ("XYZ"[d], r["W"][d] * unit)]
    return "\n".join(t) + "\n"


def read_grid(path, B, unit, vu, n, skip, pts, pix, q):
    b = open(path, "rb").read()
    if len(b) < GH.size:
        return {"outcome": "badfile"}
    h = GH.unpack(b[:GH.size])
    k = (len(b) - GH.size) // 4
    po, ps = list(h[23:26]), list(h[26:29])
    if max(abs(x) for x in [*po, *ps, *h[12:17]]) > 2 ** 30 or (len(b) - GH.size) % 4 or h[0] != 0x7ffffffffffffffe:
        return {"outcome": "badfile"}
    vals = struct.unpack("<%df" % k, b[GH.size:])
    if h[3] == 1 and k % 3 == 0:
        vals = [vals[c * (k // 3) + i] for i in range(k // 3) for c in range(3)]
    sc = 256 / vu if q == "Velocity" else 1000 * 6 * pts * (n / skip / pix) ** 3
    return {"outcome": "ok", "typ": h[2], "vec": h[3], "z": fx(h[4], 64), "om": fx(h[6], 64), "ol": fx(h[7], 64), "h0": fx(h[8], 64),
            "bw": fx(h[11], 1 / unit), "hpts": h[12], "tot": h[13], "hskip": h[14], "po": po, "ps": ps, "vals": [rx(v, sc) for v in vals]}


def read_hist(path, bins):
    try:
        c = [int(line.split()[1]) for line in open(path) if line.strip() and not line.startswith("#")]
    except (ValueError, IndexError, OSError):
        return []
    return c if all(abs(x) < 2 ** 30 for x in c) else []


def command(rng, binary, d, mode, lines, bounds):
    p = os.path.join(d, mode + ".cfg")
    head, rest = lines[0], lines[1:]
    rng.shuffle(rest)
    open(p, "w").write(respell(rng, "\n".join([head] + rest) + "\n", d))
    cmd = [binary] + (["-Threads", str(rng.choice([1, 2, 3, 8]))] if rng.random() < .6 else []) + ["-" + mode, p]
    for i, b in enumerate(bounds):
        f = os.path.join(d, "%s%d.bounds" % (mode, i))
        open(f, "w").write(b)
        cmd.append(f)
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=300)
        return ("ok" if p.returncode == 0 else "err"), p.stderr[-300:]
    except subprocess.TimeoutExpired:
        return "hang", ""


def session(ctx, binary, s, seed):
    rng = random.Random(seed)
    d = place(rng, ctx.tmp, "pipe%d" % s)
    os.makedirs(d + "/out")
    os.makedirs(d + "/seg")
    n = rng.choice([2, 4, 4, 4, 6, 8] if s % 4 == 0 else [2, 3, 4, 4])
    cells = rng.choice([c for c in range(1, n + 1) if n % c == 0])
    sn = snapshot(rng, n, cells)
    B = sn["hd"]["width"]
    xu, vu, mu = rng.choice([1, 1, .5, 2, 2.0 ** -10, 8]), rng.choice([1, .5, 4]), rng.choice([1, 2.0 ** 10, .5])
    unit = xu / 64
    ids = rng.choice([4, 8])
    write_snapshot(rng, d + "/snap", sn, ids)
    ev = [{"e": "snap", **sn}]
    t = ["[ConvertSnapshot]", "InputFormat = LGadget-2", "Cells = %d" % cells, "Gadget2IDSize = %d" % (8 * ids), "Input = %s/snap" % d, "Output = %s/seg" % d]
    t += ["%s = %r" % (k, u) for k, u in (("XUnits", xu), ("VUnits", vu), ("MUnits", mu)) if u != 1]
    outcome, err = command(rng, binary, d, "ConvertSnapshot", t, [])
    ev.append({"e": "convert", "cells": cells, "outcome": outcome, "err": err, "files": len(os.listdir(d + "/seg"))})
    strides = [k for k in (1, 2, 4, 8) if (n // cells) % k == 0]      # powers of two, as the command demands
    made, names, grids = set(), set(), []

    def stride(k):
        if k not in made:
            made.add(k)
            ev.append({"e": "stride", "skip": k, "wgt": (n // k) ** 3})
        return k
    for r in range(rng.choice([1, 1, 2, 3])):
        q = rng.choice(["Density", "Density", "Density", "Velocity"])
        palette = [p for p in (1, 2, 4, 5, 8, 16) if B % p == 0 and p <= (5 if n == 8 else 16 if n < 4 else 8)]
        pix = rng.choice(palette)
        if q == "Velocity" and rng.random() < .5:
            pix, palette = min(pix, 2), [1, 2]
        skip = stride(rng.choice(strides))
        pts = rng.choice([1, 2, 3, 7, 20, 64]) if n < 4 else rng.choice([1, 1, 2, 3])
        k = rng.choice([1, 1, 2, 3])
        if palette[-1] > 1 and rng.random() < .35:      # every region its own pixels
            image = rng.choice([1, 1, rng.randint(1, palette[-1] - 1)])
            pixs = [rng.choice([p for p in palette if p > image]) for _ in range(k + 1)]
            regs = [image_region(rng, B, p, image) for p in pixs]
            size = "ImagePixels = %d" % image
        else:
            pixs, size = [pix] * k, "TotalPixels = %d" % pix
            regs = [region(rng, B, pix, rng.random() < .5) for _ in range(k)]
        reuse = r > 0 and rng.random() < .3
        nm = ["g%d box %d" % (0 if reuse else r, i) for i in range(len(regs))]
        t = ["[Render]", "Quantity = " + q, size, "Particles = %d" % pts, "Input = %s/seg" % d, "Output = %s/out" % d]
        t += ["SubsampleLength = %d" % skip] * (skip > 1 or rng.random() < .2)
        bs = [text(a, b, unit) for a, b in zip(nm, regs)]
        if rng.random() < .5:
            bs = ["\n".join(bs)]
        outcome, err = command(rng, binary, d, "Render", t, bs)
        for a, b, pix in zip(nm, regs, pixs):
            f = "%s/out/%s.gtet" % (d, a)
            names.add(os.path.basename(f))
            g = {"e": "grid", "id": len(grids), "q": q, "pix": pix, "pts": pts, "skip": skip, **b, "outcome": outcome, "err": err}
            if outcome == "ok":
                g.update(read_grid(f, B, unit, vu, n, skip, pts, pix, q) if os.path.exists(f) else {"outcome": "nofile"})
            g["wgt"] = (n // skip) ** 3 + len(g.get("vals", []))
            g["keep"] = f
            grids.append(g)
            ev.append(g)
            # a histogram over this grid, before the file is written again
            if q == "Density" and g["outcome"] == "ok" and rng.random() < .8:
                hskip = stride(rng.choice(strides))
                hpts = rng.choice([1, 2, 5, 40]) if n < 4 else rng.choice([1, 2, 3])
                w = (pix * skip / n) ** 3 / (6 * pts)
                top = max(max(g["vals"]) // 1000, 1)
                step = rng.choice([1, 2, max(1, top // 3), top + 1])
                bins = rng.choice([1, 2, 5, min(24, top // step + 1)])
                k0 = rng.choice([0, 0, 1, max(0, top - step * bins + 1)])
                if rng.random() < .6:        # every sample in some bin
                    k0, step = 1, top // bins + 2
                hb = [{"X": [0] * 3, "W": [B] * 3} if rng.random() < .5 else region(rng, B, 1 if rng.random() < .1 else pix, False) for _ in range(rng.choice([1, 2]))]
                hn = ["h%d_%d" % (g["id"], i) for i in range(len(hb))]
                t = ["[TetraHist]", "Quantity = Density", "HistMin = %r" % ((k0 - .5) * w), "HistMax = %r" % ((k0 + step * bins - .5) * w), "HistBins = %d" % bins,
                     "HistScale = Linear", "Particles = %d" % hpts, "Input = %s/seg" % d, "Output = %s/out" % d, "GridFile = " + f]
                t += ["SubsampleLength = %d" % hskip] * (hskip > 1)
                outcome2, err2 = command(rng, binary, d, "TetraHist", t, ["\n".join(text(a, b, unit) for a, b in zip(hn, hb))])
                for a, b in zip(hn, hb):
                    names.add(a + ".txt")
                    ev.append({"e": "hist", "grid": g["id"], "pts": hpts, "skip": hskip, "k0": k0, "step": step, "bins": bins, **b, "outcome": outcome2, "err": err2,
                               "counts": read_hist("%s/out/%s.txt" % (d, a), bins), "wgt": 2 * g["wgt"]})
    ev.append({"e": "done", "extra": len(set(os.listdir(d + "/out")) ^ names)})
    shutil.rmtree(d)
    for e in ev:
        e.pop("keep", None)
    return [dict(e, s=s) for e in ev]


def run(ctx):
    ctx.model_check("Pipeline")
    if not ctx.quick:
        ctx.model_check("Pipeline", "Pipeline_deep.cfg", timeout=700)
    binary = ctx.build(MAIN)
    with cf.ThreadPoolExecutor(max_workers=core.CORES) as ex:
        res = list(ex.map(lambda k: session(ctx, binary, k, ctx.seed * 27000001 + k), range(160 if ctx.quick else 1600)))
    ev = [e for r in res for e in r]
    ctx.notes.update(pipelines=len(res), grids=sum(e["e"] == "grid" for e in ev), histograms=sum(e["e"] == "hist" for e in ev),
                     filled=sum(e["e"] == "hist" and any(e["counts"]) for e in ev), histogram_samples=sum(sum(e["counts"]) for e in ev if e["e"] == "hist"))
    ctx.sample(*[{k: v for k, v in e.items() if k not in ("vals",)} for e in ev if e["e"] in ("convert", "grid", "hist")][:4])
    for e in ev:
        e.pop("err", None)
    ctx.validate("PipelineTrace", ev)
    ctx.assumptions += ["segments with their ghost particles span less than half the box", "samples lie within their element up to a 64th of a length unit of the snapshot (C11)"]
