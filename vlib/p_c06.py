"""C06 grid files."""
import json, os, random, subprocess, sys
from . import core

QS = ["Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl"]


def write(rng, f, q=None, axis=None, big=False, span=None):
    q = q or rng.choice(QS)
    if q in ("Density", "Velocity"):
        axis = rng.choice(["", "", "X", "Y", "Z"]) if axis is None else axis
        hi = 12 if big else 5
        sp = [rng.randint(1, hi) for _ in range(3)]
    else:
        axis, sp = "", [rng.randint(5, 9 if big else 6) for _ in range(3)]
    if span:
        axis = axis or ""
    else:
        span = sp
    n = 1
    for d in range(3):
        n *= 1 if "XYZ"[d] == axis else span[d]
    cells = rng.randint(max(span) + 1, max(64, 2 * max(span)))
    num = [rng.choice([0, 1, 1, 2, 4, 3]) for _ in range(n)]
    vec = q not in ("Density", "DensityGradient")

    def val(i):
        if vec and num[i] == 0:
            return 0
        v = rng.choice([0, 1, -1, rng.randint(-1000, 1000), rng.randint(-300000, 300000)])
        return v * num[i] if vec else v
    vals = [val(i) for i in range(n) for _ in range(3 if vec else 1)]
    return {"e": "gtet", "f": f, "q": q, "axis": axis, "org": [rng.randint(0, cells - 1) for _ in range(3)], "span": span,
            "pw": rng.randint(1, 200), "cells": cells, "particles": rng.randint(1, 500), "skip": rng.choice([1, 2, 4, 8]),
            "z": rng.choice([0, 1, 3, 7]), "om": rng.randint(1, 16), "ol": rng.randint(0, 16), "h0": rng.randint(1, 100),
            "bw": rng.randint(1, 2000), "n": n, "vals": vals, "num": num}


def size(w):
    return 344 + 4 * w["n"] * (3 if w["q"] in ("DensityGradient", "Velocity", "VelocityCurl") else 1)


def reads(rng, f, py=True):
    r = [{"e": e, "f": f} for e in ["rdgh", "rdg"] + (["pyh", "pyg", "pyp"] if py else [])]
    rng.shuffle(r)
    return r


def sessions(ctx):
    """Per session: a list of steps; Python reads refer to a snapshot of the file kept aside."""
    rng = random.Random(ctx.seed * 6151 + 6)
    out = []
    for q in QS:
        for axis in ([None] if q not in ("Density", "Velocity") else ["", "X", "Y", "Z"]):
            for big in (False, True):
                w = write(rng, "a.gtet", q, axis, big)
                out.append([w] + reads(rng, "a.gtet"))
    for _ in range(25 if ctx.quick else 300):
        evs, w = [], {}
        for _ in range(rng.randint(2, 6)):
            f = rng.choice(["a.gtet", "b.gtet"])
            if f not in w or rng.random() < .3:
                w[f] = write(rng, f)
                evs.append(w[f])
                w[f] = size(w[f])
            elif rng.random() < .4:
                k = rng.choice([w[f] - 1, w[f] - 4, 344, 343, 8, 0, rng.randint(0, w[f])])
                k = max(0, min(k, w[f]))
                w[f] = k
                evs.append({"e": "cut", "f": f, "k": k})
            evs += reads(rng, f)
        evs.append({"e": "cut", "f": f, "k": max(0, w[f] - 1)})
        evs += reads(rng, f, False)
        out.append(evs)
    # large ones
    for q, axis, span in (("Density", "", [34, 33, 32]), ("Density", "Z", [300, 230, 3]), ("Velocity", "", [33, 41, 29])) + (() if ctx.quick else (("Density", "", [41, 41, 41]), ("Velocity", "", [42, 41, 40]))):
        out.append([write(rng, "a.gtet", q, axis, False, span)] + reads(rng, "a.gtet"))
    # every truncation of one small file
    for q in QS[:1] + QS[2:3]:
        w = write(rng, "a.gtet", q)
        ks = range(0, size(w) + 1) if not ctx.quick else list(range(0, 344, 20)) + list(range(340, size(w) + 1))
        ks = list(ks)
        for lo in range(0, len(ks), 40):
            evs = []
            for k in ks[lo:lo + 40]:
                evs += [w, {"e": "cut", "f": "a.gtet", "k": k}] + reads(rng, "a.gtet", k % 9 == 0)
            out.append(evs)
    return out


def run(ctx):
    ctx.model_check("GridFile")
    # a file that Python is to read must still exist when it runs: the driver keeps a copy
    rows = []
    for s, evs in enumerate(sessions(ctx)):
        d = os.path.join(ctx.tmp, "gt%d" % s)
        rows.append({"e": "gbegin", "dir": d, "s": s})
        for k, e in enumerate(evs):
            e = dict(e, s=s)
            if e["e"] in ("pyh", "pyg", "pyp"):
                e["py"], e["e"], e["to"] = e["e"], "keep", "%s.%d" % (e["f"], k)
                e["path"] = os.path.join(d, e["to"])
            rows.append(e)
    ev = ctx.drive_parallel(ctx.build("cmd/iod"), rows, env={"DRV_KEEP": "1"})
    pys = [{"e": e["py"], "path": e["path"]} for e in ev if "py" in e and e["outcome"] == "ok"]
    p = subprocess.run(["python3-vt", "-B", os.path.join(core.VERIF, "vlib", "pyreader.py"), os.path.join(core.REPO, "python")],
                       input="\n".join(json.dumps(x) for x in pys) + "\n", capture_output=True, text=True, timeout=600, cwd=ctx.tmp)
    res = [json.loads(l) for l in p.stdout.splitlines()]
    if len(res) != len(pys):
        raise core.CheckError("the Python reader gave %d answers to %d reads: %s" % (len(res), len(pys), p.stderr[-500:]))
    it = iter(res)
    for e in ev:
        if "py" in e:
            e["e"] = e.pop("py")
            r = next(it) if e["outcome"] == "ok" else {}
            e.update({k: v for k, v in r.items() if k not in ("path", "e")})
            if "hd" in e:       # the reader decodes the flag itself
                h = e["hd"]
                good = h.pop("version") == 2 and h.pop("little")
                h.pop("little", None)
                h["hi"], h["lo"] = (2147483647, -2) if good else (0, 0)
        for k in ("msg", "stderr", "path", "to", "n", "dir"):
            e.pop(k, None)
    ctx.sample(*[e for e in ev if e["e"] in ("rdgh", "pyh")][:4])
    ctx.validate("GridFileTrace", ev)
    ctx.notes.update(python_reads=len(res), refused=sum(e["outcome"] != "ok" for e in ev), grids=sum(e["e"] == "gtet" for e in ev))
