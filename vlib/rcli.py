"""Runs of the render command, shared by C10 and C16.  Positions are 640ths of the
simulation width; every width used makes them exact in binary and in decimal."""
import concurrent.futures as cf
import os, random, shutil, struct, subprocess
from .places import place, respell
from . import core
from .convert import MAIN, fx
from .render import QS, span_of

U = 640
WIDTHS = [2.5, 10, 62.5, 100, 125, 250, 640, 1000]
GH = struct.Struct("<Q3q8d5q" + "6d6qd" * 2)


def write_sheet(path, L, s, cosmo):
    u = L / U
    n = s["segw"] + 1
    fs = [float(x) for x in (cosmo["z"] / 8, cosmo["om"] / 16, cosmo["ol"] / 16, cosmo["h"] / 16)]
    hd = struct.pack("<4d7q2d12f", *fs, s["cw"] ** 3, s["cw"], s["segw"], n, n ** 3, 0, max(1, s["cw"] // s["segw"]), 1.0, L,
                     *[x * u for x in s["O"]], *[x * u for x in s["Wd"]], *[0.0] * 6)
    # with subsampling, the particles that are not to be read sit elsewhere
    k = s["skip"]
    real = [all(c % k == 0 for c in (i % n, i // n % n, i // (n * n))) for i in range(n ** 3)]
    p = b"".join(struct.pack("<3f", *[x * u for x in (s["P"] if r else s["decoy"])]) for r in real)
    v = b"".join(struct.pack("<3f", *[x / 4 if r else 77. for x in s["V"]]) for r in real)
    b = struct.pack("<2i", 0, 152) + hd + p + v
    if s.get("cut"):
        b = b[:len(b) - s["cut"]]
    open(path, "wb").write(b)


def rx(v, sc):
    r = v * sc
    return round(r) if r == r and abs(r) < 2147483000 else core.BAD


def read_gtet(path, L, s0):
    b = open(path, "rb").read()
    if len(b) < GH.size:
        return {"outcome": "badfile"}
    h = GH.unpack(b[:GH.size])
    flag, hs, typ, vec = h[:4]
    z, a, om, ol, h0, rm, rc, bw = h[4:12]
    pts, tot, skip, dep, axis = h[12:17]
    org, span, po, ps, pw = h[17:20], h[20:23], h[23:26], h[26:29], h[29]
    n = (len(b) - GH.size) // 4
    vals = struct.unpack("<%df" % n, b[GH.size:GH.size + 4 * n])
    if vec == 1 and n % 3 == 0:
        m = n // 3
        vals = [vals[c * m + i] for i in range(m) for c in range(3)]
    big = max(abs(x) for x in (pts, tot, skip, axis, *po, *ps)) < 2 ** 30
    if not big or (len(b) - GH.size) % 4 or tot <= 0:
        return {"outcome": "badfile"}
    sc = 64.0 if vec else 4096 * (s0["cw"] / (s0["segw"] * tot)) ** 3
    return {"outcome": "ok", "flag": "%016x" % flag, "hs": hs, "typ": typ, "vec": vec,
            "z": fx(z, 8), "om": fx(om, 16), "ol": fx(ol, 16), "h0": fx(h0, 4), "bw": fx(bw, U / L),
            "pts": pts, "tot": tot, "skip": skip, "axis": axis, "po": list(po), "ps": list(ps),
            "pw": rx(pw, tot / L * 1e6), "org": [rx(x, tot / L * 1e3) for x in org], "span": [rx(x, tot / L * 1e3) for x in span],
            "vals": [rx(x, sc) for x in vals]}


def num(x, L):
    return repr(x * L / U)


def region_text(r, L):
    t = ['[%s "%s"]' % (r["kind"], r["name"])]
    for d in range(3):
        if "X" in r:
            t.append("%s = %s" % ("XYZ"[d], num(r["X"][d], L)))
        if r["kind"] == "Box":
            t.append("%sWidth = %s" % ("XYZ"[d], num(r["W"][d], L)))
    if r["kind"] == "Ball":
        t.append("Radius = " + num(r["r"], L))
        if r["m"]:
            t.append("RadiusMultiplier = %d" % r["m"])
    if r["axis"]:
        t.append("ProjectionAxis = " + r["axis"])
    return "\n".join(t)


def config_text(c, d):
    t = ["[Render]", "Input = %s/in" % d if c["input"] else "", "Output = %s/out" % d if c["output"] else ""]
    for k, v in (("Quantity", c["q"]), ("TotalPixels", c["tp"]), ("ImagePixels", c["ip"]), ("Particles", c["pts"]),
                 ("ProjectionDepth", c["pd"]), ("PrependName", c["pre"]), ("AppendName", c["app"])):
        if v:
            t.append("%s = %s" % (k, v))
    if c["auto"]:
        t.append("AutoParticles = true")
    if c["skip"] != 1:
        t.append("SubsampleLength = %d" % c["skip"])
    if c.get("log"):
        t.append("LogFile = %s/log.txt" % d)
    return "\n".join(x for x in t if x) + "\n"


def session(ctx, binary, s, c):
    rng = random.Random(s * 31 + ctx.seed)
    d = place(rng, ctx.tmp, "rend%d" % s)
    os.makedirs(d + "/in")
    os.makedirs(d + "/out")
    L = float(c["L"])
    for i, sh in enumerate(c["sheets"]):
        write_sheet("%s/in/%s.dat" % (d, chr(97 + i)), L, sh, c["cosmo"])
    open(d + "/render.cfg", "w").write(respell(rng, config_text(c, d), d))
    if c.get("old"):
        open(d + "/out/old.txt", "w").write("old")
    # files of earlier runs under the names of this one
    stale = {}
    for r, size in zip(c["regions"], c.get("stale", [])):
        if size >= 0:
            stale[c["pre"] + r["name"] + c["app"] + ".gtet"] = b"\xa5" * size
    for f, b in stale.items():
        open(d + "/out/" + f, "wb").write(b)
    bf = []
    k = max([r["file"] for r in c["regions"]] + [-1]) + 1
    for i in range(k):
        p = "%s/bounds%d.cfg" % (d, i)
        open(p, "w").write("\n\n".join(region_text(r, L) for r in c["regions"] if r["file"] == i) + "\n")
        bf.append(p)
    if c["bounds"] == "missing":
        bf.append(d + "/nowhere.cfg")
    elif c["bounds"] == "none":
        bf = []
    cmd = [binary]
    if c["threads"]:
        cmd += ["-Threads", str(c["threads"])]
    cmd += {"Render": ["-Render", d + "/render.cfg"], "none": [], "nofile": ["-Render", d + "/norender.cfg"],
            "both": ["-Render", d + "/render.cfg", "-ConvertSnapshot", d + "/render.cfg"]}[c["mode"]] + bf
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=120)
        outcome, err = ("ok" if p.returncode == 0 else "refused"), p.stderr[-300:]
    except subprocess.TimeoutExpired:
        outcome, err = "hang", ""
    out = sorted(os.listdir(d + "/out"))
    old = open(d + "/out/old.txt").read() if "old.txt" in out else ""
    grids = [dict(read_gtet("%s/out/%s" % (d, f), L, c["sheets"][0]), name=f) for f in out if f.endswith(".gtet")]
    ev = dict(c, e="render", s=s, outcome=outcome, out=out, grids=grids, err=err, oldok=old == ("old" if c.get("old") else ""),
              stalenames=sorted(stale), kept=all(f in out and open(d + "/out/" + f, "rb").read() == b for f, b in stale.items()))
    shutil.rmtree(d)
    return ev


# ------------------------------------------------------------------ generation
def pos_ok(x, cells):
    return U % cells == 0 or x == 0 or (x * cells) % U != 0


def cells_of(c, W):
    if not c["ip"]:
        return {c["tp"]}
    w = max(W)
    lo = 2 * U * c["ip"] // w          # twice the exact value, rounded down
    return {lo // 2, lo // 2 + 1} if (2 * U * c["ip"]) % w == 0 and lo % 2 else {(2 * U * c["ip"] + w) // (2 * w)}


def gen_region(rng, c, k, near):
    for _ in range(400):
        axis = rng.choice(["", "", "X", "Y", "Z"])
        if rng.random() < .65:
            W = [rng.choice([rng.randint(1, 60), rng.randint(1, U), U]) for _ in range(3)]
            if rng.random() < .5:
                W = [W[0]] * 3
            X = [rng.choice([0, rng.randrange(U), U - 1]) for _ in range(3)]
            if near is not None and rng.random() < .7:
                X = [(p - rng.randint(0, w)) % U for p, w in zip(near, W)]
            r = {"kind": "Box", "X": X, "W": W, "r": 0, "m": 0}
            bx = X
        else:
            m = rng.choice([0, 0, 1, 2, 3])
            rad = rng.randint(1, U // 2 // max(m, 1))
            X = [rng.choice([rng.randrange(U), min(rad * max(m, 1), U - 1)]) for _ in range(3)]
            if near is not None and rng.random() < .7:
                X = [(p + rng.randint(-rad, rad)) % U for p in near]
            r = {"kind": "Ball", "X": X, "W": [2 * rad * max(m, 1)] * 3, "r": rad, "m": m}
            bx = [(x - rad * max(m, 1)) % U for x in X]
        W = r["W"]
        good = True
        for cells in cells_of(c, W):
            if not 1 <= cells * c["skip"] <= 1200 or not all(pos_ok(x, cells) and pos_ok(x + w, cells) for x, w in zip(bx, W)):
                good = False
                break
            vol = 1
            for d in range(3):
                sp = (bx[d] + W[d]) * cells // U + 1 - bx[d] * cells // U
                vol *= 1 if axis == "XYZ"[d] and c["q"] in ("Density", "Velocity") else sp
            good = good and vol <= c.get("maxvol", 300)
            # the derivative quantities need a few pixels in every direction
            if c["q"] not in ("Density", "Velocity"):
                good = good and all((bx[d] + W[d]) * cells // U + 1 - bx[d] * cells // U >= 5 for d in range(3))
        if good:
            name = rng.choice(["halo_%d", "my z slice %d", "A%d", "box.%d", "Ünï %d", "%d.gtet", "z=%d.txt", "%d.", " %d ", "%d%%", "-%d", "#%d"]) % k
            return dict(r, name=name, axis=axis, file=0)
    return None


def case(rng, bias=None):
    """A valid configuration (or None if no region fits)."""
    L = rng.choice(WIDTHS)
    q = rng.choice(["Density"] * 4 + ["Velocity"] * 3 + QS[2:])
    pixmode = bias or rng.choice(["tp", "tp", "ip", "both"])
    skip = rng.choice([1, 1, 2, 4])
    c = {"L": repr(float(L)), "q": q, "input": True, "output": True, "mode": "Render", "bounds": "ok",
         "tp": 0 if pixmode == "ip" else rng.choice([rng.randint(1, 40), 16, 32, 100, 500, 400, 1000]),
         "ip": 0 if pixmode == "tp" else rng.choice([1, 2, 3, rng.randint(1, 12), 10]),
         "pts": 0, "pd": 0, "auto": False, "pre": rng.choice(["", "", "pre_", "a b"]), "app": rng.choice(["", "", "_app", ".x"]),
         "skip": skip, "threads": rng.choice([0, 1, 2, 3, 8]), "log": rng.random() < .2, "old": rng.random() < .2}
    pm = rng.choice(["pts", "pts", "pts", "pd", "auto", "ptspd", "ptsauto"])
    if "pts" in pm:
        c["pts"] = rng.randint(1, 12)
    if "pd" in pm:
        c["pd"] = rng.randint(1, 8)
    if "auto" in pm:
        c["auto"] = True
    segw = 4 if c["skip"] == 4 else rng.choice([2, 4])
    c["cosmo"] = {"z": rng.randint(0, 80), "om": rng.randint(0, 16), "ol": rng.randint(0, 16), "h": rng.randint(8, 16)}
    c["sheets"] = []
    for _ in range(rng.randint(1, 5)):
        P = [rng.randrange(U) for _ in range(3)] if not c["sheets"] or rng.random() < .5 else list(rng.choice(c["sheets"])["P"])
        Wd = [rng.choice([0, 0, rng.randint(0, 100)] if skip == 1 else [0, rng.randint(40, 200)]) for _ in range(3)]
        O = [(p - rng.randint(0, w)) % U for p, w in zip(P, Wd)]
        c["sheets"].append({"P": P, "O": O, "Wd": Wd, "skip": skip, "decoy": [(o + rng.randint(0, w)) % U for o, w in zip(O, Wd)], "segw": segw, "cw": segw * rng.randint(1, 4),
                            "V": [rng.randint(-40, 40) for _ in range(3)]})
    for sh in c["sheets"]:
        sh["cw"] = c["sheets"][0]["cw"]
    c["regions"] = []
    for k in range(rng.choice([1, 1, 2, 3]) if rng.random() > .02 else rng.choice([12, 18, 34])):
        r = gen_region(rng, c, k, rng.choice(c["sheets"])["P"])
        if r is None:
            continue
        # particles stay away from the pixel edges of every box
        for cells in cells_of(c, r["W"]):
            for sh in c["sheets"]:
                if any((p * cells) % U * 8 < cells or (-p * cells) % U * 8 < cells for p in sh["P"]):
                    break
            else:
                continue
            break
        else:
            r["file"] = rng.randint(0, len(c["regions"]))
            c["regions"].append(r)
    # bounds files are numbered without holes
    used = sorted({r["file"] for r in c["regions"]})
    for r in c["regions"]:
        r["file"] = used.index(r["file"])
    c["stale"] = [rng.choice([-1, -1, -1, -1, 0, 100, 344, 400, 100000]) for _ in c["regions"]]
    return c if c["regions"] else None


def cases(rng, n, bias=None):
    out = []
    while len(out) < n:
        c = case(rng, bias)
        if c:
            out.append(c)
    return out


def runs(ctx, cs):
    binary = ctx.build(MAIN)
    with cf.ThreadPoolExecutor(max_workers=core.CORES) as ex:
        return list(ex.map(lambda a: session(ctx, binary, *a), enumerate(cs)))
