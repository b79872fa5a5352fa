"""C15 bounds files, example configurations, validity rules, whole commands."""
import concurrent.futures as cf
import os, random, re, shutil, subprocess
from .places import place, respell
from . import core, rcli
from .convert import MAIN, snapshot, write_snapshot
from .p_c14 import write_grid

U = 640
AXES = ["", "", "X", "Y", "Z", "x", "z", " x", "Y ", " X "]
BADAXES = ["W", "XY", "0", "x y", "-X", "none"]


def lit(rng, x, L):
    """a decimal of x 640ths of L, in one of several spellings"""
    s = repr(x * L / U)
    v = float(s)
    c = [s]
    if v == int(v) and abs(v) < 1e9:
        c += [str(int(v)), "%de0" % int(v)]
    c.append("%.25g" % v)
    return rng.choice(c)


def entry(rng, k, valid):
    bad = None if valid else rng.choice(["neg", "over", "zerow", "negw", "overw", "axis", "mult"])
    r = {"kind": rng.choice(["Box", "Ball"]), "name": rng.choice(["b%d", "halo %d", "my_slice.%d", "%d", "Ü%d", "a-b/%d"]) % k,
         "axis": rng.choice(AXES), "X": [rng.choice([0, rng.randrange(U), U - 1]) for _ in range(3)], "W": [0] * 3, "r": 0, "m2": 0}
    d = rng.randrange(3)
    if r["kind"] == "Box":
        r["W"] = [rng.choice([1, rng.randint(1, U), U]) for _ in range(3)]
        if bad in ("zerow", "negw", "overw"):
            r["W"][d] = {"zerow": 0, "negw": -rng.randint(1, U), "overw": U + rng.choice([1, 100, U])}[bad]
    else:
        r["m2"] = rng.choice([0, 0, 1, 2, 3, 4, 6])
        m = r["m2"] or 2
        r["r"] = 2 * rng.randint(1, U // m // 2)
        if rng.random() < .3:
            r["r"] = max(2, U // m // 2 * 2)
        if rng.random() < .4:
            r["X"][d] = r["r"] * m // 2 % U                # touches the lower face
        if bad in ("zerow", "negw"):
            r["r"] = 0 if bad == "zerow" else -2 * rng.randint(1, 100)
        elif bad == "overw":
            r["r"] = (U // m // 2 + rng.randint(1, 50)) * 2
        elif bad == "mult":
            r["m2"] = -rng.randint(1, 4)
    if bad == "neg":
        r["X"][d] = -rng.choice([1, U, rng.randint(1, U)])
    elif bad == "over":
        r["X"][d] = U + rng.choice([0, 1, rng.randint(0, U)])
    elif bad == "axis":
        r["axis"] = rng.choice(BADAXES)
    return r


def text(rng, r, L):
    f = [("%s" % "XYZ"[d], lit(rng, r["X"][d], L)) for d in range(3)]
    if r["kind"] == "Box":
        f += [("%sWidth" % "XYZ"[d], lit(rng, r["W"][d], L)) for d in range(3)]
    else:
        f.append(("Radius", lit(rng, r["r"], L)))
        if r["m2"]:
            f.append(("RadiusMultiplier", repr(r["m2"] / 2)))
    if r["axis"]:
        f.append(("ProjectionAxis", '"%s"' % r["axis"] if r["axis"] != r["axis"].strip() or " " in r["axis"] or rng.random() < .3 else r["axis"]))
    rng.shuffle(f)
    out = ['[%s "%s"]' % (r["kind"], r["name"])]
    for k, v in f:
        out.append(rng.choice(["%s = %s", "%s=%s", "  %s  =  %s", "%s = %s # note", "%s = %s ; note"]) % (rng.choice([k, k, k.lower(), k.upper()]), v))
        if rng.random() < .1:
            out.append(rng.choice(["# comment", "", "; comment"]))
    return "\n".join(out)


def bounds(rng, s):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    ok = rng.random() < .6
    rs = [entry(rng, k, True) for k in range(n)]
    if not ok and n:
        rs[rng.randrange(n)] = entry(rng, 99, False)
    if n > 1 and rng.random() < .3:                        # a box and a ball of the same name
        rs[0], rs[1] = [dict(entry(rng, 7, True), name="same") for _ in range(2)]
        while rs[0]["kind"] == rs[1]["kind"]:
            rs[1] = dict(entry(rng, 7, True), name="same")
    L = rng.choice(rcli.WIDTHS)
    t = "\n\n".join(text(rng, r, L) for r in rs) + "\n"
    broken = False
    if rng.random() < .08:
        broken = True
        t += rng.choice(['[Cone "a"]\nX = 1\n', '[Box "q"]\nX = 1\nY = 1\nZ = 1\nXWidth = 1\nYWidth = 1\nZWidth = 1\nDepth = 3\n',
                         '[Box "q"]\nX = one\n', '[Ball "q"\nX = 1\n', 'X = 1\n' if not rs else '[Box "q"]\nX = \n'])
    return {"e": "bounds", "s": s, "u": U, "L": repr(float(L)), "text": t, "regions": rs, "broken": broken}


# ------------------------------------------------------------------ examples
def parameters(txt):
    """(name, value, enabled, line number) of the parameter lines of an example"""
    out = []
    for i, l in enumerate(txt.split("\n")):
        m = re.match(r"^(# )?([A-Z][A-Za-z0-9]*)\s*=\s*(.*?)\s*$", l)
        if m and not (m.group(1) and " " in m.group(3)):
            out.append((m.group(2), m.group(3), not m.group(1), i))
    return out


def norm(v):
    if re.match(r"^[-+]?[0-9.]+([eE][-+]?[0-9]+)?$", v):
        return "%.17g" % float(v)
    return v


def examples(ctx, binary, rng):
    ev, txt = [], {}
    for k, arg in enumerate(["Render", "ConvertSnapshot", "TetraHist", "Box", "Ball", "render", "Bounds", "Cone", "box ", ""]):
        p = subprocess.run([binary, "-ExampleConfig", arg], capture_output=True, text=True, cwd=ctx.tmp)
        txt[arg] = p.stdout
        m = re.match(r"^\[(\w+)", p.stdout)
        ev.append({"e": "example", "s": k, "arg": arg, "outcome": "ok" if p.returncode == 0 else "refused", "head": m.group(1) if m else ""})
    rows = []
    for k, g in enumerate(ctx.generate("ConfigGen")):
        lines, on = txt[g["sec"]].split("\n"), set(g["on"])
        shown = {}
        for name, val, enabled, i in parameters(txt[g["sec"]]):
            shown[name] = norm(val)
            if name in on and not enabled:
                lines[i] = lines[i][2:]
        t = "\n".join(lines) + rng.choice(["", "\n"])
        if g["sec"] in ("Box", "Ball"):
            v = lambda n: round(float(shown.get(n, "0")) * 1000)
            m = re.match(r'^\[\w+ "([^"]*)"\]', t)
            r = {"kind": g["sec"], "name": m.group(1) if m else "?", "axis": shown.get("ProjectionAxis", "") if "ProjectionAxis" in on else "",
                 "X": [v(a) for a in "XYZ"], "W": [v(a + "Width") for a in "XYZ"], "r": v("Radius"),
                 "m2": round(2 * float(shown.get("RadiusMultiplier", "0"))) if "RadiusMultiplier" in on else 0}
            rows.append({"e": "exregion", "s": 1000 + k, "sec": g["sec"], "u": 10 ** 6, "L": "1000.0", "text": t, "regions": [r], "broken": False,
                         "shown": sorted(shown), "on": g["on"]})
        else:
            rows.append({"e": "parse", "s": 1000 + k, "sec": g["sec"], "text": t, "on": g["on"], "shown": shown})
    return ev, rows


# ------------------------------------------------------------------ validity rules
def number(rng):
    b = 1 << rng.randrange(31)
    return rng.choice([-2147483647, -1, 0, 1, 2, 3, b, b - 1, b + 1 if b < 1 << 30 else b, -b, rng.randint(-100, 100), 32, 64, rng.randint(1, 1 << 30)])


def valid(rng, s):
    sec = rng.choice(["Render", "ConvertSnapshot", "TetraHist"])
    name = lambda: rng.choice(["", "a", "some/path", " x"])
    f = {k: name() for k in ("in", "out", "log", "prof", "iin", "iout", "grid")}
    f.update({k: number(rng) for k in ("tp", "pts", "ip", "pd", "skip", "cells", "idsize", "start", "end", "bins")})
    f["q"] = rng.choice(["Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl", "", "Mass", "Densities", "EndQuantity"])
    f["fmt"] = rng.choice(["", "LGadget-2", "Arepo-type-2", "x"])
    f["scale"] = rng.choice(["Linear", "Log", "Linear", "Log", "", "Cubic"])
    a, b = rng.randint(-40, 40), rng.randint(-40, 40)
    f["min"], f["max"] = rng.choice([(a, b), (min(a, b), max(a, b)), (a, a), (0, abs(b)), (1, 2)])
    return {"e": "valid", "s": s, "sec": sec, "f": f}


# ------------------------------------------------------------------ commands
BREAK = ["[%s]\nFrobnicate = 3\n", "\n[Other%s]\nInput = a\n", "\n[%s\n"]


def command(ctx, binary, s, rng):
    d = place(rng, ctx.tmp, "conf%d" % s)
    os.makedirs(d + "/out")
    kind = rng.choice(["ConvertSnapshot", "TetraHist", "TetraHist", "Render", "Render"])
    c = {"s": s, "broken": False, "log": rng.random() < .3, "prof": rng.random() < .15, "input": True, "output": True, "bounds": "ok", "pre": "", "app": ""}
    t = []
    n = rng.choice([0, 0, 1, 1, 2])                # how many parameters to spoil
    if kind == "ConvertSnapshot":
        c.update(e="convertcli", iinput=False, ioutput=False, cells=rng.choice([1, 2, 4]), idsize=64, fmt=rng.choice(["LGadget-2", "Arepo-type-2"]))
        if rng.random() < .3:
            c.update(iinput=True, ioutput=True, input=rng.random() < .3, output=rng.random() < .3)
        for _ in range(n):
            c.update(rng.choice([{"input": False}, {"output": False}, {"cells": rng.choice([0, -1, -2])}, {"idsize": rng.choice([0, 16, 63, 128, -32])},
                                 {"fmt": rng.choice(["", "Gadget-2", "lgadget-2", "LGadget", "Arepo"])}, {"iinput": not c["iinput"]}, {"ioutput": not c["ioutput"]}]))
        bi = rng.choice([4, 8])
        if c["idsize"] == 64:
            c["idsize"] = 8 * bi
        write_snapshot(rng, d + "/in000", snapshot(rng, 4), bi)
        os.makedirs(d + "/out000")
        t += ["Input = %s/in000" % d] * c["input"] + ["Output = %s/out" % d] * c["output"]
        t += ["IteratedInput = %s/in%%03d" % d] * c["iinput"] + ["IteratedOutput = %s/out%%03d" % d] * c["ioutput"]
        t += ["InputFormat = " + c["fmt"]] * (c["fmt"] != "") + ["Cells = %d" % c["cells"]] * (c["cells"] != 0 or rng.random() < .5)
        t += ["Gadget2IDSize = %d" % c["idsize"]] * (c["idsize"] != 64 or rng.random() < .5)
    else:
        cosmo = {"z": 0, "om": 4, "ol": 12, "h": 10}
        os.makedirs(d + "/in")
        sh = {"P": [100, 100, 100], "O": [100, 100, 100], "Wd": [0] * 3, "decoy": [100] * 3, "V": [0] * 3, "segw": 2, "cw": 4, "skip": 1}
        rcli.write_sheet(d + "/in/a.dat", 100., sh, cosmo)
        c["skip"] = rng.choice([1, 1, 2])
        c["q"], c["pts"] = "Density", rng.randint(1, 5)
        c["pre"], c["app"] = rng.choice(["", "p_"]), rng.choice(["", "_a"])
        bad = [{"input": False}, {"output": False}, {"skip": rng.choice([0, -1, 3, 6, -2, 12])}, {"q": rng.choice(["", "Mass", "Densit"])},
               {"pts": rng.choice([0, -1])}, {"bounds": rng.choice(["none", "missing", "invalid", "syntax"])}]
        if kind == "TetraHist":
            scale = rng.choice(["Linear", "Log"])
            lo = rng.randint(1, 40) if scale == "Log" else rng.randint(-40, 40)
            c.update(e="tetrahistcli", grid=True, scale=scale, min=lo, max=lo + rng.randint(1, 40), bins=rng.randint(1, 20))
            bad += [{"grid": False}, {"scale": rng.choice(["", "Cubic", "Lin"])}, {"bins": rng.choice([0, -3])}, {"max": c["min"]},
                    {"max": c["min"] - 3}, {"min": rng.choice([0, -8])}]
        else:
            c.update(e="rendercli", tp=rng.randint(1, 20), ip=0, pd=0, auto=False)
            c.update(rng.choice([{}, {}, {"tp": 0, "ip": rng.randint(1, 5)}, {"ip": 2}]))
            c.update(rng.choice([{}, {}, {"pts": 0, "pd": 2}, {"pts": 0, "auto": True}]))
            bad += [{"tp": rng.choice([0, -1])}, {"tp": 0, "ip": 0}, {"ip": -4}, {"pts": 0, "pd": 0, "auto": False}, {"pd": -1, "pts": 0}]
        for _ in range(n):
            c.update(rng.choice(bad))
        g = {"cells": 4, "org": [0] * 3, "span": [4] * 3, "axis": -1, "cut": 0, "vals": [8] * 64}
        write_grid(d + "/grid.gtet", g, "Linear", 100., cosmo)
        t += ["Input = %s/in" % d] * c["input"] + ["Output = %s/out" % d] * c["output"] + ["Quantity = " + c["q"]] * (c["q"] != "")
        t += ["SubsampleLength = %d" % c["skip"]] * (c["skip"] != 1 or rng.random() < .3) + ["Particles = %d" % c["pts"]] * (c["pts"] != 0)
        t += ["PrependName = " + c["pre"]] * (c["pre"] != "") + ["AppendName = " + c["app"]] * (c["app"] != "")
        if kind == "TetraHist":
            t += ["HistMin = %r" % (c["min"] / 8), "HistMax = %r" % (c["max"] / 8), "HistBins = %d" % c["bins"]]
            t += ["HistScale = " + c["scale"]] * (c["scale"] != "") + ["GridFile = %s/grid.gtet" % d] * c["grid"]
        else:
            t += ["TotalPixels = %d" % c["tp"]] * (c["tp"] != 0) + ["ImagePixels = %d" % c["ip"]] * (c["ip"] != 0)
            t += ["ProjectionDepth = %d" % c["pd"]] * (c["pd"] != 0) + ["AutoParticles = true"] * c["auto"]
    t += ["LogFile = %s/run.log" % d] * c["log"] + ["ProfileFile = %s/run.prof" % d] * c["prof"]
    rng.shuffle(t)
    conf = "[%s]\n%s\n" % (kind, "\n".join(t))
    path = d + "/run.cfg"
    how = "missing" if rng.random() < .03 else "text" if rng.random() < .06 else ""
    if how:
        c["broken"] = True
    if how == "text":
        conf += rng.choice(BREAK) % kind
    if how != "missing":
        open(path, "w").write(respell(rng, conf, d))
    cmd = [binary] + ["-Threads", str(rng.randint(1, 4))] * (rng.random() < .5) + ["-" + kind, path]
    if kind != "ConvertSnapshot":
        w = {"ok": "10", "invalid": rng.choice(["0", "-3", "101"]), "syntax": "wide"}.get(c["bounds"], "10")
        open(d + "/bounds.cfg", "w").write('[Box "b"]\nX = 10\nY = 10\nZ = 10\nXWidth = %s\nYWidth = 10\nZWidth = 10\n' % w)
        cmd += {"none": [], "missing": [d + "/nowhere.cfg"]}.get(c["bounds"], [d + "/bounds.cfg"])
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=120)
        c["outcome"], c["err"] = ("ok" if p.returncode == 0 else "refused"), p.stderr[-300:]
    except subprocess.TimeoutExpired:
        c["outcome"], c["err"] = "hang", ""
    c["wrote"] = sorted(os.listdir(d + "/out")) + (sorted(os.listdir(d + "/out000")) if os.path.isdir(d + "/out000") else [])
    c["logged"], c["profiled"] = os.path.exists(d + "/run.log"), os.path.exists(d + "/run.prof")
    c["text"] = conf
    shutil.rmtree(d)
    return c


def run(ctx):
    ctx.model_check("Config")
    rng = random.Random(ctx.seed * 15013 + 15)
    binary = ctx.build(MAIN)
    ev, rows = examples(ctx, binary, rng)
    rows += [bounds(rng, 10000 + k) for k in range(2500 if ctx.quick else 60000)]
    rows += [valid(rng, 200000 + k) for k in range(1500 if ctx.quick else 30000)]
    ev += ctx.drive_parallel(ctx.build("cmd/confd"), rows)
    seeds = [(400000 + k, random.Random(ctx.seed * 31337 + k)) for k in range(400 if ctx.quick else 6000)]
    with cf.ThreadPoolExecutor(max_workers=core.CORES) as ex:
        ev += list(ex.map(lambda a: command(ctx, binary, *a), seeds))
    for e in ev:
        if e["e"] == "valid":
            e.setdefault("v", {})
        for k in ("L", "msg"):
            e.pop(k, None)
    ctx.notes["by kind"] = {k: sum(e["e"] == k for e in ev) for k in sorted({e["e"] for e in ev})}
    ctx.notes["refused"] = sum(e["outcome"] in ("err", "refused") for e in ev)
    ctx.sample(*[next(e for e in ev if e["e"] == k) for k in ("bounds", "parse", "valid", "convertcli", "tetrahistcli")])
    for e in ev:
        e.pop("text", None)
        e.pop("err", None)
    ctx.validate("ConfigTrace", ev)
    ctx.assumptions += ["positions and widths are finite numbers given for every required field of a bounds entry",
                        "names differ in letter case at most within one kind of entry"]
