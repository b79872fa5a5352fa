"""C26 commands whose writes fail, or which are killed, and what a later run makes of it."""
import concurrent.futures as cf
import hashlib, os, random, resource, shutil, struct, subprocess, time
from .places import place, respell
from . import core, rcli
from .convert import MAIN, snapshot, write_snapshot, divisors
from .p_c14 import write_grid

U = 640


def digest(d):
    """fingerprint of a directory tree"""
    h = hashlib.sha1()
    for base, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            h.update(os.path.relpath(os.path.join(base, f), d).encode() + b"\0" + open(os.path.join(base, f), "rb").read() + b"\0")
    return h.hexdigest()


def same(a, b, name):
    if a == b:
        return True
    if not name.endswith(".gtet") or len(a) != len(b) or a[:344] != b[:344] or (len(a) - 344) % 4:
        return False
    # sums taken in another order may differ in their last digits
    n = (len(a) - 344) // 4
    return all(abs(x - y) <= 1e-5 * max(abs(x), abs(y)) for x, y in zip(struct.unpack("<%df" % n, a[344:]), struct.unpack("<%df" % n, b[344:])))


# ------------------------------------------------------------------ inputs
def convert_case(rng, d):
    n = rng.choice([1, 2, 4, 6, 8, 12])
    bi = rng.choice([4, 8])
    it = rng.random() < .3
    outs = []
    for k in range(2 if it else 1):
        write_snapshot(rng, "%s/in/%03d" % (d, k), snapshot(rng, n), bi)
        outs.append("%03d" % k)
    t = ["[ConvertSnapshot]", "InputFormat = LGadget-2", "Cells = %d" % rng.choice(divisors(n)[:5]), "Gadget2IDSize = %d" % (8 * bi)]
    if it:
        t += ["IteratedInput = %s/in/%%03d" % d, "IteratedOutput = @OUT@/%03d", "IterationEnd = 1"]
    else:
        t += ["Input = %s/in/000" % d, "Output = @OUT@/000"]
    return "ConvertSnapshot", t, [], d + "/in/000", outs


def sheets(rng, d, L):
    cosmo = {"z": 0, "om": 4, "ol": 12, "h": 10}
    segw = rng.choice([1, 2])
    P = [rng.randrange(U) // 8 * 8 + 3 for _ in range(3)]
    os.makedirs(d + "/in")
    for k in range(rng.randint(1, 4)):
        Q = [(p + rng.choice([0, 0, 8, -8])) % U for p in P]
        rcli.write_sheet("%s/in/%c.dat" % (d, 97 + k), L, {"P": Q, "O": Q, "Wd": [0] * 3, "decoy": Q, "V": [rng.randint(-9, 9) for _ in range(3)],
                                                          "segw": segw, "cw": 4, "skip": 1}, cosmo)
    return P, cosmo


def regions(rng, d, P, L, most):
    rs = []
    for k in range(rng.randint(1, 3)):
        W = [rng.choice([8, 24, 8 * rng.randint(1, most)]) for _ in range(3)]
        rs.append({"kind": "Box", "name": "r%d" % k, "X": [(p // 8 * 8 - 8 * rng.randint(0, (w - 8) // 8)) % U for p, w in zip(P, W)], "W": W, "axis": "", "r": 0, "m": 0})
    open(d + "/bounds.cfg", "w").write("\n\n".join(rcli.region_text(r, L) for r in rs) + "\n")


def named(rng, t):
    """output names with something in front and behind"""
    return t + ["PrependName = " + rng.choice(["a_", "x"])] * (rng.random() < .4) + ["AppendName = " + rng.choice(["_b", "z"])] * (rng.random() < .4)


def render_case(rng, d):
    L = 100.
    P, _ = sheets(rng, d, L)
    regions(rng, d, P, L, 12)
    q = rng.choice(["Density", "Density", "Velocity"])
    t = ["[Render]", "Quantity = " + q, "TotalPixels = 80", "Particles = %d" % rng.choice([1, 2, 4]), "Input = %s/in" % d, "Output = @OUT@"]
    return "Render", named(rng, t), [d + "/bounds.cfg"], d + "/in", [""]


def hist_case(rng, d):
    L = 100.
    P, cosmo = sheets(rng, d, L)
    regions(rng, d, P, L, 60)
    write_grid(d + "/grid.gtet", {"cells": 4, "org": [0] * 3, "span": [4] * 3, "axis": -1, "cut": 0, "vals": [8 * rng.randint(0, 9) for _ in range(64)]}, "Linear", L, cosmo)
    t = ["[TetraHist]", "Quantity = Density", "HistMin = 0", "HistMax = 20", "HistBins = %d" % rng.choice([1, 7, 50, 600, 1500]), "HistScale = Linear",
         "Particles = %d" % rng.randint(1, 4), "Input = %s/in" % d, "Output = @OUT@", "GridFile = %s/grid.gtet" % d]
    return "TetraHist", named(rng, t), [d + "/bounds.cfg"], d + "/in", [""]


# ------------------------------------------------------------------ attempts
def execute(cmd, d, limit=None, kill=None):
    pre = None
    if limit is not None:
        pre = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre)
    try:
        if kill is not None:
            try:
                p.wait(timeout=kill)
            except subprocess.TimeoutExpired:
                p.kill()
        p.wait(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return "hang"
    return "ok" if p.returncode == 0 else "killed" if p.returncode == -9 else "refused"


def files(d):
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = b"" if os.path.islink(p) else open(p, "rb").read()
    return out


def session(ctx, binary, s, seed):
    rng = random.Random(seed)
    d = place(rng, ctx.tmp, "fault%d" % s)
    os.makedirs(d)
    mode, t, bounds, indir, outs = rng.choice([convert_case, render_case, render_case, hist_case])(rng, d)

    def command(out):
        p = "%s/%s.cfg" % (d, out)
        open(p, "w").write(respell(rng, "\n".join(t).replace("@OUT@", "%s/%s" % (d, out)) + "\n", d))
        return [binary, "-Threads", str(rng.randint(1, 4)), "-" + mode, p] + bounds
    for o in outs:
        os.makedirs("%s/ref/%s" % (d, o))
        os.makedirs("%s/out/%s" % (d, o))
    t0 = time.time()
    first = execute(command("ref"), d)
    took = time.time() - t0
    ref = files(d + "/ref")
    names = sorted(ref)
    ev = [{"e": "plan", "mode": mode, "outcome": first, "names": names, "sizes": [len(ref[n]) for n in names]}]
    if first != "ok" or not names:
        shutil.rmtree(d)
        return [dict(e, s=s) for e in ev]
    by = {}
    if rng.random() < .5:
        by[os.path.join(outs[0], "old.txt")] = b"old"
        open("%s/out/%s" % (d, list(by)[0]), "wb").write(b"old")
    cmd = command("out")
    inputs = [indir, "%s/in" % d]
    before = digest(d + "/in"), open(d + "/out.cfg", "rb").read(), [open(b, "rb").read() for b in bounds]
    big = max(len(b) for b in ref.values())
    state = lambda cur: ["absent" if n not in cur else "complete" if same(cur[n], ref[n], n) else "partial" for n in names]
    prev = state(files(d + "/out"))
    for k in range(rng.randint(1, 4)):
        a = {"e": "attempt", "fault": rng.choice(["none", "limit", "limit", "limit", "full", "dir", "kill", "kill", "stray", "noin", "noout", "junk"]), "limit": 0, "file": 0}
        if k == 0 and a["fault"] == "none":
            a["fault"] = "limit"
        f = a["fault"]
        i = rng.randrange(len(names))
        target = "%s/out/%s" % (d, names[i])
        if f == "noout" and mode == "ConvertSnapshot":      # makes its own directories
            f = a["fault"] = "kill"
        put = None
        if f in ("full", "dir", "junk"):
            a["file"] = i + 1
            if os.path.exists(target):
                os.remove(target)
            if f == "full":
                os.symlink("/dev/full", target)
            elif f == "dir":
                os.makedirs(target)
            else:
                open(target, "wb").write(b"\xa5" * rng.choice([0, 1, len(ref[names[i]]), 2 * len(ref[names[i]])]))
            prev[i] = "absent" if f != "junk" else "partial"
            if f == "junk" and len(ref[names[i]]) == 0:
                prev[i] = "partial"
        if f == "limit":
            L = len(ref[names[i]])
            a["limit"] = max(0, rng.choice([big - 1, big, big + 1, 0, 1, 344, 343, 160, 4096, 4095, big // 2, L // 2, L - 4, rng.randint(0, big)]))
            got = execute(cmd, d, limit=a["limit"])
        elif f == "kill":
            got = execute(cmd, d, kill=rng.choice([rng.random() * took * 1.3, took * (.5 + .5 * rng.random())]))
        elif f == "stray":
            put = rng.choice(inputs[:1]) + "/" + rng.choice(["zz", "AA", "b5", "snap.9"])
            if rng.random() < .5:
                os.makedirs(put)
            else:
                open(put, "wb").write(rng.choice([b"", b"notes\n"]))
            got = execute(cmd, d)
            shutil.rmtree(put) if os.path.isdir(put) else os.remove(put)
        elif f == "noin":
            os.rename(indir, d + "/away")
            got = execute(cmd, d)
            os.rename(d + "/away", indir)
        elif f == "noout":
            got = execute(command("nowhere"), d)
            if os.path.exists(d + "/nowhere"):
                got = "made"
        else:
            got = execute(cmd, d)
        if f in ("full", "dir"):
            os.remove(target) if os.path.islink(target) or os.path.isfile(target) else os.rmdir(target)
        cur = files(d + "/out")
        a.update(outcome=got, before=prev, state=state(cur), kept=(digest(d + "/in"), open(d + "/out.cfg", "rb").read(), [open(b, "rb").read() for b in bounds]) == before,
                 others=sorted(n for n in cur if n not in names and cur[n] != by.get(n)) + sorted(n for n in by if n not in cur))
        prev = list(a["state"])
        ev.append(a)
    a = {"e": "attempt", "fault": "none", "limit": 0, "file": 0, "outcome": execute(cmd, d), "before": prev}
    cur = files(d + "/out")
    a.update(state=state(cur), kept=True, others=sorted(n for n in cur if n not in names and cur[n] != by.get(n)) + sorted(n for n in by if n not in cur))
    ev.append(a)
    shutil.rmtree(d)
    return [dict(e, s=s) for e in ev]


def run(ctx):
    ctx.model_check("OutputRun")
    binary = ctx.build(MAIN)
    n = 700 if ctx.quick else 5000
    with cf.ThreadPoolExecutor(max_workers=core.CORES) as ex:
        ev = [e for es in ex.map(lambda k: session(ctx, binary, k, ctx.seed * 104729 + k), range(n)) for e in es]
    at = [e for e in ev if e["e"] == "attempt"]
    ctx.notes["attempts by fault and outcome"] = {"%s %s" % k: sum((e["fault"], e["outcome"]) == k for e in at) for k in sorted({(e["fault"], e["outcome"]) for e in at})}
    ctx.notes["attempts which found incomplete files"] = sum("partial" in e["before"] for e in at)
    ctx.sample(*ev[:6])
    ctx.validate("OutputRunTrace", ev)
    ctx.assumptions += ["write errors are injected by a file size limit (any byte offset) or by /dev/full under an output's name; kills are SIGKILL at random times",
                        "grid values are compared to 1e-5, as sums may be taken in any order"]
