"""C05 sheet files."""
import random, struct

HB, VB = 160, 12
SPECIAL = [0, -2147483648, 1, -1, 0x7f800000, -8388608, 0x7fc00001, 0x3f800000, 8388607, -2139095041]


def word(rng):
    r = rng.random()
    if r < .15:
        return rng.choice(SPECIAL)
    if r < .3:
        return rng.randint(-300, 300)
    return rng.randint(-2147483648, 2147483647)


def header(rng, gw, exact=None):
    """38 little-endian words of a SheetHeader whose grid is gw^3, and what must be reported."""
    cw = rng.choice([gw - 1, 2 * (gw - 1), 8, 64, 100, 512, 1024, rng.randint(1, 1200)])
    fl = [struct.unpack("<2i", struct.pack("<d", rng.uniform(-1e3, 1e3))) for _ in range(6)]
    cells = rng.choice([1, 2, 3, 12])

    def i64(x):
        return struct.unpack("<2i", struct.pack("<q", x))
    count = rng.choice([0, 7, cw ** 3, -5])
    ints = [count, cw, gw - 1, gw, gw ** 3, rng.randint(0, cells ** 3 - 1), cells]
    vec = [word(rng) for _ in range(12)]
    # signalling NaNs lose that bit in encoding/binary; bounds are not NaNs
    vec = [w if (w & 0x7f800000) != 0x7f800000 else w & 0x0fffffff for w in vec]

    def words(cnt):
        o = [w for f in fl[:4] for w in f]
        for v in [cnt] + ints[1:]:
            o += i64(v)
        o += [w for f in fl[4:] for w in f]
        return o + vec
    return words(count), words(cw ** 3)


def write(rng, f, gw):
    n = 3 * gw ** 3
    h, hexp = header(rng, gw)
    return {"e": "write", "f": f, "h": h, "hexp": hexp, "gw": gw,
            "xs": [word(rng) for _ in range(n)], "vs": [word(rng) for _ in range(n)]}


def reads(rng, f, gw, wrong=False):
    n = gw ** 3
    if wrong:
        n = rng.choice([0, n - 1, n + 1, 2 * n, (gw + 1) ** 3, (gw - 1) ** 3])
        n = max(0, n)
    r = [{"e": "rdh", "f": f}, {"e": "rdx", "f": f, "n": n}, {"e": "rdv", "f": f, "n": n}]
    rng.shuffle(r)
    return r


def sessions(ctx):
    rng = random.Random(ctx.seed * 104729 + 5)
    out = []

    def add(evs):
        s = len(out)
        out.append([dict(e, s=s) for e in [{"e": "begin"}] + evs])
    # every crash point of a small file, in both byte orders
    for gw in ((2,) if ctx.quick else (1, 2, 3)):
        for big in (False, True):
            full = HB + 2 * VB * gw ** 3
            step = 1 if not big or not ctx.quick else 3
            for lo in range(0, full + 1, 24):
                evs = []
                for k in range(lo, min(full + 1, lo + 24), step):
                    evs += [write(rng, "a.dat", gw)] + ([{"e": "big", "f": "a.dat"}] if big else [])
                    evs += [{"e": "cut", "f": "a.dat", "k": k}] + reads(rng, "a.dat", gw)
                add(evs)
    # histories
    for _ in range(60 if ctx.quick else 400):
        evs, gws = [], {}
        for _ in range(rng.randint(4, 14)):
            f = rng.choice(["a.dat", "b.dat"])
            r = rng.random()
            if f not in gws:
                if r < .15:
                    evs += reads(rng, f, 2)      # missing file
                    continue
                gw = rng.choice([1, 2, 2, 3, 3, 4, 5])
                evs.append(write(rng, f, gw))
                gws[f] = [gw, HB + 2 * VB * gw ** 3, False]
            elif r < .2:
                gw = rng.choice([1, 2, 2, 3, 4])
                evs.append(write(rng, f, gw))
                gws[f] = [gw, HB + 2 * VB * gw ** 3, False]
            elif r < .65:
                evs += reads(rng, f, gws[f][0], rng.random() < .25)
            elif r < .73:
                gw, ln, big = gws[f]
                k = rng.choice([ln - 1, HB + VB * gw ** 3, HB + VB * gw ** 3 - 1, HB, HB - 1, 8, 7, 4, 3, 0, rng.randint(0, ln)])
                k = max(0, min(ln, k))
                gws[f][1] = k
                evs.append({"e": "cut", "f": f, "k": k})
            elif r < .8 and not gws[f][2] and gws[f][1] >= HB:
                evs.append({"e": "big", "f": f})
                gws[f][2] = True
            elif r < .87 and not gws[f][2] and gws[f][1] >= 8:
                gws[f][2] = True        # foreign once, and not re-encoded afterwards
                evs.append({"e": "foreign", "f": f, "d": rng.choice([-8, 8, 1, -1, 100, -152])})
            elif r < .92:
                evs.append({"e": "remove", "f": f})
                evs += reads(rng, f, gws[f][0])
                del gws[f]
        for f in gws:
            evs += reads(rng, f, gws[f][0])
        add(evs)
    # realistic sizes
    for gw in ((9, 17) if ctx.quick else (9, 16, 17, 20, 25)):
        full = HB + 2 * VB * gw ** 3
        evs = [write(rng, "a.dat", gw)] + reads(rng, "a.dat", gw)
        for k in (full - 1, full - 4, full - VB, HB + VB * gw ** 3 + 4096, HB + VB * gw ** 3, HB + VB * gw ** 3 - 1):
            evs += [{"e": "cut", "f": "a.dat", "k": k}] + reads(rng, "a.dat", gw)
        add(evs)
        add([write(rng, "b.dat", gw), {"e": "big", "f": "b.dat"}] + reads(rng, "b.dat", gw))
    # large ones
    for gw in ((26, 41) if ctx.quick else (26, 33, 41, 52)):
        add([write(rng, "a.dat", gw)] + reads(rng, "a.dat", gw))
    return [e for s in out for e in s]


def run(ctx):
    ctx.model_check("SheetFile")
    rows = sessions(ctx)
    ev = ctx.drive_parallel(ctx.build("cmd/iod"), rows)
    small = [e for e in ev if e["e"] in ("cut", "rdx") and len(e.get("out", [])) < 30]
    ctx.sample(*small[100:104])
    for e in ev:
        e.pop("h", None) if e["e"] == "write" else None
        e.pop("msg", None)
        e.pop("stderr", None)
    ctx.validate("SheetFileTrace", ev)
    ctx.notes["crash_points"] = sum(e["e"] == "cut" for e in ev)
    ctx.notes["refused_reads"] = sum(e["e"][:2] == "rd" and e["outcome"] != "ok" for e in ev)
    ctx.notes["accepted_reads"] = sum(e["e"][:2] == "rd" and e["outcome"] == "ok" for e in ev)
