"""C04 Gadget-2 catalogues."""
import random, struct
from .gadget import catalogue, words, file_len


def content(rng, n, big_ids):
    B = 64 * rng.choice([1, 2, 5, 62, 100, 250, 1000])
    ids = []
    for i in range(n):
        r = rng.random()
        top = (1 << 40) if big_ids == 64 else (1 << 32) - 1
        ids.append(rng.randint(1, 200) if r < .5 else rng.randint(1, top) if r < .9 else rng.choice([top, 1 << 31, (1 << 31) - 1]))

    def pos():
        r = rng.random()
        if r < .3:
            return rng.choice([0, B - 1, B, -1, -B, 2 * B - 1, B // 2, -B // 2, B + 1])
        return rng.randint(-B, 2 * B - 1)
    # square roots of scale factors: quarters, or any of a great many close values
    ra, rden, vm = rng.choice([1, 2, 3, 4, 4]), 4, 40000
    if rng.random() < .5:
        rden, vm = 4096, 2000
        ra = rng.choice([4096, 4095, 2048 + rng.randint(-3, 3), 2896 + rng.randint(-2, 2), rng.randint(40, 4096)])
    c = {"pos": [pos() for _ in range(3 * n)], "vel": [rng.randint(-vm, vm) for _ in range(3 * n)],
         "ra": ra, "rden": rden, "box": B, "total": n + rng.choice([0, 0, 5, 1000]),
         "mass": rng.randint(1, 10 ** 6), "z": rng.randint(0, 999), "om": rng.randint(0, 64), "ol": rng.randint(0, 64),
         "h100": rng.randint(30, 64), "idv": ids}
    return c


def put(rng, f, n, enc=None, c=None):
    order, bx, bv, bi = enc or (rng.choice(["little", "big"]), rng.choice([4, 8]), rng.choice([4, 8]), rng.choice([4, 8]))
    c = c or content(rng, n, bi * 8)
    rec = {k: v for k, v in c.items() if k not in ("idv", "rden")}
    rec["ids"] = words(c["idv"])
    ev = {"e": "gput", "f": f, "c": rec, "bx": bx, "bv": bv, "bi": bi, "hex": catalogue(c, order, bx, bv, bi).hex()}
    return ev, (order, bx, bv, bi, n, 16 * c["rden"])


def reads(rng, f, st):
    r = [{"e": "gheader", "f": f, "order": st[0], "variant": "LGadget-2", "sc": 64},
         {"e": "gadget", "f": f, "order": st[0], "idsize": 8 * st[3], "variant": rng.choice(["LGadget-2", "Arepo-type-2"]), "sc": 64, "vsc": st[5]}]
    rng.shuffle(r)
    return r


def damage(rng, f, st):
    order, bx, bv, bi, n = st[:5]
    e = "<" if order == "little" else ">"
    off, b = rng.choice([(264, bx), (272 + 3 * n * bx, bv)])
    bad = [v for v in (12 * n + rng.choice([1, -1, 3, 12, -12]), 24 * n + rng.choice([12, -12, 24, -4]), 4 * n + 1, 0)
           if v not in (12 * n, 24 * n)]
    return {"e": "gdamage", "f": f, "off": off, "hex": struct.pack(e + "i", rng.choice(bad)).hex()}


ENCS = [(o, bx, bv, bi) for o in ("little", "big") for bx in (4, 8) for bv in (4, 8) for bi in (4, 8)]


def sessions(ctx):
    rng = random.Random(ctx.seed * 7919 + 4)
    out = []

    def add(evs):
        out.append([dict(e, s=len(out)) for e in [{"e": "begin"}] + evs])
    # the same content under every encoding
    for n in (0, 1, 2, 7) if ctx.quick else (0, 1, 2, 3, 7, 20, 64):
        for _ in range(2 if ctx.quick else 6):
            c = content(rng, n, 32)
            evs = []
            for enc in ENCS:
                p, st = put(rng, "a", n, enc, c)
                evs += [p] + reads(rng, "a", st)
            add(evs)
    # every truncation point
    for enc in (rng.sample(ENCS, 3) if ctx.quick else ENCS):
        n = rng.choice([1, 2])
        full = file_len(n, *enc[1:])
        c = content(rng, n, 8 * enc[3])
        ks = list(range(0, full + 1)) if not ctx.quick else sorted(set(list(range(0, 290, 7)) + list(range(255, full + 1))))
        for lo in range(0, len(ks), 20):
            evs = []
            for k in ks[lo:lo + 20]:
                p, st = put(rng, "a", n, enc, c)
                evs += [p, {"e": "cut", "f": "a", "k": k}] + reads(rng, "a", st)
            add(evs)
    # histories over two files
    for _ in range(60 if ctx.quick else 600):
        evs, st = [], {}
        for _ in range(rng.randint(3, 10)):
            f = rng.choice("ab")
            r = rng.random()
            if f not in st or r < .4:
                n = rng.choice([0, 1, 2, 3, 5, 8, 27, 64])
                p, s = put(rng, f, n)
                st[f] = [s, file_len(n, *s[1:4])]
                evs.append(p)
            elif r < .55 and st[f][1] > 300:
                s, ln = st[f]
                k = max(0, min(ln, ln - rng.choice([1, 3, 4, 5, 8, s[3], rng.randint(0, ln)])))
                st[f][1] = k
                evs.append({"e": "cut", "f": f, "k": k})
            elif r < .65 and st[f][1] == file_len(st[f][0][4], *st[f][0][1:4]) and st[f][0][4] > 0:
                evs.append(damage(rng, f, st[f][0]))
                evs += reads(rng, f, st[f][0])
                p, s = put(rng, f, 2)
                st[f] = [s, file_len(2, *s[1:4])]
                evs.append(p)
            evs += reads(rng, f, st[f][0])
        add(evs)
    # larger catalogues
    for n in ((1000,) if ctx.quick else (1000, 4096, 5000)):
        for enc in rng.sample(ENCS, 3):
            p, st = put(rng, "b", n, enc)
            full = file_len(n, *enc[1:])
            evs = [p] + reads(rng, "b", st)
            for k in (full - 4, full - 5, full - 4 - enc[3], full - 4096):
                evs += [{"e": "cut", "f": "b", "k": k}] + reads(rng, "b", st)
            add(evs)
    for n in ((70000,) if ctx.quick else (17000, 33000, 40000, 70000)):
        p, st = put(rng, "b", n, rng.choice(ENCS))
        add([p] + reads(rng, "b", st))
    return [e for s in out for e in s]


def run(ctx):
    ctx.model_check("GadgetFile")
    ev = ctx.drive_parallel(ctx.build("cmd/iod"), sessions(ctx))
    for e in ev:
        for k in ("hex", "msg", "stderr"):
            e.pop(k, None)
    ctx.sample(*[e for e in ev if e["e"] == "gadget" and len(e.get("ids", [])) in (1, 2)][3:6])
    ctx.validate("GadgetFileTrace", ev)
    rd = [e for e in ev if e["e"] in ("gadget", "gheader")]
    ctx.notes.update(truncations=sum(e["e"] == "cut" for e in ev), refused_reads=sum(e["outcome"] != "ok" for e in rd),
                     accepted_reads=sum(e["outcome"] == "ok" for e in rd))
