"""C11 tetrahedra: cube subdivision, folding, the tetrahedron object."""
import random


def units(rng, cases):
    """a tetrahedron may be given in any unit"""
    for c in cases:
        if c["e"] == "tet" and rng.random() < .6:
            c["u2"] = rng.choice([-30, -16, -13, -8, -1, 3, 10, 20])
        yield c


def objects(rng, n):
    """histories of one tetrahedron object that is given new corners again and again"""
    for s in range(n):
        r = rng.choice([1, 2, 3, 8, 8])
        first = True
        for _ in range(rng.randint(1, 4)):
            off = rng.choice([0, 0, -5, 7])
            c = [[rng.randint(0, r) + off for _ in range(3)] for _ in range(4)]
            if rng.random() < .05:
                c[3] = c[rng.randrange(3)]
            if not first and rng.random() < .4:     # some corners stay as they were
                for k in rng.sample(range(4), rng.randint(1, 4)):
                    c[k] = list(old[k])
            old = c
            yield {"e": "tet", "s": s, "c": c, "fresh": first}
            first = False
            for _ in range(rng.randint(0, 5)):
                op = rng.choice(["vol", "bary", "has", "has", "dist", "cells", "vol", "bary"])
                e = {"e": op, "s": s}
                if op == "has":
                    e["ps"] = [rng.randint(-1, r + 1) + off for _ in range(36)]
                    if rng.random() < .5:     # near the middle
                        e["ps"] += [sum(v[i] for v in c) // 4 + rng.randint(0, 1) for _ in range(6) for i in range(3)]
                if op == "dist":
                    m = e["m"] = rng.choice([4, 8, 64])
                    e["wide"] = rng.random() < .5
                    ps = []
                    for _ in range(8):
                        q = sorted(rng.randint(0, m) for _ in range(3))
                        w = [q[0], q[1] - q[0], q[2] - q[1]]
                        rng.shuffle(w)
                        ps += w
                    e["ps"] = ps
                if op == "cells":
                    e["cw2"] = rng.choice([1, 2, 3, 4, 5, 6, 8, 20])
                    e["new"] = rng.random() < .5
                yield e


def folds(rng, quick):
    k = 0
    for m in ([4, 8] if quick else [4, 8, 16]):
        yield {"e": "fold", "m": m, "s": 5000000 + m}
    for _ in range(10 if quick else 100):
        k += 1
        m = rng.choice([1024, 65536, 1 << 20])
        yield {"e": "foldpts", "m": m, "s": 5100000 + k,
               "ps": [rng.choice([0, m - 1, m // 2, rng.randrange(m)]) if rng.random() < .3 else rng.randrange(m) for _ in range(600)]}
    for _ in range(3 if quick else 16):
        k += 1
        s = 5200000 + k
        tet = lambda: {"e": "tet", "s": s, "c": [[rng.randint(-4, 4) for _ in range(3)] for _ in range(4)], "fresh": False}
        yield tet()
        yield {"e": "bary", "s": s}
        yield tet()
        yield {"e": "foldtet", "s": s, "m": rng.choice([4, 8])}
    for _ in range(12 if quick else 120):
        k += 1
        s = 5300000 + k
        while True:
            c = [[rng.randint(0, 8) for _ in range(3)] for _ in range(4)]
            e = [[c[j][i] - c[0][i] for i in range(3)] for j in (1, 2, 3)]
            det = (e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0])
                   + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]))
            if abs(det) >= 100:
                break
        yield {"e": "tet", "s": s, "c": c, "fresh": False}
        n = 1600      # five standard deviations
        yield {"e": "sample", "s": s, "m": n, "gen": k % 3, "seed": rng.randint(1, 1 << 30), "tol8": int(8 * 5 * (n * 7 / 64) ** .5), "tol2": int(5 * n ** .5)}


def run(ctx):
    ctx.model_check("TetraPack")
    gen = ctx.generate("TetraGen")
    rng = random.Random(ctx.seed * 7919 + 11)
    s = 3000000
    for g in gen:
        if g["e"] in ("cube", "centered", "tet"):
            s += 1
        g["s"] = s
    extra = []
    for k in range(60 if ctx.quick else 1500):
        n = rng.choice([6, 8, 10, 16, 32, 64])
        skip = rng.choice([1, 2, 4])
        p = [rng.choice([0, n - 1 - skip, rng.randint(0, n - 1 - skip)]) for _ in range(3)]
        extra.append({"e": "cube", "n": n, "skip": skip, "idx": p[0] + n * p[1] + n * n * p[2], "s": 4000000 + k})
        p = [rng.choice([0, skip - 1, skip, n - 1, n - skip, n - 1 - skip, rng.randrange(n)]) for _ in range(3)]
        extra.append({"e": "centered", "n": n, "skip": skip, "idx": p[0] + n * p[1] + n * n * p[2], "s": 4100000 + k})
    for k in range(200 if ctx.quick else 4000):
        n = rng.choice([256, 1290, 1291, 2048, 4096, rng.randint(65, 5000), 46341, 100000])
        skip = rng.choice([1, 1, 2, 4, 64])
        extra.append({"e": "far", "n": n, "skip": skip, "p": [rng.choice([n - 1 - skip, rng.randint(0, n - 1 - skip), rng.randint(0, skip)]) for _ in range(3)], "s": 4200000 + k})
    hist = list(objects(rng, 2000 if ctx.quick else 20000))
    ev = ctx.drive(ctx.build("cmd/geomd"), list(units(rng, hist + gen + extra + list(folds(rng, ctx.quick)))))
    for e in ev:
        e["wgt"] = {"cube": 2, "centered": 4, "fold": 60, "foldtet": 60, "sample": 60, "has": 3}.get(e["e"], 1)
    ctx.sample(ev[0], ev[1], ev[len(hist)], ev[len(hist) + len(gen) - 1])
    ctx.validate("TetraTrace", ev)
    ctx.notes["replayed_from_spec"] = len(gen)
    ctx.notes["object_histories"] = len(set(e["s"] for e in hist))
    ctx.assumptions.append("corners are small whole numbers of a power of two (2^-30 to 2^20), where single precision is exact; the fold is judged on all points of the lattices "
                           "1/8 (quick) and 1/4, 1/8, 1/16 (thorough), on which a piecewise unimodular map is determined, and at random points")
    ctx.assumptions.append("points on a face of a tetrahedron may count as inside or outside")
