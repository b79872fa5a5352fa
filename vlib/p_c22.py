"""C22 subhalo finding."""
import random


def scaled(rng, cases):
    """units of a session: mostly 1/64, sometimes that times a power of two"""
    u2 = 0
    for c in cases:
        if c["e"] == "fresh" or c["e"] == "bounds":
            u2 = rng.choice([0, 0, -50, -27, -12, 9, 30])
        if c["e"] != "fresh":
            c["u2"] = u2
        yield c


def boxes(rng):
    """(width, cells, inexact): width in 1/64; the search grid's cells may not be binary numbers"""
    while True:
        w, c = rng.choice([64, 128, 512, 1024, 2048, 6400 // 4, rng.randint(8, 2048)]), rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
        q = c
        while w % q and q % 2 == 0:
            q //= 2
        if w >= c and int(w / 64 / (w / 64 / c)) == c:
            return w, c, w % q != 0


def coord(rng, w, c, inexact, out):
    x = rng.choice([0, w - 1, w // 2, rng.randint(0, w - 1), rng.randint(0, w - 1), rng.randint(0, max(1, w // 8)), w - 1 - rng.randint(0, max(1, w // 8))])
    if out:
        x = rng.choice([x, w, w + rng.randint(0, w // 8), -rng.randint(1, max(1, w // 8))])
    if inexact and x % w and (x * c) % w == 0:
        x += 1
    return x


def points(rng, n, w, c, inexact, out):
    ps = []
    for _ in range(n):
        p = [coord(rng, w, c, inexact, out) for _ in range(3)]
        if ps and rng.random() < .5:       # near another one, perhaps through the boundary
            q = rng.choice(ps)
            p = [(q[d] + rng.choice([0, 0, 1, -1, rng.randint(-w // 6 - 1, w // 6 + 1)])) % w for d in range(3)]
            p = [x + 1 if inexact and x and (x * c) % w == 0 else x for x in p]
        ps.append(p)
    return ps


def radii(rng, n, w):
    top = rng.choice([2, w // 20 + 1, w // 8 + 1, w // 3 + 1, w // 2 + 1])
    return sorted((rng.choice([0, top, rng.randint(0, top)]) if rng.random() < .3 else rng.randint(0, top) // rng.choice([1, 1, 3, 8]) for _ in range(n)), reverse=True)


def mult(rng, rs, w):
    while True:
        mk, md = rng.choice([(4, 4), (8, 4), (12, 4), (2, 4), (1, 4), (5, 4), (16, 4), (11, 10), (7, 10), (30, 10), (13, 10)])
        if (2 * max(rs + [1]) * mk) ** 2 < 2**31 and 3 * (w * md // 2) ** 2 < 2**31:
            return mk, md


def histories(rng, sessions, most):
    for s in range(sessions):
        yield {"e": "fresh", "s": s}
        have = {}
        for _ in range(rng.randint(2, 5)):
            if not have or rng.random() < .3:
                g = rng.choice("ab")
                w, c, inexact = boxes(rng)
                n = rng.choice([0, 1, 2, 3, rng.randint(4, most), rng.randint(4, most)])
                ps = points(rng, n, w, c, inexact, rng.random() < .2)
                have[g] = n, w
                yield {"e": "grid", "s": s, "g": g, "w": w, "c": c, "inexact": inexact, "early": rng.random() < .3, **{k: [p[d] for p in ps] for d, k in enumerate(("xs", "ys", "zs"))}}
            g = rng.choice(sorted(have))
            n, w = have[g]
            rs = radii(rng, n, w)
            mk, md = mult(rng, rs, w)
            yield {"e": "find", "s": s, "g": g, "rs": rs, "mk": mk, "md": md, "anew": rng.random() < .4}


def tangent(s0):
    """touching and just parted pairs along every axis and diagonal, inside and through the boundary"""
    s = s0
    for w, c in ((256, 4), (320, 5), (256, 1), (384, 3), (256, 8)):
        for axis in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 1, 1)):
            for at in (0, w // 2, w - 1, w // c):
                for gap in (-1, 0, 1):
                    d = 24
                    scale = {1: 24, 2: 34, 3: 42}[sum(axis)]
                    r = scale if sum(axis) == 1 else scale
                    p = [at, (at * 3) % w, (at * 5 + 7) % w]
                    q = [(p[k] + (d + (gap if axis[k] else 0)) * axis[k]) % w for k in range(3)]
                    yield {"e": "fresh", "s": s}
                    yield {"e": "grid", "s": s, "g": "a", "w": w, "c": c, "inexact": False, "early": False, "xs": [p[0], q[0]], "ys": [p[1], q[1]], "zs": [p[2], q[2]]}
                    for a, b in ((r // 2, r - r // 2), (r, 0), (r - 3, 3)):
                        a, b = max(a, b), min(a, b)
                        yield {"e": "find", "s": s, "g": "a", "rs": [a, b], "mk": 4, "md": 4, "anew": False}
                    s += 1


def close(rng, s0, n):
    """pairs whose spheres touch exactly, or miss by one part in 10^8"""
    for s in range(s0, s0 + n):
        w, c = rng.choice([(32768, 4), (24576, 3), (24576, 1), (40960, 5)])
        d, r = rng.choice([(8192, 8192), (8191, 8191), (6144, 6144), (10000, 10000)])
        o = rng.choice([(0, 0), (1, 0), (1, 1), (2, 1), (0, 3)])
        if rng.random() < .3:       # Pythagorean: they touch
            k = rng.choice([1, 500, 1024, 2000])
            d, o, r = rng.choice([(3 * k, (4 * k, 0), 5 * k), (2 * k, (2 * k, k), 3 * k)])
            r += rng.choice([0, 0, -1, 1])
        v = [d, *o]
        rng.shuffle(v)
        p = [rng.randrange(w) for _ in range(3)]
        q = [(p[i] + rng.choice([-1, 1]) * v[i]) % w for i in range(3)]
        yield {"e": "fresh", "s": s}
        yield {"e": "grid", "s": s, "g": "a", "w": w, "c": c, "inexact": False, "early": False, "xs": [p[0], q[0]], "ys": [p[1], q[1]], "zs": [p[2], q[2]]}
        for _ in range(2):
            a = rng.choice([r // 2, r, r - 5, r - r // 3])
            if max(d, *o) * 4 < 46000 and 4 * r < 46000:
                yield {"e": "find", "s": s, "g": "a", "rs": sorted((a, r - a), reverse=True), "mk": 4, "md": 4, "anew": False}


def many(rng, s0, sizes):
    """a few halos among tens of thousands"""
    for k, n in enumerate(sizes):
        c = rng.choice([8, 16, 32])
        w = 64 * c
        ps = set()
        while len(ps) < n:
            ps.add(tuple(rng.randrange(w) for _ in range(3)))
        ps = list(ps)
        few = rng.randint(4, 12)
        rs = sorted((rng.randint(1, w // 14) for _ in range(few)), reverse=True) + [0] * (n - few)
        ps[1:3] = [p for p in [((ps[0][0] + 5) % w, ps[0][1], ps[0][2]), (ps[0][0], (ps[0][1] - 6) % w, ps[0][2])] if p not in ps] or ps[1:3]
        n = len(ps)
        yield {"e": "fresh", "s": s0 + k}
        yield {"e": "grid", "s": s0 + k, "g": "a", "w": w, "c": c, "inexact": False, "early": rng.random() < .5, **{a: [p[d] for p in ps] for d, a in enumerate(("xs", "ys", "zs"))}}
        for mk in rng.sample([4, 8, 5], 2):
            yield {"e": "findmany", "s": s0 + k, "g": "a", "rs": rs[:n], "few": few, "mk": mk, "md": 4, "anew": rng.random() < .4}


def bounds(rng, n):
    for i in range(n):
        while True:
            w, c, inexact = boxes(rng)
            if not inexact:
                break
        yield {"e": "bounds", "s": 10**6 + i // 50, "w": w, "c": c, "pos": [coord(rng, w, c, False, False) for _ in range(3)],
               "r": rng.choice([0, 1, w // c, w // 2, w // 2 - 1, w // 2 + 1, rng.randint(0, w), rng.randint(0, w // 4 + 1)])}


def run(ctx):
    ctx.model_check("HaloSearch")
    if not ctx.quick:
        ctx.model_check("HaloSearch", "HaloSearch_deep.cfg")
    rng = random.Random(ctx.seed * 7919 + 22)
    n = 600 if ctx.quick else 6000
    cases = list(scaled(rng, list(tangent(n)) + list(close(rng, n + 10**5, n)) + list(histories(rng, n, 25 if ctx.quick else 60)) + list(bounds(rng, 3 * n)) + list(many(rng, 3 * 10**6, [40000] if ctx.quick else [40000, 70000, 17000]))))
    ev = ctx.drive(ctx.build("cmd/halod"), cases)
    for e in ev:
        e["wgt"] = 1 + (len(e.get("rs", [])) ** 2 // 40 if e["e"] == "find" else len(e.get("rs", [])) // 10)
    ctx.sample(*[e for e in ev if e["e"] == "find"][:3], *ev[-2:])
    ctx.validate("HaloTrace", ev)
    ctx.notes["searches"] = sum(e["e"] == "find" for e in ev)
    ctx.notes["intersections"] = sum(len(x) for e in ev if e["e"] == "find" for x in e.get("inter", [])) // 2
    ctx.assumptions.append("positions within an eighth of a box width of the box; lengths are whole numbers of units of 2^-56 to 2^24; radii times the multiplier up to half a box and beyond")
