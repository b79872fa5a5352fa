"""C12 vectors in a periodic box, grid indices, pixel ranges."""
import random


def sessions(rng, n):
    """histories of vector operations on three registers, with aliasing operands"""
    for s in range(n):
        u = rng.choice([1, 1, 1, .5, .0625, 4, 2.0 ** -20, 2.0 ** -33, 2.0 ** 18])
        w = rng.choice([1, 2, 3, 4, 7, 10, 16, 25, 100, 101, 128, 1000])
        vec = lambda m: [rng.choice([0, -m, m, rng.randint(-m, m), rng.randint(-m, m)]) for _ in range(3)]
        box = lambda: [rng.choice([0, w - 1, w // 2, (w + 1) // 2, rng.randint(0, w - 1)]) for _ in range(3)]
        yield {"e": "load", "s": s, "w": w, "u": u, "regs": [box() if rng.random() < .6 else vec(w) for _ in range(3)]}
        big = [w, w, w]
        even = None
        for _ in range(rng.randint(3, 10)):
            if even:
                r, even = even, None
                yield {"e": "vec", "s": s, "op": "scale", "form": "self", "dst": r, "a": r, "b": r, "k": [rng.choice([3, 1, -1]), 4]}
                continue
            op = rng.choice(["add", "sub", "sub", "sub", "mod", "mod", "scale", "cross", "dot"])
            a, b, d = (rng.randint(1, 3) for _ in range(3))
            form = rng.choice(["new", "self", "at", "at"])
            if form == "self":
                d = a
            x, y = big[a - 1], big[b - 1]
            k = [1, 1]
            if op in ("cross", "dot"):
                if 3 * x * y > 1 << 22 or u != 1:
                    continue
                new = 2 * x * y
            elif op == "scale":
                k = [rng.choice([0, 1, -1, 2, 3, 4, -5]), 1]
                new = x * abs(k[0])
            else:
                new = x + y + 2 * w
            if op == "dot":
                yield {"e": "dot", "s": s, "a": a, "b": b}
                continue
            if new > 1 << 21:
                continue
            big[d - 1] = new
            if k[0] == 4:
                even = d
            yield {"e": "vec", "s": s, "op": op, "form": form, "dst": d, "a": a, "b": b, "k": k}


def singles(rng, n):
    for c in unscaled(rng, n):
        if c["e"] in ("sub1", "mod1", "norm"):
            c["u2"] = rng.choice([0, 0, -40, -24, -10, -3, 7, 25])
        yield c


def unscaled(rng, n):
    for _ in range(n):
        w = rng.choice([3, 10, 16, 101, 640, 1000, 4096])
        pt = lambda: [rng.choice([0, w - 1, w, -1, rng.randint(-w // 2, 3 * w // 2)]) for _ in range(3)]
        a, b = pt(), pt()
        if max(abs(x - y) for x, y in zip(a, b)) <= 2 * w:
            yield {"e": "sub1", "w": w, "va": a, "vb": b}
        yield {"e": "mod1", "w": w, "va": [rng.choice([-w, -1, 0, w - 1, w, 2 * w - 1, rng.randint(-w, 2 * w - 1)]) for _ in range(3)]}
        yield {"e": "tiny", "w": w, "u": rng.choice([1, .1, .0625, 3.7]), "m": [rng.randint(0, 6) for _ in range(3)]}
        yield {"e": "norm", "va": [rng.randint(-70, 70) for _ in range(3)]}
        N = rng.choice([4, 7, 16, 50, 128])
        o = lambda: [rng.randrange(N) for _ in range(3)]
        ww = lambda: [rng.choice([1, 2, N, N + 1, rng.randint(1, N)]) for _ in range(3)]
        o1, w1, w2 = o(), ww(), ww()
        # place the second range so that it starts or ends near an end of the first
        o2 = [(rng.choice([x + p, x - q, x + rng.randint(-2, 2)]) + rng.choice([-1, 0, 0, 1])) % N for x, p, q in zip(o1, w1, w2)]
        yield {"e": "meet", "n": N, "o1": o1, "w1": w1, "o2": o2, "w2": w2}
        s = rng.choice([0, -20])
        o1 = [x + s for x in o1]
        o2 = [x + rng.choice([p, p - 1, p + 1, -q, 1 - q, -q - 1, 0]) for x, p, q in zip(o1, w1, w2)]
        yield {"e": "line", "o1": o1, "w1": w1, "o2": o2, "w2": w2}
        yield {"e": "rel", "n": N, "sub": 8, "u": rng.choice([1, .5, 4]), "o": o(), "c": o(),
               "ps": [rng.choice([0, 8 * N - 1, rng.randrange(8 * N)]) for _ in range(18)]}


def grids(rng, n):
    for s in range(n):
        for _ in range(3):          # one grid object, given several shapes
            yield {"e": "grid", "fresh": _ == 0, "s": s + 1000000, "o": [rng.choice([0, rng.randint(-9, 30)]) for _ in range(3)],
                   "w": [rng.randint(1, 5) for _ in range(3)]}


def huge(rng, n):
    for s in range(n):
        for k in range(2):
            w = [rng.choice([1, 5, 256, 1291, 2048, 46341, 100000, rng.randint(1, 100000)]) for _ in range(3)]
            yield {"e": "huge", "fresh": k == 0, "s": s + 1500000, "o": [rng.choice([0, rng.randint(-9000, 30000)]) for _ in range(3)], "w": w,
                   "ps": [rng.choice([0, x - 1, x, -1, rng.randrange(x), rng.randrange(x), rng.randrange(x)]) for _ in range(12) for x in w]}


def run(ctx):
    ctx.model_check("PeriodicBox")
    if not ctx.quick:
        ctx.model_check("PeriodicBox", "PeriodicBox_deep", timeout=600)
    gen = ctx.generate("PeriodicBoxGen")
    rng = random.Random(ctx.seed * 7919 + 12)
    m = 1 if ctx.quick else 12
    rnd = list(singles(rng, 700 * m)) + list(grids(rng, 60 * m)) + list(huge(rng, 60 * m))
    rows = [dict(c, s=2000000 + i) if "s" not in c else c for i, c in enumerate(gen + rnd)]
    hist = list(sessions(rng, 900 * m))
    binary = ctx.build("cmd/geomd")
    ev = ctx.drive(binary, hist + rows)
    ctx.sample(ev[0], ev[1], ev[len(hist)], ev[-1])
    ctx.validate("PeriodicBoxTrace", ev)
    ctx.notes["replayed_from_spec"] = len(gen)
    ctx.notes["register_histories"] = 900 * m
    ctx.assumptions.append("coordinates are integers times a power of two, so that the single precision arithmetic is exact; "
                           "wrapping is promised for points at most one box width outside, displacements for points at most two widths apart")
