"""C20 smoothing kernels."""
import math, random

BOUNDS = ["periodic", "reflection", "zero", "extension"]


def kernel(rng, wide):
    kind = rng.choice(["tophat", "gauss", "savgol", "savgol", "deriv", "deriv"])
    c = {"kind": kind, "width": 2 * rng.randint(0, wide if kind in ("tophat", "gauss") else min(wide, 10)) + 1,
         "p": 0, "d": 0, "e4": 0, "dx2": 0, "sc": 20}
    if kind == "gauss":
        c["e4"], c["dx2"] = rng.choice([1, 2, 4, 8, 16]), rng.randint(-3, 3)
    if kind in ("savgol", "deriv"):
        half = c["width"] // 2
        c["p"] = rng.randint(0, min(c["width"] - 1, 4 if half > 5 else 6 if half > 2 else 4))
    if kind == "deriv":
        c["d"], c["dx2"] = rng.randint(0, min(2, c["p"])), rng.randint(-1, 2)
        c["sc"] = 18
    return c


def series(rng, n, m):
    k = rng.randint(0, 4)
    if k == 0:
        return [rng.randint(-m, m) for _ in range(n)]
    if k == 1:
        return [rng.randint(1, m)] * n
    if k == 2:
        return [(i % 3) - 1 for i in range(n)]
    if k == 3:
        x = [0] * n
        x[rng.choice([0, 0, n - 1, n - 1, rng.randrange(n)])] = m
        return x
    return [min(m, i) for i in range(n)]


def histories(rng, sessions, wide, reach):
    for s in range(sessions):
        yield {"e": "fresh", "s": s}
        made = {}
        for _ in range(rng.randint(2, 7)):
            if not made or rng.random() < .4:
                k = rng.choice("abc")
                c = kernel(rng, wide)
                if rng.random() < .08:      # no such kernel
                    c["width"] += rng.choice([-1, 1]) if rng.random() < .5 else 0
                    if c["kind"] in ("savgol", "deriv") and c["width"] % 2:
                        c["p"], c["d"] = (c["width"], c["d"]) if c["kind"] == "savgol" or rng.random() < .5 else (c["p"], c["p"] + 1)
                    if c["width"] > 0 and (c["width"] % 2 == 0 or c["kind"] in ("savgol", "deriv")):
                        yield {"e": "kernel", "s": s, "k": "c", **c}
                        made.pop("c", None)
                    continue
                made[k] = c
                yield {"e": "kernel", "s": s, "k": k, **c}
            if made and rng.random() < .85:
                k = rng.choice(sorted(made))
                w = made[k]["width"]
                n = w + rng.choice([0, 0, 1, 2, 3, rng.randint(0, reach)])
                big = 9 if made[k]["kind"] == "deriv" else 60
                yield {"e": "conv", "s": s, "k": k, "b": rng.choice(BOUNDS), "xs": series(rng, n, big), "at": rng.random() < .5, "big": big,
                       "v2": rng.choice([0, 0, 0, -60, -30, -10, 20, 70])}
            else:
                n = rng.randint(1, 9)
                yield {"e": "get", "s": s, "b": rng.choice(BOUNDS), "xs": [rng.randint(-9, 9) for _ in range(n)], "i": rng.randint(-(n - 1), 2 * n - 2)}


def edges():
    """every kernel width against every edge, with an impulse at each end"""
    s = -1
    for w in range(1, 16, 2):
        for b in BOUNDS:
            yield {"e": "fresh", "s": s}
            for k, kind in zip("abc", ("tophat", "gauss", "deriv")):
                yield {"e": "kernel", "s": s, "k": k, "kind": kind, "width": w, "p": min(3, w - 1), "d": min(1, w - 1), "e4": 4, "dx2": 0, "sc": 20 - 2 * (kind == "deriv")}
                for n in (w, w + 1, 2 * w + 3):
                    for at in {0, n - 1, w // 2, n - 1 - w // 2}:
                        yield {"e": "conv", "s": s, "k": k, "b": b, "xs": [9 * (i == at) for i in range(n)], "at": at % 2 == 0, "big": 9}
            s -= 1
    for b in BOUNDS:
        for n in range(1, 6):
            for i in range(-(n - 1), 2 * n - 1):
                yield {"e": "get", "s": s, "b": b, "xs": [i * i + 1 for i in range(n)], "i": i}


def binom(x, k):
    v = 1
    for i in range(k):
        v *= x - i
    return v // math.factorial(k)


def tables(xs, k):
    """the series and its differences, up to the k-th"""
    for _ in range(k + 1):
        yield xs
        xs = [b - a for a, b in zip(xs, xs[1:])]


def wide(rng, s0, n):
    """wide Savitzky-Golay windows over polynomials with whole values"""
    for i in range(n):
        w = 2 * rng.choice([5, 10, 20, 25, rng.randint(10, 50), rng.randint(50, 100)]) + 1
        p = rng.randint(0, 6)
        m = w + rng.randint(0, 20)
        while True:
            d = rng.choice([p, rng.randint(0, p)])
            c = [rng.randint(-3, 3) for _ in range(d)] + [rng.choice([-1, 1, 2])]
            mid = rng.choice([m // 2, m // 2, 0, m - 1])
            xs = [sum(a * binom(x - mid, k) for k, a in enumerate(c)) for x in range(m)]
            if all(max(map(abs, t)) < 2 ** 30 for t in tables(xs, p + 1)):
                break
        yield {"e": "wide", "s": s0 + i // 10, "width": w, "p": p, "b": rng.choice(BOUNDS), "xs": xs, "sc": min(14, 30 - max(1, max(map(abs, xs))).bit_length())}


def large(rng, s0, sizes):
    for i, m in enumerate(sizes):
        yield {"e": "fresh", "s": s0 + i}
        for k, kind in zip("abc", ("tophat", "gauss", "savgol")):
            yield {"e": "kernel", "s": s0 + i, "k": k, "kind": kind, "width": rng.choice([3, 5, 7]), "p": 2, "d": 0, "e4": 4, "dx2": 0, "sc": 20}
            yield {"e": "conv", "s": s0 + i, "k": k, "b": rng.choice(BOUNDS), "xs": [rng.randint(-60, 60) for _ in range(m)], "at": k == "a", "big": 60}


def run(ctx):
    ctx.model_check("Smoothing")
    ctx.model_check("SavGol")
    if not ctx.quick:
        ctx.model_check("Smoothing", "Smoothing_deep.cfg")
    rng = random.Random(ctx.seed * 7919 + 20)
    n = 1200 if ctx.quick else 20000
    ev = ctx.drive(ctx.build("cmd/interpd"), list(edges()) + list(histories(rng, n, 20 if ctx.quick else 45, 30)) + list(large(rng, n, [33000] if ctx.quick else [5000, 33000, 66000])) + list(wide(rng, n + 9, 150 if ctx.quick else 1500)))
    for e in ev:
        e["wgt"] = 1 + len(e.get("xs", [])) // 8
    ctx.sample(*ev[:4], *ev[-3:])
    ctx.validate("SmoothingTrace", ev)
    ctx.notes["histories"] = n
    ctx.assumptions.append("a mirror reflection leaves out the mirrored end point itself (x[-1] = x[1]); Gaussian widths are those whose weights are powers of two apart; "
                           "values are compared after rounding to 2^-20 (2^-18 for derivative kernels)")
