"""C25 derivatives of tabulated series."""
import random


def series(rng, order, n=None):
    n = n or rng.choice([order + 1, order + 1, order + 2, order + 3, 2 * order, rng.randint(order + 1, 24)])
    steps = rng.choice([[1], [1], [2], [3], [1, 2], [1, 2, 3], [1, 3]])
    x = [rng.randint(-20, 20)]
    for _ in range(n - 1):
        x.append(x[-1] + rng.choice(steps))
    k = rng.randrange(4)
    if k == 0:
        y = [rng.randint(-150, 150) for _ in x]
    elif k == 1:        # a spike
        y = [0] * n
        y[rng.randrange(n)] = rng.choice([1, -1, 100])
    else:               # a polynomial as high as values allow
        d = rng.randint(0, order)
        c = [rng.randint(-3, 3) for _ in range(d + 1)]
        m = x[n // 2]
        y = [sum(a * (v - m) ** i for i, a in enumerate(c)) for v in x]
        while max(map(abs, y)) > 200 and len(c) > 1:
            c.pop()
            y = [sum(a * (v - m) ** i for i, a in enumerate(c)) for v in x]
    if rng.random() < .3:
        x, y = x[::-1], y[::-1]
    return x, y


def cases(rng, n):
    for s in range(n):
        order = rng.choice([2, 4])
        # runs of series of one length
        if s % 50 == 0:
            length = rng.randint(25, 400) if s % 200 == 50 else None
        elif rng.random() < .4 or length <= order:
            length = None if length < 25 else rng.choice([length, length, max(25, length - rng.randint(1, 40))])
        x, y = series(rng, order, length)
        length = len(x)
        e = {"e": "deriv", "s": s // 50, "order": order, "u": rng.choice(["1", "0.5", "8", "0.1", "0.0078125", "1e-8", repr(2.0 ** -40), "3e9", repr(2.0 ** 30)]), "v2": rng.choice([0, 0, 0, -60, -25, 12, 50]), "into": rng.choice([-1, -1, len(x)]), "reuse": rng.random() < .4}
        r = rng.random()
        if r < .03:
            y = y[:-1]
        elif r < .06:
            e["into"] = len(x) + rng.choice([-1, 1])
        elif r < .09:
            k = rng.randint(1, order)
            x, y, e["into"] = x[:k], y[:k], -1
        elif r < .12:
            e["order"] = rng.choice([1, 3, 5, 6, 8, -2])
        yield dict(e, xs=x, ys=y)


def run(ctx):
    ctx.model_check("SeriesDerivLaws")
    rng = random.Random(ctx.seed * 7919 + 25)
    n = 4000 if ctx.quick else 80000
    ev = ctx.drive(ctx.build("cmd/calcd"), list(cases(rng, n)))
    ctx.sample(*ev[:5])
    for e in ev:
        e["wgt"] = len(e["xs"])
    ctx.validate("SeriesDerivTrace", ev)
    ctx.notes["series"] = n
    ctx.notes["refused"] = sum(e["outcome"] != "ok" for e in ev)
    ctx.assumptions.append("points at integer multiples of a unit (1e-12 to 3e9), values likewise, one to three units apart, in either direction; distinct points; compared after rounding to 1/4096")
