"""C17 sorting and selection."""
import math
import random


def shapes(rng, n, kind):
    if kind == 0:
        return [rng.randint(-50, 50) for _ in range(n)]
    if kind == 1:
        return [rng.randint(0, 2) for _ in range(n)]
    if kind == 2:
        return list(range(n))
    if kind == 3:
        return list(range(n, 0, -1))
    if kind == 4:
        return [min(i, n - i) for i in range(n)]
    if kind == 5:
        return [7] * n
    if kind == 6:
        x = list(range(n))
        for _ in range(3):
            if n:
                i, j = rng.randrange(n), rng.randrange(n)
                x[i], x[j] = x[j], x[i]
        return x
    return rng.sample(range(-4 * n - 4, 4 * n + 4), n)


def cases(ctx):
    rng = random.Random(ctx.seed * 7919 + 17)
    out = []
    lens = list(range(0, 64)) + [72, 80, 100, 121, 122, 150] + ([364, 365, 500, 1100] if not ctx.quick else [364, 365])
    reps = 2 if ctx.quick else 8
    for n in lens:
        for kind in range(8):
            for _ in range(reps if kind in (0, 1, 6, 7) else 1):
                xs = shapes(rng, n, kind)
                for e in ("quick", "shell", "reverse"):
                    out.append({"e": e, "xs": xs})
                if n:
                    ks = {1, n, (n + 1) // 2, rng.randint(1, n), rng.randint(1, n)}
                    for k in sorted(ks):
                        out.append({"e": "nth", "xs": xs, "n": k, "buf": rng.random() < .5})
                    out.append({"e": "median", "xs": xs, "buf": rng.random() < .5})
                    for pn, pd in ((0, 1), (1, 1), (rng.randint(0, 16), 16), (rng.randint(0, 64), 64)):
                        out.append({"e": "percentile", "xs": xs, "pn": pn, "pd": pd, "buf": rng.random() < .5})
    # large collections: a shuffle of 0..n-1, (a*i) mod n, whose order statistics are known
    for n in (40000, 70000) if ctx.quick else (5000, 20000, 33000, 40000, 66000, 70000, 100000):
        for _ in range(1 if ctx.quick else 3):
            def mul():
                a = rng.choice([1, n - 1 if n < 46000 else 1, rng.randint(2, 20000)])
                while math.gcd(a, n) != 1:
                    a = rng.randint(2, 20000)
                return a
            for e in ("quick", "shell", "reverse"):
                out.append({"e": e, "large": n, "a": mul()})
            out.append({"e": "nth", "large": n, "a": mul(), "n": rng.choice([1, n, rng.randint(1, n)]), "buf": rng.random() < .5})
            out.append({"e": "median", "large": n, "a": mul(), "buf": rng.random() < .5})
            out.append({"e": "percentile", "large": n, "a": mul(), "pn": rng.randint(0, 16), "pd": 16, "buf": rng.random() < .5})
    for c in out:
        if rng.random() < .4:
            c["u2"], c["off"] = rng.choice([0, -60, -300, -1000, 40, 300, 900]), rng.choice([0, 0, 2**30, -2**30])
    return out


def run(ctx):
    ctx.model_check("Sorting")
    gen = ctx.generate("SortingGen")
    rnd = cases(ctx)
    rows = [dict(c, s=i) for i, c in enumerate(gen + rnd)]
    ev = ctx.drive(ctx.build("cmd/sortd"), rows)
    ctx.sample(*[{k: v for k, v in e.items()} for e in ev[300:302] + ev[len(gen) + 40:len(gen) + 43]])
    ctx.validate("SortingTrace", ev)
    ctx.notes["replayed_from_spec"] = len(gen)
    ctx.notes["random_calls"] = len(rnd)
    ctx.assumptions.append("values are whole numbers of a power of two (2^-1002 to 2^898), around zero or far from it (only their order matters); NaN is outside the property")
