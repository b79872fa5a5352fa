"""C24 background cosmology."""
import random
from fractions import Fraction


def cases(rng, n):
    p = None
    for i in range(n):
        a = rng.choice([0, 1, 270, 272, 300, 309, 990, 999, 1000, rng.randint(0, 1000)])
        z = rng.choice([0, 0, 1, 4, 8, 16, 120, rng.randint(-7, 120), rng.randint(-7, 30)])
        hub, width = rng.choice([200, 280, 400, rng.randint(1, 800)]), rng.randint(1, 9999)
        if p and rng.random() < .7:     # much like the one before
            a, z, hub, width = [y if rng.random() < .5 else x for x, y in zip((a, z, hub, width), p)]
        p = a, z, hub, width
        h2 = Fraction(a * (8 + z) ** 3 + 512 * (1000 - a), 512000)
        k = 0
        while h2 * 2 ** (k + 1) < 2 ** 27 and k < 26:
            k += 1
        yield {"e": rng.choice(["bg", "bg", "info"]), "s": i // 100, "a": a, "n": z, "k": k, "hub": hub, "width": width, "first": rng.randrange(4)}


def run(ctx):
    ctx.model_check("FriedmannLaws")
    rng = random.Random(ctx.seed * 7919 + 24)
    n = 3000 if ctx.quick else 60000
    ev = ctx.drive(ctx.build("cmd/cosmod"), list(cases(rng, n)))
    ctx.sample(*ev[:5])
    ctx.validate("CosmoTrace", ev)
    ctx.notes["cosmologies"] = n
    ctx.assumptions.append("flat universes of matter and vacuum, as the package documents; densities in h units; redshifts from -7/8 to 15; compared to about one part in 10^7")
