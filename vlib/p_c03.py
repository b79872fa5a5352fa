"""C03 sheet headers."""
import random
from .convert import run as crun, simple, divisors


def run(ctx):
    rng = random.Random(ctx.seed * 65537 + 3)
    cases = []
    for n in [1, 2, 3, 4, 5, 6, 8, 9, 12] * (3 if ctx.quick else 14):
        cs = divisors(n)
        for c in (cs[0], rng.choice(cs), rng.choice(cs)):
            if c <= 6:
                cases.append(simple(rng, n, c, rng.choice(["grid", "grid", "clump", "clump", "random"])))
    crun(ctx, "C03", cases)
