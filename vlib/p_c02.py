"""C02 sheet segments tile the grid."""
import random
from .convert import run as crun, simple, divisors


def run(ctx):
    rng = random.Random(ctx.seed * 27644437 + 2)
    cases = []
    for n in (1, 2, 3, 4, 5, 6, 8, 9) if ctx.quick else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18):
        for c in divisors(n):
            cases.append(simple(rng, n, c, rng.choice(["grid", "random"])))
    for n, c in ((11, 11), (12, 12)) if ctx.quick else ((10, 10), (11, 11), (12, 12), (13, 13), (14, 14), (24, 12)):
        cases.append(simple(rng, n, c, "random"))
    crun(ctx, "C02", cases)
