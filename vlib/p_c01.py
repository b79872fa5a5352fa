"""C01 conversion: every particle at the site named by its ID."""
import random
from .convert import run as crun, simple, snapshot, divisors


def iterated(rng, q):
    start = rng.choice([0, 0, 1, 8, 99])
    m = rng.choice([1, 2, 3])
    endless = rng.random() < .5
    ns = [rng.choice([1, 2, 3, 4]) for _ in range(m)]
    c = 1 if rng.random() < .4 else None
    if c is None:
        ns = [2 * x for x in ns]
        c = 2
    snaps = {start + i: snapshot(rng, ns[i], "random") for i in range(m)}
    if endless and rng.random() < .5:       # a gap: what lies behind it is not converted
        snaps[start + m + 1] = snapshot(rng, 2, "random")
    if not endless and rng.random() < .5:   # behind the end
        snaps[start + m] = snapshot(rng, 2, "random")
    if start and rng.random() < .5:
        snaps[start - 1] = snapshot(rng, 2, "random")
    return {"seed": rng.getrandbits(48), "snaps": snaps,
            "cf": {"cells": c, "iterated": True, "start": start, "end": -1 if endless else start + m - 1}}


def run(ctx):
    rng = random.Random(ctx.seed * 31337 + 1)
    cases = []
    for n in [1, 2, 3, 4, 5, 6, 8] * (2 if ctx.quick else 10):
        cases.append(simple(rng, n, rng.choice(divisors(n)), rng.choice(["grid", "random", "clump"])))
    cases += [iterated(rng, ctx.quick) for _ in range(12 if ctx.quick else 80)]
    # around and beyond the capacity of the scatter buffer (4096 = 16^3)
    for n in ((16, 17, 18) if ctx.quick else (16, 17, 18, 20, 21, 24, 26)):
        for nf in ((1, 6) if ctx.quick else (1, 2, 7, 30)):
            cases.append(simple(rng, n, rng.choice(divisors(n)[:-1]), "random", nfiles=nf))
    # file sizes next to multiples of powers of two
    for n in ((9, 10, 11, 12, 13, 14, 14, 16) if ctx.quick else [9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20] * 3):
        cases.append(simple(rng, n, rng.choice(divisors(n)[:-1]), "random", nfiles="chunks"))
    # snapshots of very many files
    for n, nf in ((4, 33), (5, 70), (6, 140), (4, 260)) if ctx.quick else ((4, 33), (4, 64), (4, 65), (5, 70), (5, 100), (6, 129), (8, 200), (6, 257), (8, 400)):
        cases.append(simple(rng, n, rng.choice(divisors(n)), "random", nfiles=nf))
    crun(ctx, "C01", cases)
