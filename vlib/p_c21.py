"""C21 random streams and Sobol sequences."""
import random

TYPES = ["xorshift", "golang", "tausworthe"]
EDGE = [0, 1, 2, 3, 2**31 - 2, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1]


def key(rng, k, used, force=None):
    small = rng.random() < .8
    gt = rng.choice(TYPES + ["default"]) if not used or rng.random() < .5 else rng.choice(used)[0]
    seed = rng.choice([rng.randint(0, 40), rng.randint(0, 2**31 - 2)]) if small else rng.choice(EDGE + [rng.randrange(2**64)])
    if force:
        gt = force
    elif used and rng.random() < .5:     # a seed which differs by one bit or one
        gt, near = used[-1]
        near = near ^ (1 << rng.randint(0, 30)) if rng.random() < .6 else near + 1
        seed = near if used[-1][1] < 2**31 - 2 and near < 2**31 - 1 else seed
    used.append((gt, seed))
    return {"k": k, "gt": gt, "seed": str(seed), "small": seed < 2**31 - 1}


def full(j):
    """the xorshift seed whose j-th word is 0, a value which rounds to 1 and has to be skipped"""
    w = 0
    for x in reversed([123456789, 362436069, 521288629][:j]):
        t = (x ^ (x << 11)) & 0xffffffff
        v, w = w ^ t ^ (t >> 8), 0
        for b in range(31, -1, -1):      # v = w ^ (w >> 19)
            w |= ((v >> b ^ (w >> (b + 19))) & 1) << b
    return w


def cuts(rng, n):
    r = rng.random()
    if r < .4:
        return []
    if r < .6:
        return [n]
    return [rng.choice([0, 1, 2, 3, 7, 64, rng.randint(1, max(1, n))]) for _ in range(rng.randint(1, 4))] + [1]


def spans(rng):
    """(low, high, loose): the width is at least 2^-20 of the larger end unless loose"""
    r = rng.random()
    if r < .15:
        return rng.choice([(0., 13., False), (-1., 1., False), (1., 2., False), (-7.5, -7.25, False), (0., 1e-300, False), (0., 1e300, False), (-1e6, 1e6 + 1, False), (0., .1, False), (0., 1. + 2**-52, False)])
    if r < .3:
        lo = rng.choice([1., -1., 2.**52, 1e300, 3e-5, 2.**53 - 1])
        return lo, lo + abs(lo) * rng.choice([2**-52, 2**-51, 2**-50, 2**-45]), True
    lo = rng.uniform(-50, 50)
    return lo, lo + rng.choice([rng.uniform(.01, 100), 1., 2.**rng.randint(-4, 10)]), False


def streams(rng, s, length, ops, big, force=None):
    yield {"e": "fresh", "s": s}
    used, keys = [], []
    for k in range(1, (2 if force else rng.randint(2, 4))):
        keys.append(key(rng, k, used, force))
        yield {"e": "stream", "s": s, "n": length, **keys[-1]}
    left = {}
    if force:       # the whole stream in batches
        yield {"e": "make", "s": s, "g": "a", **keys[0]}
        yield {"e": "unit", "s": s, "g": "a", "n": length, "cuts": [rng.randint(1, length), rng.randint(1, 5000)] if rng.random() < .7 else [length]}
    for _ in range(ops):
        if not left or rng.random() < .12:
            g, k = rng.choice("abc"), rng.choice(keys)
            left[g] = length
            yield {"e": "make", "s": s, "g": g, **k}
            continue
        g = rng.choice(sorted(left))
        n = min(left[g], rng.choice([0, 1, 1, 2, 5, rng.randint(0, big), rng.randint(0, big)]))
        r = rng.random()
        if r < .12 and len(left) > 1:
            by = []
            for h in sorted(left):
                m = min(left[h], rng.randint(1, big))
                left[h] -= m
                by.append({"g": h, "n": m, "cuts": cuts(rng, m)})
            yield {"e": "par", "s": s, "by": by}
            continue
        left[g] -= n
        if r < .5:
            yield {"e": "unit", "s": s, "g": g, "n": n, "cuts": cuts(rng, n)}
        elif r < .72:
            lo, hi, loose = spans(rng)
            assert lo < hi
            yield {"e": "range", "s": s, "g": g, "n": n, "cuts": cuts(rng, n), "lo": lo.hex(), "hi": hi.hex(), "loose": loose, "whole": False}
        elif r < .92:
            yield {"e": "int", "s": s, "g": g, "n": n, "lo": str(rng.choice([0, 0, 1, -5, rng.randint(-10**6, 10**6), 2**52, -2**52, 2**62])), "w": rng.choice([1, 2, 3, 6, 10, 255, rng.randint(1, 2**18 - 1)])}
        else:
            lo = rng.choice([0, -2**40, 2**50, 7])
            yield {"e": "range", "s": s, "g": g, "n": n, "lo": str(lo), "hi": str(lo + rng.choice([2**30, 2**40 + 1, 2**53, 2**31 - 1])), "loose": False, "whole": True}
    for k in keys:
        yield {"e": "again", "s": s, "n": length, **k}


def sobols(rng, s, ops, far):
    yield {"e": "fresh", "s": s}
    have, pos = {}, {}
    for i in range(ops):
        if not have or rng.random() < .1:
            g = rng.choice("abc")
            have[g], pos[g] = rng.choice([1, 2, 3, 4, 5, 6, 6, 6, 6, 0 if rng.random() < .2 else 3]), 0
            yield {"e": "sinit", "s": s, "g": g, "dim": have[g], "anew": rng.random() < .4, "zero": rng.random() < .5}
            continue
        g = rng.choice(sorted(have))
        n = rng.choice([1] * 12 + [rng.randint(1, 9), 2**rng.randint(1, 10), rng.randint(1, far) if rng.random() < .3 else 1])
        pos[g] += n
        yield {"e": "snext", "s": s, "g": g, "n": n, "at": n > 64 or rng.random() < .5}


def refused():
    for dim in (7, 8, 40):
        for at in (True, False):
            s = -10 * dim - at
            yield {"e": "fresh", "s": s}
            yield {"e": "sinit", "s": s, "g": "a", "dim": dim, "anew": True, "zero": False}
            yield {"e": "snext", "s": s, "g": "a", "n": 1, "at": at}


def run(ctx):
    ctx.model_check("SobolRun")
    ctx.model_check("RandomStreams")
    if not ctx.quick:
        ctx.model_check("SobolRun", "SobolRun_deep.cfg")
    rng = random.Random(ctx.seed * 7919 + 21)
    cases = []
    n, long, m = (150, 6, 250) if ctx.quick else (1500, 60, 3000)
    for s in range(n):
        cases += streams(rng, s, 300, rng.randint(5, 25), 40)
    for s in range(n, n + long):
        cases += streams(rng, s, rng.choice([9700, 15000, 21000]), rng.randint(6, 14), 11000, ["default", "xorshift", "golang"][s % 3])
    for s in range(n + long, n + long + m):
        cases += sobols(rng, s, rng.randint(10, 60), 20000 if ctx.quick else 2**20)
    if not ctx.quick:      # the last points of a sequence, and one more
        s = n + long + m
        cases += [{"e": "fresh", "s": s}, {"e": "sinit", "s": s, "g": "a", "dim": 6, "anew": True, "zero": False}]
        cases += [{"e": "snext", "s": s, "g": "a", "n": k, "at": True} for k in (2**29, 2**29 - 3, 1, 1, 1)]
    cases += refused()
    for j in (1, 2, 3):
        s = -j
        k = {"k": 1, "gt": "xorshift", "seed": str(full(j)), "small": False}
        cases += [{"e": "fresh", "s": s}, {"e": "stream", "s": s, "n": 12, **k}]
        for cut in ([], [12], [1], [j], [2, 1], [0, j, 9]):
            cases += [{"e": "make", "s": s, "g": "a", **k}, {"e": "unit", "s": s, "g": "a", "n": 12, "cuts": cut},
                      {"e": "make", "s": s, "g": "b", **k}, {"e": "int", "s": s, "g": "b", "n": 12, "lo": "0", "w": 10}]
    binary = ctx.build("cmd/randd")
    again = [c for c in cases if c["e"] == "again"]
    ev = ctx.drive(binary, [c for c in cases if c["e"] != "again"], timeout=120, env={"DRV_OP_TIMEOUT": "110"})
    # the same streams in another process, in another order
    order = list(range(len(again)))
    rng.shuffle(order)
    second = ctx.drive(binary, [again[i] for i in order])
    back = dict(zip(order, second))
    last = {}
    for i, c in enumerate(again):
        last.setdefault(c["s"], []).append(back[i])
    rows = []
    for i, e in enumerate(ev):
        rows.append(e)
        if i + 1 == len(ev) or ev[i + 1]["s"] != e["s"]:
            rows += last.pop(e["s"], [])
    for e in rows:
        e["wgt"] = 1 + e.get("n", 0) // 50 if e["e"] != "snext" else 2
        if e["e"] == "again":
            e.pop("fs", None)
    ctx.sample(*[e for e in rows if e["e"] in ("snext", "int")][:6])
    ctx.validate("RandTrace", rows)
    ctx.notes["streams"] = sum(e["e"] == "stream" for e in rows)
    ctx.notes["sobol points"] = sum(e.get("n", 0) for e in rows if e["e"] == "snext")
    ctx.assumptions.append("a Sobol sequence is drawn in a fixed number of coordinates between restarts; ranges are not empty and their width is finite; "
                           "stretched values are compared in 2^-24 of the width, and for very narrow ranges only against the bounds")
