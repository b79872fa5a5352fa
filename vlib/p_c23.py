"""C23 halo catalogues."""
import random
from fractions import Fraction

KPC, MASSES = (11, 12, 34), (9, 10, 35, 36, 37, 38, 39, 54, 55)
TYPES = {"vir": 177653, "r200c": 200000, "r200m": 200000, "r500c": 500000, "r2500c": 2500000}
NAMES = ["200m", "R200m", "r200M", "vir", "RVIR", "Vir", "rvir", "200c", "R200C", "500c", "r500c", "2500c", "R2500c", "", "200", "200b", "m200c", "rvirial", "r200", " vir", "2500", "r2500m"]


def table(rng, s, t, most):
    n = rng.choice([0, 1, 2, 3, rng.randint(4, most), rng.randint(4, most)])
    ex = []
    for k in range(62):
        ex.append(0 if k == 1 else rng.randint(10, 30) if k in MASSES else rng.choice([0, -1, -3, -6, 2]))
    ids = rng.sample(range(1, 2**31 - 1), n) if rng.random() < .6 else rng.sample(range(n * 2 + 1), n)
    rows = []
    tie = rng.random() < .4
    for i in range(n):
        row = []
        for k in range(62):
            if k == 1:
                v = ids[i]
            elif k in MASSES or k in KPC:
                v = rng.randint(1, 3) if tie else rng.choice([rng.randint(1, 2**12), rng.randint(1, 2**28)])
            else:
                v = rng.choice([rng.randint(-2**28, 2**28), rng.randint(-50, 50), 0])
            row.append(v)
        rows.append(row)
    return {"e": "table", "s": s, "t": t, "rows": rows, "ex": ex, "messy": rng.random() < .5, "extra": rng.choice([0, 0, 1, 3])}


def cosmo(rng):
    return {"a": rng.choice([27, 30, 100, rng.randint(1, 100)]), "n": rng.choice([0, 0, 8, rng.randint(-4, 8)]), "h": rng.choice([70, 100, rng.randint(40, 100)])}


def wanted(rng):
    r = rng.random()
    if r < .1:
        return list(range(62)) + [100, 101, 102, 103, 104]
    if r < .2:
        return []
    pool = [rng.randint(0, 61), rng.choice([11, 12, 34]), rng.randint(100, 104), rng.choice([0, 1, 10, 36, 37, 38, 39, 60, 61])]
    return [rng.choice(pool + [rng.randint(0, 61), rng.randint(100, 104)]) for _ in range(rng.randint(1, 6))]


def limit(rng, n, p=.2):
    """a file size writes fail at, somewhere in or after a file of n rows; mostly none"""
    full = 8 + 496 * n
    return max(0, rng.choice([0, 7, 8, full, full - 1, full - 8, full + 1, rng.randint(0, full)])) if rng.random() < p else -1


def histories(rng, sessions, most, first=0):
    for s in range(first, first + sessions):
        yield {"e": "fresh", "s": s}
        t = table(rng, s, "t", most)
        yield t
        ex, have = t["ex"], {"t": len(t["rows"])}      # one set of units in a session
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            src = rng.choice([k for k in "tu" if k in have])
            if r < .1:
                t = table(rng, s, rng.choice("tu"), most)
                t["ex"] = ex
                have[t["t"]] = len(t["rows"])
                yield t
            elif r < .3 or not ("p" in have or "q" in have):
                b = rng.choice("pq")
                have[b] = 1
                if rng.random() < .4:
                    yield {"e": "convert", "s": s, "t": src, "b": b, "limit": limit(rng, have[src])}
                else:
                    n = have[src]
                    yield {"e": "topn", "s": s, "t": src, "b": b, "limit": limit(rng, rng.randint(0, n)), "n": rng.choice([0, 1, n, n + 1, n - 1 if n else 0, rng.randint(0, n + 2)])}
            elif r < .36 and ("p" in have or "q" in have):
                yield {"e": "cut", "s": s, "b": rng.choice([b for b in "pq" if b in have]), "size": max(limit(rng, have["t"], 1), 0)}
            elif r < .8:
                yield {"e": "read", "s": s, "f": rng.choice(sorted(have)), "vals": wanted(rng), **cosmo(rng)}
            else:
                yield {"e": "sorted", "s": s, "t": src, "rt": rng.choice(sorted(TYPES)), **cosmo(rng)}


def radii(rng, n):
    for i in range(n):
        c = cosmo(rng)
        rt = rng.choice(sorted(TYPES))
        rs = [rng.choice([0, 1, 8, rng.randint(0, 8), rng.randint(0, 8)]) for _ in range(rng.randint(0, 5))]
        top = Fraction(c["a"], 51200) if rt == "r200m" else Fraction(c["a"] * (8 + c["n"]) ** 3 + 512 * (100 - c["a"]), 51200 * (8 + c["n"]) ** 3)
        k = 0
        while top * 512 * 2 ** (k + 1) < 2 ** 27 and k < 22:
            k += 1
        yield {"e": "radius", "s": 10**6 + i // 50, "rt": rt, "rs": rs, "delta": TYPES[rt], "k": k, "inplace": rng.random() < .4, **c}


def run(ctx):
    ctx.model_check("Catalog")
    if not ctx.quick:
        ctx.model_check("Catalog", "Catalog_deep.cfg")
    rng = random.Random(ctx.seed * 7919 + 23)
    n = 300 if ctx.quick else 4000
    cases = list(histories(rng, n, 12 if ctx.quick else 40)) + list(histories(rng, 4, 500, n)) + list(histories(rng, 2 if ctx.quick else 8, 3000, n + 4)) + list(radii(rng, 4 * n))
    cases += [{"e": "name", "s": -1, "name": x, "low": x.lower()} for x in NAMES]
    cases += [{"e": "missing", "s": -1, "op": op} for op in ("convert", "topn", "bin", "text", "sorted", "convert to", "topn to")]
    ev = ctx.drive(ctx.build("cmd/halod"), cases)
    for e in ev:
        e["wgt"] = 1 + len(e.get("rows", [])) + len(e.get("ids", []))
    ctx.sample(*[e for e in ev if e["e"] in ("read", "sorted") and len(str(e)) < 900][:4], ev[-30])
    ctx.validate("CatalogTrace", ev)
    ctx.notes["tables"] = sum(e["e"] == "table" for e in ev)
    ctx.assumptions.append("text tables are parsed by a stand-in for the table module, which is not available offline; ids are distinct; values are exact in binary")
