"""C19 interpolators."""
import random

U1 = ["1", "0.5", "4", "0.0625"]
U2 = [repr(2.0 ** k) for k in (-60, -30, -20, 12, 25, 40)]     # lengths in centimetres, in Hubble lengths ...
V2 = [0, 0, 0, -60, -30, -11, 8, 40]


def nodes(rng, n, widths, uniform=False):
    x = [2 * rng.randint(-5, 5)]
    w = rng.choice(widths)
    for _ in range(n - 1):
        x.append(x[-1] + (w if uniform else rng.choice(widths)))
    return x[::-1] if rng.random() < .5 else x


def table(rng, kind):
    uni = kind[0] == "u"
    base = kind[1:] if uni else kind
    dim = 1 if base in ("linear", "spline") else 2 if base.startswith("bi") else 3
    if base == "spline":
        ax = [nodes(rng, rng.choice([2, 3, 3, 4, 5, 7, rng.randint(2, 14)]), rng.choice([[2, 4, 6, 8], [2], [2, 8]]))]
    elif base == "linear":
        ax = [nodes(rng, rng.choice([2, 3, 5, rng.randint(2, 15)]), rng.choice([[1, 2, 3], [1, 40], [5]]), uni)]
    elif "cubic" in base:
        ax = [nodes(rng, rng.randint(2, 5 if dim == 2 else 4), rng.choice([[2, 4], [2], [4]]), uni) for _ in range(dim)]
    else:
        ax = [nodes(rng, rng.randint(2, 6 if dim == 2 else 4), rng.choice([[1, 2, 5], [2], [3, 6]]), uni) for _ in range(dim)]
    size = 1
    for a in ax:
        size *= len(a)
    m = 40 if dim == 1 else 9
    if rng.random() < .25:      # multilinear tables
        cs = [rng.randint(-1, 1) for _ in range(dim)]
        vals = []
        for i in range(size):
            v, r = 3, i
            for a, c in zip(ax, cs):
                v += c * a[r % len(a)] // 2
                r //= len(a)
            vals.append(max(-m, min(m, v)))
    else:
        vals = [rng.randint(-m, m) for _ in range(size)]
    u = rng.choice(U1 if rng.random() < .6 else U2) if not uni or rng.random() < .8 else rng.choice(["0.1", "0.3"])
    return {"kind": kind, "ax": ax, "vals": vals, "u": u, "v2": rng.choice(V2), "iface": rng.random() < .3, "reinit": False}


def coord(rng, a, spline_even=False):
    lo, hi = min(a), max(a)
    r = rng.random()
    if r < .4:
        return rng.choice(a)
    if r < .5:
        return rng.choice([lo, hi])
    return rng.randint(lo, hi)


def outside(rng, a):
    return rng.choice([min(a) - rng.choice([1, 7, 1000]), max(a) + rng.choice([1, 7, 1000])])


KINDS = ["linear", "ulinear", "spline", "spline", "bilinear", "ubilinear", "bicubic", "ubicubic", "trilinear", "utrilinear", "tricubic", "utricubic"]


def histories(rng, sessions):
    for s in range(sessions):
        yield {"e": "fresh", "s": s}
        tabs = {}
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            if not tabs or r < .22:
                o = rng.choice("abcd")
                t = table(rng, rng.choice(KINDS))
                if r < .02 and t["kind"] != "ulinear":      # no such table
                    t["vals"] = t["vals"] + [1]
                    yield {"e": "new", "s": s, "o": o, **t}
                    continue
                if r < .04 and t["kind"] == "spline" and len(t["vals"]) > 2:
                    t["ax"][0][1] = t["ax"][0][0] + (100 if t["ax"][0][0] > t["ax"][0][-1] else -100)
                    if sorted(t["ax"][0]) != t["ax"][0] and sorted(t["ax"][0])[::-1] != t["ax"][0]:
                        yield {"e": "new", "s": s, "o": o, **t}
                    continue
                tabs[o] = t
                yield {"e": "new", "s": s, "o": o, **t}
                continue
            o = rng.choice(sorted(tabs))
            t = tabs[o]
            if t["kind"] == "spline" and r < .5:
                a = t["ax"][0]
                even = [x for x in range(min(a), max(a) + 1) if x % 2 == 0]
                k = rng.choice(["deriv", "integ", "integ", "reinit"])
                if k == "deriv":
                    yield {"e": "deriv", "s": s, "o": o, "k": rng.choice([0, 1, 2, 3, 4]), "x": outside(rng, a) if rng.random() < .1 else coord(rng, a)}
                elif k == "integ":
                    lo, hi = rng.choice(even), rng.choice(even + [even[0], even[-1]])
                    if rng.random() < .1:
                        lo = outside(rng, a)
                    if rng.random() < .5:
                        lo, hi = hi, lo
                    yield {"e": "integ", "s": s, "o": o, "lo": lo, "hi": hi}
                else:
                    n = len(t["vals"])
                    t2 = {**table(rng, "spline"), "reinit": True, "iface": False, "inplace": rng.random() < .4}
                    if len(t2["vals"]) != n and rng.random() < .8:
                        t2["ax"] = [nodes(rng, n, [2, 4, 6])]
                        t2["vals"] = [rng.randint(-40, 40) for _ in range(n)]
                    if rng.random() < .3:   # the same table the other way around
                        t2.update(ax=[t["ax"][0][::-1]], vals=t["vals"][::-1], u=t["u"], v2=t["v2"])
                    yield {"e": "new", "s": s, "o": o, **t2}
                    if len(t2["vals"]) == n:
                        tabs[o] = t2
                continue
            if r > .95:
                n = rng.randint(1, 9)
                a, c = [rng.randint(-3, 3) for _ in range(n)], [rng.randint(-3, 3) for _ in range(n)]
                b = [rng.choice([-1, 1]) * (abs(x) + abs(y) + rng.randint(1, 3)) for x, y in zip(a, c)]
                x = [rng.randint(-9, 9) for _ in range(n)]
                rs = [b[i] * x[i] + (a[i] * x[i - 1] if i else 0) + (c[i] * x[i + 1] if i + 1 < n else 0) for i in range(n)]
                yield {"e": "tridiag", "s": s, "as": a, "bs": b, "cs": c, "rs": rs, "x": x, "u2": rng.choice(V2), "v2": rng.choice(V2), "at": rng.random() < .5}
                continue
            # evaluations stay on a coordinate for a while, as caches expect
            pts, p = [], [coord(rng, a) for a in t["ax"]]
            for _ in range(rng.randint(1, 6)):
                p = [coord(rng, a) if rng.random() < (.5 if k else .9) else x for k, (a, x) in enumerate(zip(t["ax"], p))]
                pts.append(p)
            if rng.random() < .15:
                k = rng.randrange(len(t["ax"]))
                q = list(pts[-1])
                q[k] = outside(rng, t["ax"][k])
                if rng.random() < .6:   # on its own, and asked again
                    yield {"e": "eval", "s": s, "o": o, "mode": "one", "pts": [q]}
                    q2 = [x if i == k or rng.random() < .5 else coord(rng, t["ax"][i]) for i, x in enumerate(q)]
                    yield {"e": "eval", "s": s, "o": o, "mode": "one", "pts": [q2]}
                    back = list(q)
                    back[k] = pts[-1][k]
                    pts = [back] + pts
                else:
                    pts.insert(rng.randint(0, len(pts)), q)
            yield {"e": "eval", "s": s, "o": o, "mode": rng.choice(["one", "one", "all", "into"]), "pts": pts}


def large(rng, s0, quick):
    """long tables"""
    for k, (kind, n) in enumerate([("linear", 70000), ("linear", 40000), ("ulinear", 70000), ("spline", 300)] + [("linear", 140000), ("linear", 33000), ("spline", 600), ("spline", 1000)] * (not quick)):
        ax = nodes(rng, n, {"linear": [1, 40, 1, 2, 3], "ulinear": [5], "spline": [2, 4, 6]}[kind], kind == "ulinear")
        t = {"kind": kind, "ax": [ax], "vals": [rng.randint(-40, 40) for _ in range(n)], "u": "1", "v2": 0, "iface": False, "reinit": False}
        yield {"e": "fresh", "s": s0 + k}
        yield {"e": "new", "s": s0 + k, "o": "a", **t}
        near = [ax[i] + d for i in [0, 1, n - 1, n - 2, n // 2] + [rng.randrange(n) for _ in range(6)] for d in (0, 1)]
        yield {"e": "eval", "s": s0 + k, "o": "a", "mode": rng.choice(["one", "all"]), "pts": [[min(max(x, min(ax)), max(ax))] for x in near]}


def run(ctx):
    ctx.model_check("SplineLaws")
    ctx.model_check("InterpCache")
    if not ctx.quick:
        ctx.model_check("SplineLaws", "SplineLaws_deep.cfg")
    rng = random.Random(ctx.seed * 7919 + 19)
    n = 2500 if ctx.quick else 30000
    ev = ctx.drive(ctx.build("cmd/interpd"), list(histories(rng, n)) + list(large(rng, n, ctx.quick)))
    for e in ev:
        e["wgt"] = 1 + len(e.get("pts", [])) * len(e.get("pts", [[]])[0]) + len(e.get("vals", [])) // 10
    ctx.sample(*ev[:4], *ev[-3:])
    ctx.validate("InterpTrace", ev)
    ctx.notes["histories"] = n
    ctx.assumptions.append("tables have integer nodes (in units of a power of two between 2^-60 and 2^40, values likewise; also 0.1 and 0.3 for uniform tables) and bounded integer values; "
                           "at a node the third derivative may be that of either side; answers are compared after rounding to 1/16384 or 1/4096")
