"""C18 matrix algebra."""
import random
from fractions import Fraction


def inverse_norms(a):
    """(max row sum of a) * (max row sum of its inverse), or None when singular; exact."""
    n = len(a)
    m = [[Fraction(v) for v in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] != 0), None)
        if p is None:
            return None
        m[c], m[p] = m[p], m[c]
        m[c] = [v / m[c][c] for v in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return max(sum(abs(v) for v in r) for r in a) * max(sum(abs(v) for v in r[n:]) for r in m)


def regular(rng, n, limit):
    while True:
        kind = rng.choice(["dense", "sparse", "dominant", "small"])
        if kind == "dominant" or n > 6:
            a = [[rng.randint(-2, 2) if rng.random() < .5 else 0 for _ in range(n)] for _ in range(n)]
            for i in range(n):
                a[i][i] = rng.choice([-1, 1]) * (1 + sum(map(abs, a[i])) + rng.randint(0, 3))
        elif kind == "dense":
            a = [[rng.randint(-9, 9) for _ in range(n)] for _ in range(n)]
        elif kind == "small":
            a = [[rng.randint(-1, 1) for _ in range(n)] for _ in range(n)]
        else:
            a = [[rng.randint(-9, 9) if rng.random() < .4 else 0 for _ in range(n)] for _ in range(n)]
        rng.shuffle(a)
        c = inverse_norms(a)
        if c is not None and c <= limit:
            return a


def columns(rng, n):
    """Columns of very different sizes: the pivots of some are small throughout."""
    while True:
        s = [rng.choice([0, 0, 5, 6]) for _ in range(n)]
        a = [[rng.randint(-4, 4) << s[j] if rng.random() < .75 else 0 for j in range(n)] for _ in range(n)]
        c = inverse_norms(a)
        if c is not None and c <= 20000:
            return a


def graded(rng):
    """Well posed once rows are scaled, but only if small entries are not taken as pivots."""
    while True:
        n = rng.randint(2, 4)
        a = [[rng.choice([-1, 1]) if rng.random() < .4 else rng.randint(-5, 5) << 14 for _ in range(n)] for _ in range(n)]
        if any(not any(r) for r in a):
            continue
        c = inverse_norms([[Fraction(v, max(map(abs, r))) for v in r] for r in a])
        if c is not None and c <= 40:
            return a


def mul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def rmat(rng, h, w, m=9):
    return [[rng.randint(-m, m) for _ in range(w)] for _ in range(h)]


def scale(rng, a, t):
    """powers of two the rows are multiplied with: a common one, and a small one for each row"""
    g = rng.choice([0, 0, 0, 0, 30, -30, 70, -70, 100, -100] if t == 64 else [0, 0, 0, 12, -12, 20, -20])
    return [g + rng.randint(-3, 3) for _ in a]


def units(rng, t):
    k = 200 if t == 64 else 20
    return {"u": rng.choice([0, 0, rng.randint(-k, k)]), "v": rng.choice([0, 0, rng.randint(-k, k)])}


def histories(rng, sessions, big):
    for s in range(sessions):
        yield {"e": "fresh", "s": s}
        held = {}
        for _ in range(rng.randint(2, 9)):
            t = rng.choice([64, 64, 32])
            lu = rng.choice(["p", "q"] if t == 64 else ["f", "g"])
            lim = 3000 if t == 64 else 60
            kind = rng.choice(["factor", "factor", "solve", "solve", "solvem", "inv", "det", "one", "mult", "mult", "mulvec", "vecmul", "transp", "bad", "make"])
            base = {"s": s, "t": t, "lu": lu, "one": False}
            if kind == "factor" or (kind in ("solve", "solvem", "inv", "det") and lu not in held):
                reuse = lu in held and rng.random() < .7
                n = len(held[lu]) if reuse else rng.choice([1, 2, 3, 3, 4, 5, 6, rng.randint(7, big)])
                a = columns(rng, n) if t == 64 and 2 <= n <= 3 and rng.random() < .3 else regular(rng, n, lim)
                if lu in held and rng.random() < .5 and len(held[lu]) <= 5:
                    yield {**base, "e": "det"}
                held[lu] = a
                yield {**base, "e": "factor", "a": a, "rs": scale(rng, a, t), "fresh": not reuse, "alloc": rng.random() < .3, "n": n}
                if n <= 5 and rng.random() < .4:
                    yield {**base, "e": "det"}
            elif kind in ("solve", "solvem", "inv", "det", "one"):
                if kind == "one" and t == 32 and rng.random() < .4:
                    a = graded(rng)
                    base.update(one=True, a=a, rs=[0] * len(a))
                    kind = rng.choice(["solve", "solvem"])
                elif kind == "one":
                    a = regular(rng, rng.choice([1, 2, 3, 4, 5, 6, rng.randint(7, big)]), lim)
                    base.update(one=True, a=a, rs=scale(rng, a, t))
                    kind = rng.choice(["solve", "solvem", "inv", "det"])
                else:
                    a = held[lu]
                n = len(a)
                base["alias"] = rng.random() < .3 and not base["one"]
                if kind == "det" and n > 5:
                    kind = "inv"
                if kind == "solve":
                    x = [rng.randint(-9, 9) for _ in a]
                    yield {**base, "e": "solve", "x": x, "b": [r[0] for r in mul(a, [[v] for v in x])]}
                elif kind == "solvem":
                    x = rmat(rng, n, n)
                    yield {**base, "e": "solvem", "x": x, "b": mul(a, x)}
                else:
                    yield {**base, "e": kind}
            elif kind == "mult":
                h, k, w = (rng.randint(1, 7) for _ in range(3))
                if rng.random() < .4:
                    h = k = w
                yield {**base, "e": "mult", "a": rmat(rng, h, k), "b": rmat(rng, k, w), "at": rng.random() < .5, **units(rng, t)}
            elif kind in ("mulvec", "vecmul", "transp"):
                h, w = rng.randint(1, 9), rng.randint(1, 9)
                c = {**base, "e": kind, "t": 64, "a": rmat(rng, h, w), "at": rng.random() < .5, **units(rng, 64)}
                if kind != "transp":
                    c["b"] = [rng.randint(-9, 9) for _ in range(w if kind == "mulvec" else h)]
                yield c
            elif kind == "make":
                w, h = rng.randint(0, 4), rng.randint(0, 4)
                yield {**base, "e": "make", "w": w, "h": h, "n": w * h + rng.choice([0, 0, 1, -1]) if w * h else 0}
            else:
                bad = rng.choice(["mult", "factor", "solve", "solvem", "mulvec", "vecmul"])
                if bad == "mult":
                    h, k, w = (rng.randint(1, 5) for _ in range(3))
                    yield {**base, "e": bad, "a": rmat(rng, h, k), "b": rmat(rng, k + rng.randint(1, 2), w), "at": rng.random() < .5, "u": 0, "v": 0}
                elif bad in ("mulvec", "vecmul"):
                    h, w = rng.randint(1, 5), rng.randint(1, 5)
                    yield {**base, "e": bad, "t": 64, "a": rmat(rng, h, w), "b": [1] * ((w if bad == "mulvec" else h) + rng.randint(1, 2)), "u": 0, "v": 0}
                elif lu in held:
                    n = len(held[lu])
                    if bad == "factor":     # the object is of another size; what it holds stays
                        a = regular(rng, n + 1, lim) if rng.random() < .5 else rmat(rng, n, n + 1)
                        yield {**base, "e": "factor", "a": a, "rs": [0] * len(a), "fresh": False, "alloc": False, "n": n}
                    elif bad == "solve":
                        yield {**base, "e": "solve", "b": [1] * (n + 1), "alias": False}
                    else:
                        yield {**base, "e": "solvem", "b": rmat(rng, n + 1, n + 1), "alias": False}


def run(ctx):
    ctx.model_check("LinearSolve")
    ctx.model_check("LinearSolve", "LinearSolve_3.cfg")
    if not ctx.quick:
        ctx.model_check("LinearSolve", "LinearSolve_5.cfg")
        ctx.model_check("LinearSolve", "LinearSolve_deep.cfg")
    gen = ctx.generate("MatrixGen")
    rng = random.Random(ctx.seed * 7919 + 18)
    n = 1500 if ctx.quick else 25000
    hist = list(histories(rng, n, 9 if ctx.quick else 16))
    for g in gen:
        g["s"] += n
    big = [{"e": "bigtransp", "s": -1, "w": w, "h": h} for w, h in ((2, 16000003), (16000001, 2))]
    if not ctx.quick:
        big += [{"e": "bigtransp", "s": -1, "w": 3, "h": 16000007}, {"e": "bigtransp", "s": -1, "w": 32000009, "h": 1}]
    ev = ctx.drive(ctx.build("cmd/matd"), hist + gen + big, timeout=120)
    ctx.sample(*ev[:4], *ev[-3:])
    ctx.validate("MatrixTrace", ev)
    ctx.notes["replayed_from_spec"] = len(gen)
    ctx.notes["histories"] = n
    ctx.assumptions.append("matrices have integer entries with rows scaled by powers of two (down to 2^-100, in single precision 2^-23) and a condition number of at most 3000 (60 in single precision); "
                           "values are compared after rounding to 1/65536")
