"""C08 Monte Carlo passes."""
import collections, itertools, random, sys
from . import render

PERM = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
ORDERS = list(itertools.permutations(range(4)))
sys.setrecursionlimit(20000)
ORDERS.sort(key=lambda o: o != (1, 2, 3, 0))


def unit_sets(rng, n):
    out = []
    for k in range(rng.choice([1, 1, 2, 3])):
        u = []
        for j in range(n):
            r = rng.random()
            if r < .4:
                p = rng.choice([(16, 0, 0), (0, 16, 0), (0, 0, 16), (0, 0, 0)])
            elif r < .5:
                p = (4, 4, 4)
            else:
                while True:
                    p = tuple(rng.choice([0, 1, 2, 4, 8, 12, 3, 5]) for _ in range(3))
                    if sum(p) <= 16:
                        break
            u += p
        out.append(u)
    return out


def sheet(rng, sc, O, W, segw):
    """positions (unwrapped then wrapped) and velocities of the segment's grid"""
    g = segw + 1
    style = rng.choice(["random", "lattice", "lattice", "plane"])
    xs, vs = [], []
    for i in range(g ** 3):
        c = (i % g, i // g % g, i // (g * g))
        for d in range(3):
            if style == "random":
                k = O[d] + rng.randint(0, W[d])
            elif style == "lattice":
                k = O[d] + W[d] * c[d] // segw
                k = max(O[d], min(O[d] + W[d], k + rng.randint(-2, 2)))
            else:
                k = O[d] + (W[d] * c[d] // segw if d else W[0] // 2)
            xs.append(k % sc.full)
        vs += [16 * rng.randint(-9, 9) for _ in range(3)]
    return xs, vs


def session(rng, quick):
    sc = render.Scale(rng, rng.choice([4, 5, 6, 8, 10, 12, 16, 32, 64]), True)
    q = rng.choice(["Density", "Density", "Velocity", "DensityGradient", "VelocityDivergence", "VelocityCurl"])
    b = render.box(sc, 0, q, rng.choice(["", "", "X", "Y", "Z"]), 150, rng.random() < .15)
    evs = [{"e": "begin"}, b]
    for _ in range(rng.choice([1, 1, 2])):
        O, W = render.segment(sc, b, rng.choice([.45, .45, .8]))
        skip = rng.choice([1, 1, 2, 4] if not quick else [1, 1, 2])
        segw = skip * rng.choice([1, 2, 2, 3]) if skip < 4 else 4
        if not quick and skip == 1 and rng.random() < .2:
            segw = 4
        n = rng.choice([1, 2, 3, 5])
        if rng.random() < .05:        # many samples of a few tetrahedra
            n, segw, skip = rng.choice([16, 33, 64, 100, 300]), 1, 1
        xs, vs = sheet(rng, sc, O, W, segw)
        ptv = 6 * n * rng.choice([1, 2, 4]) if not q.startswith("Velocity") else 4
        evs.append(dict(sc.base(), e="pass", bid=0, O=O, Wd=W, segw=segw, skip=skip, workers=rng.choice([1, 1, 2, 3, 4, 5, 8, 13]), n=n,
                        ub=unit_sets(rng, n), xs=xs, vs=vs, ptv=ptv))
    return evs + [{"e": "vals", "bid": 0}]


def witness(e, bx):
    """For every recorded batch a tetrahedron, corner order and unit set that explain it."""
    g, k, full, n = e["segw"] + 1, e["skip"], e["cells"] * e["sub"], e["n"]
    vec = bool(e["calls"]) and len(e["calls"][0]["w"]) > 0
    pos = [[e["O"][d] + (e["xs"][3 * p + d] - e["O"][d]) % full for d in range(3)] for p in range(g ** 3)]
    table, touch = {}, {}

    def inside(p):
        return all((p[d] // (16 * e["sub"]) - bx["co"][d]) % bx["cells"] < bx["cs"][d] for d in range(3))

    def fill(orders):
        rng_ = range(0, e["segw"], k)
        for z in rng_:
            for y in rng_:
                for x in rng_:
                    for a, pm in enumerate(PERM):
                        c, s = [x, y, z], []
                        for i in range(4):
                            s.append(c[0] + g * c[1] + g * g * c[2])
                            if i < 3:
                                c[pm[i]] += k
                        t = ((x, y, z), a + 1)
                        if t not in touch:
                            touch[t] = any(inside([16 * v for v in pos[i]]) for i in s) or any(
                                inside([sum(w * pos[i][d] for w, i in zip((16 - sum(ub[3 * j:3 * j + 3]), *ub[3 * j:3 * j + 3]), s)) for d in range(3)])
                                for ub in e["ub"] for j in range(n))
                        for o in orders:
                            for u, ub in enumerate(e["ub"]):
                                key = []
                                for j in range(n):
                                    be = (ub[3 * j], ub[3 * j + 1], ub[3 * j + 2], 16 - sum(ub[3 * j:3 * j + 3]))
                                    key += [sum(be[i] * pos[s[o[i]]][d] for i in range(4)) % (16 * full) for d in range(3)]
                                    if vec:
                                        key += [sum(be[i] * e["vs"][3 * s[o[i]] + d] for i in range(4)) for d in range(3)]
                                q = {"c": [x, y, z], "a": a + 1, "o": [i + 1 for i in o], "u": u + 1}
                                table.setdefault(tuple(key), []).append(q)
    none = {"c": [-1, -1, -1], "a": 0, "o": [], "u": 0}
    fill([(1, 2, 3, 0)])
    for attempt in (0, 1):
        cands = []
        for c in e["calls"]:
            key = []
            for j in range(len(c["x"]) // 3):
                key += [v % (16 * full) for v in c["x"][3 * j:3 * j + 3]]
                if vec:
                    key += [16 * v for v in c["w"][3 * j:3 * j + 3]]
            by = {}
            for q in table.get(tuple(key), []):
                by.setdefault((tuple(q["c"]), q["a"]), q)
            cands.append(by)
        if all(cands) or attempt:
            break
        fill(ORDERS)
    # tetrahedra may coincide: match batches and tetrahedra one to one as far as possible
    adj = {}
    for i, by in enumerate(cands):
        for t in by:
            adj.setdefault(t, []).append(i)
    owner, got = {}, {}          # tetrahedron -> batch and back

    def from_tet(t, tried):
        for i in adj.get(t, []):
            if i not in tried:
                tried.add(i)
                if i not in got or from_tet(got[i], tried):
                    owner[t], got[i] = i, t
                    return True
        return False

    def from_call(i, tried):
        for t in cands[i]:
            if t not in tried:
                tried.add(t)
                if t not in owner or from_call(owner[t], tried):
                    owner[t], got[i] = i, t
                    return True
        return False
    for t in adj:                # those that reach the box first: they stay matched
        if touch[t]:
            from_tet(t, set())
    for i in range(len(cands)):
        if i not in got:
            from_call(i, set())
    for i, c in enumerate(e["calls"]):
        t = got.get(i) or next(iter(cands[i]), None)
        c["q"] = cands[i][t] if t else none


def run(ctx):
    ctx.model_check("MonteCarlo", None if ctx.quick else "MonteCarlo_deep.cfg", timeout=700)
    rng = random.Random(ctx.seed * 8009 + 8)
    rows = []
    for s in range(220 if ctx.quick else 2500):
        rows += [dict(e, s=s) for e in session(rng, ctx.quick)]
    ev = ctx.drive_parallel(ctx.build("cmd/rendd"), rows)
    kinds = collections.Counter()
    batches = skipped = 0
    for e in ev:
        e.pop("msg", None)
        e.pop("L", None)
        if e["e"] == "newbox":
            bx = e
        if e["e"] == "pass" and e["outcome"] == "ok":
            kinds[e.pop("kind").split(".")[-1]] += 1
            witness(e, bx)
            batches += len(e["calls"])
            skipped += 6 * (e["segw"] // e["skip"]) ** 3 - len(e["calls"])
    ctx.notes.update(buffers=dict(kinds), batches=batches, left_out=skipped)
    ctx.sample(*[e for e in ev if e["e"] == "pass" and e["segw"] == 1][:2])
    ctx.validate("MonteCarloTrace", ev)
    ctx.assumptions += ["the subsampling length divides the segment width", "the segment is narrower than the box"]
