"""C07 deposits."""
import collections, random
from . import render


def session(rng, quick):
    sc = render.Scale(rng)
    evs, boxes = [{"e": "begin"}], []
    for bid in range(rng.randint(1, 2)):
        q = rng.choice(render.QS[:2] * 3 + render.QS)
        b = render.box(sc, bid, q, rng.choice(["", "X", "Y", "Z"]), 260 if quick else 700, rng.random() < .1)
        boxes.append(b)
        evs.append(b)
    for _ in range(rng.randint(1, 4)):
        b = rng.choice(boxes)
        O, W = render.segment(sc, b, rng.choice([.45, .6, .95]))
        n = rng.choice([0, 1, 2, 5, 12, 30])
        vec = b["q"].startswith("Velocity")
        wts = [rng.randint(-40, 40) for _ in range(3 * n)] if vec else [rng.randint(-40, 40) for _ in range(n)] if rng.random() < .3 else []
        pts = render.points(sc, O, W, n, b)
        if wts and rng.random() < .4:      # samples at one place that cancel, and samples that weigh nothing
            m = len(wts) // n
            for i in range(n):
                r = rng.random()
                if i and r < .5:
                    pts[3 * i:3 * i + 3] = pts[3 * i - 3:3 * i]
                    wts[m * i:m * i + m] = [-w for w in wts[m * i - m:m * i]]
                elif r < .6:
                    wts[m * i:m * i + m] = [0] * m
                elif r < .7:
                    wts[m * i + rng.randrange(m)] = 0
        evs.append(dict(sc.base(), e="deposit", bid=b["bid"], O=O, Wd=W, np=n, pts=pts,
                        ptv=rng.choice([4, 4, 1, 3, 10]), wts=wts))
        if rng.random() < .3:
            evs.append({"e": "vals", "bid": b["bid"]})
    return evs + [{"e": "vals", "bid": b["bid"]} for b in boxes]


def run(ctx):
    ctx.model_check("Deposit")
    if not ctx.quick:
        ctx.model_check("Deposit", "Deposit_deep.cfg", timeout=700)
    rng = random.Random(ctx.seed * 7001 + 7)
    rows = []
    for s in range(700 if ctx.quick else 9000):
        rows += [dict(e, s=s) for e in session(rng, ctx.quick)]
    ev = ctx.drive_parallel(ctx.build("cmd/rendd"), rows)
    kinds = collections.Counter(e.pop("kind", "").split(".")[-1] for e in ev if e["e"] == "deposit")
    ctx.notes["buffers"] = dict(kinds)
    for e in ev:
        e.pop("msg", None)
        e.pop("L", None)
    ctx.sample(*[e for e in ev if e["e"] == "deposit" and e["np"] < 3][:3])
    ctx.validate("DepositTrace", ev)
    ctx.assumptions += ["points lie within the bounds of their segment's header, which is narrower than the box"]
