"""C13 derivative operators on grids."""
import itertools
import random


def poly(rng, deg, w):
    while True:
        P = [[rng.choice([-3, -2, -1, 1, 1, 2, 3])] + [rng.randint(0, deg) if rng.random() < .6 else 0 for _ in range(3)] for _ in range(rng.randint(1, 4))]
        if sum(abs(t[0]) * w[0] ** t[1] * w[1] ** t[2] * w[2] ** t[3] for t in P) <= 20000:
            return P


def histories(rng, n):
    for s in range(n):
        yield {"e": "fresh", "s": s}
        eff = {"nil": (False, 4), "a": (False, 4), "b": (False, 4)}
        for _ in range(rng.randint(1, 5)):
            if rng.random() < .5:
                o = rng.choice("ab")
                eff[o] = (rng.random() < .6, rng.choice([2, 4]))
                yield {"e": "opts", "s": s, "o": o, "periodic": eff[o][0], "order": eff[o][1], "op": rng.choice(["add", "sub", "none"])}
            o = rng.choice(["nil", "a", "a", "b"])
            per, order = eff[o]
            kind = rng.choice(["deriv", "grad", "div", "curl"])
            axis = rng.randint(1, 3)
            cells = rng.randint(order + 1, 10)
            need = [order + 1 if kind != "deriv" or axis == a + 1 else 1 for a in range(3)]
            w = [cells if rng.random() < .45 else rng.randint(need[a], max(need[a], 8)) for a in range(3)]
            if w[0] * w[1] * w[2] > 400:
                w = [min(x, max(need[a], 6)) if x != cells else x for a, x in enumerate(w)]
            if rng.random() < .06:      # a long axis, or a grid of some size
                a = axis - 1
                w = [min(x, 6) for x in w]
                w[a] = rng.choice([rng.randint(30, 80), rng.randint(80, 600)])
                if rng.random() < .2:
                    w = [rng.randint(12, 20) for _ in w]
                cells = rng.choice([w[a], w[a], w[a] + 1, 700])
            nf = 1 if kind in ("deriv", "grad") else 3
            yield {"e": "deriv", "s": s, "kind": kind, "axis": axis, "o": o, "org": [rng.randint(0, 9) for _ in range(3)], "w": w, "cells": cells,
                   "u": rng.choice(["1", "0.5", "4", "0.0625", "0.1", "2.3", "12.5", "1e-6", "9.5367431640625e-07", "1048576", "3e5"]), "v2": rng.choice([0, 0, 0, -40, -17, 9, 35]), "c": [rng.randrange(cells) for _ in range(3)],
                   "f": [poly(rng, order, w) for _ in range(nf)], "pre": [rng.randint(-20, 20) for _ in range(3)]}


def run(ctx):
    ctx.model_check("GridDeriv")
    gen = ctx.generate("GridDerivGen")
    rng = random.Random(ctx.seed * 7919 + 13)
    n = 350 if ctx.quick else 6000
    hist = list(histories(rng, n))
    s = n
    for g in gen:
        if g["e"] == "fresh":
            s += 1
        g["s"] = s
    if ctx.quick:       # every case shape, a third of the sessions
        k = ctx.seed % 3
        gen = [g for g in gen if g["s"] % 3 == k]
    ev = ctx.drive(ctx.build("cmd/geomd"), hist + gen)
    for e in ev:
        e["wgt"] = 1 + sum(map(len, e.get("out", []))) // 40
    ctx.sample(*[{k: (v if k != "out" else "...") for k, v in e.items()} for e in ev[:4] + ev[-3:]])
    ctx.validate("GridDerivTrace", ev)
    ctx.notes["replayed_from_spec"] = len(gen)
    ctx.notes["option_histories"] = n
    ctx.assumptions.append("an axis that is differentiated has more pixels than the order of the derivative; along a periodic axis fields are "
                           "polynomials around a centre and judged where the stencil does not reach the jump opposite it")
