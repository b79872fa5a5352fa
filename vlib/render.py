"""Generation of boxes, segments and points for the rendering checks.  Positions are
integers: 1/sub pixels of a grid with `cells` pixels per side.  For dyadic pixel widths
sub = 8 and every position is exact, pixel edges included; otherwise sub = 10 and positions
stay a tenth of a pixel away from the edges, so that rounding cannot move them."""

QS = ["Density", "Velocity", "DensityGradient", "VelocityDivergence", "VelocityCurl"]


class Scale:
    def __init__(self, rng, cells=None, dyadic=None):
        self.rng = rng
        self.cells = cells or rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 20, 31, 32, 50, 64, 100])
        self.dyadic = rng.random() < .7 if dyadic is None else dyadic
        if self.dyadic:
            self.sub, self.L = 8, self.cells * rng.choice([1, .5, .25, 2, 4, 1.5])
        else:
            self.sub, self.L = 10, rng.choice([1, 10, 62.5, 100, 125.0, 250, 3.7])
        self.full = self.cells * self.sub

    def base(self):
        return {"L": repr(float(self.L)), "cells": self.cells, "sub": self.sub}

    def ok(self, k):
        return self.dyadic or k % self.sub not in (0,)

    def pos(self, lo=0, hi=None):
        """a position in [lo, hi): often near an edge"""
        hi = self.full if hi is None else hi
        while True:
            k = self.rng.randrange(lo, hi)
            if self.dyadic and self.rng.random() < .4:
                k = max(lo, min(hi - 1, k // self.sub * self.sub + self.rng.choice([-1, 0, 0, 0, 1])))
            if self.ok(k):
                return k
            if hi - lo <= 1:
                return k + 1

    def span(self, x, maxpix):
        """a width of up to maxpix pixels for a range that starts at x"""
        while True:
            w = self.rng.choice([1, self.sub, self.rng.randrange(1, maxpix * self.sub + 1), self.sub * self.rng.randint(1, maxpix)])
            w = min(w, self.full)
            if self.ok(x + w):
                return w


def span_of(x, w, sub):
    return (x + w) // sub + 1 - x // sub


def box(sc, bid, q, axis, maxvol=260, big=False):
    rng, sub = sc.rng, sc.sub
    while True:
        # often next to the periodic boundary
        e = min(3, sc.cells)
        X = [sc.pos() if rng.random() < .6 else sc.pos(0, e * sub) if rng.random() < .6 else sc.pos(sc.full - e * sub, sc.full) for _ in range(3)]
        lim = sc.cells
        W = [sc.span(x, rng.choice([1, 2, 3, 5, lim])) for x in X]
        if big:
            d = rng.randrange(3)
            if sc.dyadic or (X[d] + sc.full) % sub:
                W[d] = sc.full
        sp = [span_of(x, w, sub) for x, w in zip(X, W)]
        vol = 1
        for d in range(3):
            vol *= 1 if axis and "XYZ"[d] == axis and q in ("Density", "Velocity") else sp[d]
        if vol <= maxvol:
            return dict(sc.base(), e="newbox", bid=bid, X=X, W=W, axis=axis, q=q, pts=rng.randint(1, 500))


def segment(sc, near=None, maxfrac=.95):
    """origin and width of a sheet segment; its pixel range stays narrower than the grid"""
    rng, sub = sc.rng, sc.sub
    top = max(1, min(sc.cells - 1, int(sc.cells * maxfrac)))
    O, W = [], []
    for d in range(3):
        while True:
            if near is not None and near["X"][d] < sc.full // 2 and rng.random() < .3:
                # from below the periodic boundary up to the box
                o = sc.pos(sc.full - min(3, sc.cells) * sub, sc.full)
                w = sc.full - o + near["X"][d] + rng.randint(0, near["W"][d])
                if sc.ok(o + w) and span_of(o, w, sub) <= top:
                    break
                continue
            elif near is not None and rng.random() < .7:
                o = (near["X"][d] + rng.randint(-3 * sub, 3 * sub)) % sc.full
                if not sc.ok(o):
                    continue
            else:
                o = sc.pos()
            w = sc.span(o, top) if rng.random() < .5 else sc.span(o, min(3, top))
            if span_of(o, w, sub) <= top:
                break
            if top == 1:
                w = (o // sub + 1) * sub - 1 - o
                if w >= 0 and sc.ok(o + w):
                    break
        O.append(o)
        W.append(w)
    return O, W


def points(sc, O, W, n, bx=None):
    rng, out = sc.rng, []
    for _ in range(n):
        for d in range(3):
            lo, hi = O[d], O[d] + W[d]
            r = rng.random()
            if r < .15:
                k = lo
            elif r < .3:
                k = hi
            elif r < .6 and bx is not None:       # near the faces of the box
                e = rng.choice([bx["X"][d], bx["X"][d] + bx["W"][d]])
                k = e + rng.randint(-sc.sub, sc.sub)
                if rng.random() < .5:
                    k = k // sc.sub * sc.sub
                for s in (0, sc.full, -sc.full):
                    if lo <= k + s <= hi:
                        k += s
                        break
                else:
                    k = rng.randint(lo, hi)
            else:
                k = rng.randint(lo, hi)
                if sc.dyadic and rng.random() < .3:
                    k = max(lo, k // sc.sub * sc.sub)
            if not sc.ok(k):
                k = k + 1 if k < hi else (k - 1 if k > lo else k)
            out.append(k % sc.full)
    return out
