package main

import (
	"math"
	"reflect"
	"strconv"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/math/interpolate"
)

const (
	sc1 = 16384
	sc3 = 4096
)

type table struct {
	kind   string
	ax     [][]int
	u      float64
	v      float64 // the unit values are given in, a power of two
	i1     interpolate.Interpolator
	i2     interpolate.BiInterpolator
	i3     interpolate.TriInterpolator
	sp     *interpolate.Spline
	xs     [][]float64
	vals   []float64
	kx     [][]float64
	kv     []float64
	x0, dx []float64
}

func axes(c drv.J) [][]int {
	var out [][]int
	for _, r := range c.L("ax") {
		out = append(out, drv.J{"r": r}.Is("r"))
	}
	return out
}

func cp(v []float64) []float64 { return append([]float64{}, v...) }

func (t *table) kept() bool {
	return reflect.DeepEqual(t.xs, t.kx) && reflect.DeepEqual(t.vals, t.kv)
}

// real returns the real coordinate of x units along axis a.
func (t *table) real(a, x int) float64 {
	if t.kind[0] == 'u' { // nodes of uniform tables are where the table says
		h := t.ax[a][1] - t.ax[a][0]
		d := x - t.ax[a][0]
		if d%h == 0 {
			return t.x0[a] + float64(d/h)*t.dx[a]
		}
		return t.x0[a] + float64(d)/float64(h)*t.dx[a]
	}
	return float64(x) * t.u
}

func (t *table) set(c drv.J) {
	t.kind = c.S("kind")
	t.ax = axes(c)
	t.u, _ = strconv.ParseFloat(c.S("u"), 64)
	t.v = math.Ldexp(1, c.I("v2"))
	t.vals = c.Fs("vals", 1/t.v)
	t.kv = cp(t.vals)
	t.xs, t.kx, t.x0, t.dx = nil, nil, nil, nil
	for _, ax := range t.ax {
		xs := make([]float64, len(ax))
		for i := range ax {
			xs[i] = float64(ax[i]) * t.u
		}
		t.xs = append(t.xs, xs)
		t.kx = append(t.kx, cp(xs))
		t.x0 = append(t.x0, xs[0])
		d := 0
		if len(ax) > 1 {
			d = ax[1] - ax[0]
		}
		t.dx = append(t.dx, float64(d)*t.u)
	}
}

func (t *table) make(iface bool) {
	x, x0, dx, v := t.xs, t.x0, t.dx, t.vals
	n := func(a int) int { return len(t.ax[a]) }
	switch t.kind {
	case "linear":
		if iface {
			t.i1 = interpolate.NewLinearInterpolator(x[0], v)
		} else {
			t.i1 = interpolate.NewLinear(x[0], v)
		}
	case "ulinear":
		if iface {
			t.i1 = interpolate.NewUniformLinearInterpolator(x0[0], dx[0], v)
		} else {
			t.i1 = interpolate.NewUniformLinear(x0[0], dx[0], v)
		}
	case "spline":
		if iface {
			t.i1 = interpolate.NewSplineInterpolator(x[0], v)
			t.sp, _ = t.i1.(*interpolate.Spline)
		} else {
			t.sp = interpolate.NewSpline(x[0], v)
			t.i1 = t.sp
		}
	case "bilinear":
		if iface {
			t.i2 = interpolate.NewBiLinearInterpolator(x[0], x[1], v)
		} else {
			t.i2 = interpolate.NewBiLinear(x[0], x[1], v)
		}
	case "ubilinear":
		if iface {
			t.i2 = interpolate.NewUniformBiLinearInterpolator(x0[0], dx[0], n(0), x0[1], dx[1], n(1), v)
		} else {
			t.i2 = interpolate.NewUniformBiLinear(x0[0], dx[0], n(0), x0[1], dx[1], n(1), v)
		}
	case "bicubic":
		if iface {
			t.i2 = interpolate.NewBiCubicInterpolator(x[0], x[1], v)
		} else {
			t.i2 = interpolate.NewBiCubic(x[0], x[1], v)
		}
	case "ubicubic":
		if iface {
			t.i2 = interpolate.NewUniformBiCubicInterpolator(x0[0], dx[0], n(0), x0[1], dx[1], n(1), v)
		} else {
			t.i2 = interpolate.NewUniformBiCubic(x0[0], dx[0], n(0), x0[1], dx[1], n(1), v)
		}
	case "trilinear":
		if iface {
			t.i3 = interpolate.NewTriLinearInterpolator(x[0], x[1], x[2], v)
		} else {
			t.i3 = interpolate.NewTriLinear(x[0], x[1], x[2], v)
		}
	case "utrilinear":
		if iface {
			t.i3 = interpolate.NewUniformTriLinearInterpolator(x0[0], dx[0], n(0), x0[1], dx[1], n(1), x0[2], dx[2], n(2), v)
		} else {
			t.i3 = interpolate.NewUniformTriLinear(x0[0], dx[0], n(0), x0[1], dx[1], n(1), x0[2], dx[2], n(2), v)
		}
	case "tricubic":
		if iface {
			t.i3 = interpolate.NewTriCubicInterpolator(x[0], x[1], x[2], v)
		} else {
			t.i3 = interpolate.NewTriCubic(x[0], x[1], x[2], v)
		}
	case "utricubic":
		if iface {
			t.i3 = interpolate.NewUniformTriCubicInterpolator(x0[0], dx[0], n(0), x0[1], dx[1], n(1), x0[2], dx[2], n(2), v)
		} else {
			t.i3 = interpolate.NewUniformTriCubic(x0[0], dx[0], n(0), x0[1], dx[1], n(1), x0[2], dx[2], n(2), v)
		}
	}
}

func tableHandlers(h map[string]drv.Handler) {
	ts := map[string]*table{}
	fresh := h["fresh"]
	h["fresh"] = func(c drv.J) drv.J { ts = map[string]*table{}; return fresh(c) }
	h["new"] = func(c drv.J) drv.J {
		t := &table{}
		t.set(c)
		if c.B("reinit") {
			old := ts[c.S("o")]
			if c.B("inplace") && len(old.vals) == len(t.vals) {
				// the new table is written over the old one
				copy(old.xs[0], t.xs[0])
				copy(old.vals, t.vals)
				t.xs[0], t.vals = old.xs[0], old.vals
			}
			old.sp.Init(t.xs[0], t.vals)
			t.sp, t.i1 = old.sp, old.sp
		} else {
			t.make(c.B("iface"))
		}
		ts[c.S("o")] = t
		out := drv.J{"kept": t.kept()}
		if t.sp != nil {
			m2 := make([]int, len(t.xs[0]))
			for i, x := range t.xs[0] {
				m2[i] = drv.Rx(t.sp.Deriv(x, 2)*t.u*t.u/t.v, sc1)
			}
			out["m2"] = m2
		}
		return out
	}
	h["eval"] = func(c drv.J) drv.J {
		t := ts[c.S("o")]
		d := len(t.ax)
		cs := make([][]float64, d)
		np := 0
		for _, p := range c.L("pts") {
			for a, x := range (drv.J{"p": p}).Is("p") {
				cs[a] = append(cs[a], t.real(a, x))
			}
			np++
		}
		sc := float64(sc3)
		if d == 1 {
			sc = sc1
		}
		var out []float64
		buf := make([]float64, np)
		kept := true
		switch mode := c.S("mode"); {
		case mode == "one":
			for i := 0; i < np; i++ {
				switch d {
				case 1:
					out = append(out, t.i1.Eval(cs[0][i]))
				case 2:
					out = append(out, t.i2.Eval(cs[0][i], cs[1][i]))
				case 3:
					out = append(out, t.i3.Eval(cs[0][i], cs[1][i], cs[2][i]))
				}
			}
		case mode == "all" && d == 1:
			out = t.i1.EvalAll(cs[0])
		case mode == "all" && d == 2:
			out = t.i2.EvalAll(cs[0], cs[1])
		case mode == "all":
			out = t.i3.EvalAll(cs[0], cs[1], cs[2])
		case d == 1:
			out = t.i1.EvalAll(cs[0], buf)
		case d == 2:
			out = t.i2.EvalAll(cs[0], cs[1], buf)
		default:
			out = t.i3.EvalAll(cs[0], cs[1], cs[2], buf)
		}
		if c.S("mode") == "into" {
			kept = len(out) == np && (np == 0 || &out[0] == &buf[0])
		}
		return drv.J{"out": drv.Rxs(out, sc/t.v), "kept": kept && t.kept()}
	}
	h["deriv"] = func(c drv.J) drv.J {
		t := ts[c.S("o")]
		k := c.I("k")
		return drv.J{"out": drv.Rx(t.sp.Deriv(t.real(0, c.I("x")), k)*math.Pow(t.u, float64(k))/t.v, sc1), "kept": t.kept()}
	}
	h["integ"] = func(c drv.J) drv.J {
		t := ts[c.S("o")]
		return drv.J{"out": drv.Rx(t.sp.Integrate(t.real(0, c.I("lo")), t.real(0, c.I("hi")))/t.u/t.v, sc1), "kept": t.kept()}
	}
	h["tridiag"] = func(c drv.J) drv.J {
		um, ur := math.Ldexp(1, c.I("u2")), math.Ldexp(1, c.I("v2"))
		as, bs, cs, rs := c.Fs("as", 1/um), c.Fs("bs", 1/um), c.Fs("cs", 1/um), c.Fs("rs", 1/ur)
		var out []float64
		if c.B("at") {
			out = make([]float64, len(bs))
			for i := range out {
				out[i] = 77
			}
			interpolate.TriDiagAt(as, bs, cs, rs, out)
		} else {
			out = interpolate.TriDiag(as, bs, cs, rs)
		}
		kept := reflect.DeepEqual([][]float64{as, bs, cs, rs}, [][]float64{c.Fs("as", 1/um), c.Fs("bs", 1/um), c.Fs("cs", 1/um), c.Fs("rs", 1/ur)})
		return drv.J{"out": drv.Rxs(out, sc1*um/ur), "kept": kept}
	}
}
