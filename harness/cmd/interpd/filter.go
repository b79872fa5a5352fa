package main

import (
	"math"
	"reflect"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/math/interpolate"
)

var bounds = map[string]interpolate.BoundaryCondition{
	"periodic": interpolate.Periodic, "reflection": interpolate.Reflection,
	"zero": interpolate.ZeroPad, "extension": interpolate.Extension,
}

type kern struct {
	k  *interpolate.Kernel
	sc float64
}

func filterHandlers(h map[string]drv.Handler) {
	ks := map[string]kern{}
	h["fresh"] = func(c drv.J) drv.J { ks = map[string]kern{}; return drv.J{} }
	h["kernel"] = func(c drv.J) drv.J {
		var k *interpolate.Kernel
		w := c.I("width")
		dx := math.Ldexp(1, c.I("dx2"))
		switch c.S("kind") {
		case "tophat":
			k = interpolate.NewTophatKernel(w)
		case "gauss": // exp(-dx^2/(2 sigma^2)) = 2^(-e4/4)
			sigma := dx / math.Sqrt(2*math.Ln2*float64(c.I("e4"))/4)
			k = interpolate.NewGaussianKernel(w, sigma, dx)
		case "savgol":
			k = interpolate.NewSavGolKernel(c.I("p"), w)
		case "deriv":
			k = interpolate.NewSavGolDerivKernel(dx, c.I("d"), c.I("p"), w)
		}
		sc := math.Ldexp(1, c.I("sc"))
		ks[c.S("k")] = kern{k, sc}
		// the response to an impulse far from the edges
		xs := make([]float64, 4*w+1)
		xs[2*w] = 1
		out := k.Convolve(xs, interpolate.ZeroPad)
		ws := make([]int, w)
		for j := range ws {
			ws[j] = drv.Rx(out[2*w+w/2-j], sc)
		}
		return drv.J{"w": ws}
	}
	h["conv"] = func(c drv.J) drv.J {
		kk := ks[c.S("k")]
		v := math.Ldexp(1, c.I("v2"))
		in := c.Fs("xs", 1/v)
		xs := append([]float64{}, in...)
		kept := true
		var out []float64
		if c.B("at") {
			all := make([]float64, len(xs)+4)
			for i := range all {
				all[i] = -7777
			}
			out = all[2 : 2+len(xs)]
			kk.k.ConvolveAt(xs, bounds[c.S("b")], out)
			n := len(all)
			kept = all[0] == -7777 && all[1] == -7777 && all[n-1] == -7777 && all[n-2] == -7777
		} else {
			out = kk.k.Convolve(xs, bounds[c.S("b")])
		}
		return drv.J{"out": drv.Rxs(out, kk.sc/v), "kept": kept && reflect.DeepEqual(xs, in)}
	}
	// a wide Savitzky-Golay window over a polynomial, at the points it covers
	h["wide"] = func(c drv.J) drv.J {
		k := interpolate.NewSavGolKernel(c.I("p"), c.I("width"))
		out := k.Convolve(c.Fs("xs", 1), bounds[c.S("b")])
		half := c.I("width") / 2
		return drv.J{"out": drv.Rxs(out[half:len(out)-half], math.Ldexp(1, c.I("sc")))}
	}
	h["get"] = func(c drv.J) drv.J {
		return drv.J{"out": drv.Fx(bounds[c.S("b")].Get(c.Fs("xs", 1), c.I("i")), 1)}
	}
}
