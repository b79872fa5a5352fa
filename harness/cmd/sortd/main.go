// sortd drives math/sort.
package main

import (
	"math"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/math/sort"
)

// the slice is handed over as a window of a larger array, whose margins must survive
func window(xs []float64) (all, win []float64) {
	all = make([]float64, len(xs)+4)
	for i := range all {
		all[i] = -7777
	}
	copy(all[2:], xs)
	return all, all[2 : 2+len(xs) : 2+len(xs)+1]
}

func margins(all []float64) bool {
	n := len(all)
	return all[0] == -7777 && all[1] == -7777 && all[n-1] == -7777 && all[n-2] == -7777
}

func main() {
	// values are whole numbers of a unit, far from zero or not
	get := func(c drv.J) []float64 {
		var xs []float64
		if n := c.I("large"); n > 0 {
			// a shuffle of 0..n-1
			for i := 1; i <= n; i++ {
				xs = append(xs, float64((c.I("a")*i)%n))
			}
		} else {
			xs = c.Fs("xs", 1)
		}
		for i := range xs {
			xs[i] = math.Ldexp(xs[i]+float64(c.I("off")), c.I("u2")-2)
		}
		return xs
	}
	back := func(c drv.J, xs []float64) []int {
		o := make([]int, len(xs))
		for i, x := range xs {
			o[i] = drv.Fx(math.Ldexp(x, 2-c.I("u2"))-float64(c.I("off")), 1)
		}
		return o
	}
	// a median of an even number of values may lie between two of them
	whole := func(c drv.J, v float64) float64 {
		if c.S("e") != "median" {
			return v
		}
		return math.Ldexp(math.Floor(math.Ldexp(v, 2-c.I("u2"))), c.I("u2")-2)
	}
	inPlace := func(f func([]float64) []float64) drv.Handler {
		return func(c drv.J) drv.J {
			all, win := window(get(c))
			ret := f(win)
			same := len(ret) == len(win) && (len(ret) == 0 || &ret[0] == &win[0])
			if c.I("large") > 0 {
				return drv.J{"after": back(c, win), "same": same, "margins": margins(all)}
			}
			return drv.J{"after": back(c, win), "ret": back(c, ret), "same": same, "margins": margins(all)}
		}
	}
	sel := func(f func(xs []float64, c drv.J, buf ...[]float64) float64) drv.Handler {
		return func(c drv.J) drv.J {
			all, win := window(get(c))
			var v float64
			if c.B("buf") {
				b := make([]float64, len(win)+1)
				b[len(win)] = -7777
				v = f(win, c, b[:len(win)])
				if b[len(win)] != -7777 {
					all[0] = 0
				}
			} else {
				v = f(win, c)
			}
			return drv.J{"after": back(c, win), "v": back(c, []float64{whole(c, v)})[0], "margins": margins(all)}
		}
	}
	drv.Main(map[string]drv.Handler{
		"quick":   inPlace(sort.Quick),
		"shell":   inPlace(sort.Shell),
		"reverse": inPlace(sort.Reverse),
		"nth": sel(func(xs []float64, c drv.J, buf ...[]float64) float64 {
			return sort.NthLargest(xs, c.I("n"), buf...)
		}),
		"median": sel(func(xs []float64, c drv.J, buf ...[]float64) float64 {
			return sort.Median(xs, buf...)
		}),
		"percentile": sel(func(xs []float64, c drv.J, buf ...[]float64) float64 {
			return sort.Percentile(xs, float64(c.I("pn"))/float64(c.I("pd")), buf...)
		}),
	})
}
