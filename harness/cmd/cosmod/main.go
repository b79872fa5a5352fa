// cosmod drives the cosmo package and the cosmology block of grid headers.
package main

import (
	"math"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/render/io"
)

// today is the critical density of today, from another universe of the same kind.
var today = cosmo.RhoCritical(70, 0.5, 0.5, 0)

func main() {
	drv.Main(map[string]drv.Handler{
		"bg": func(c drv.J) drv.J {
			om, z, k := float64(c.I("a"))/1000, float64(c.I("n"))/8, math.Ldexp(1, c.I("k"))
			ol, h0 := float64(1000-c.I("a"))/1000, float64(c.I("hub"))/4
			res := drv.J{}
			ask := []func(){ // in any order
				func() { h := cosmo.HubbleFrac(om, ol, z); res["h2"] = drv.Rx(h*h, k) },
				func() { res["rhoc"] = drv.Rx(cosmo.RhoCritical(h0, om, ol, z)/today, k) },
				func() { res["rhom"] = drv.Rx(cosmo.RhoAverage(h0, om, ol, z)/today, k) },
				func() { res["today"] = drv.Rx(cosmo.RhoCritical(h0, om, ol, 0), 1e-6) },
			}
			for i := range ask {
				ask[(i+c.I("first"))%len(ask)]()
			}
			return res
		},
		"info": func(c drv.J) drv.J {
			om, z, k := float64(c.I("a"))/1000, float64(c.I("n"))/8, math.Ldexp(1, c.I("k"))
			ol, h0 := float64(1000-c.I("a"))/1000, float64(c.I("hub"))/4
			i := io.NewCosmoInfo(h0, om, ol, z, float64(c.I("width"))/8)
			return drv.J{"rhoc": drv.Rx(i.RhoCritical/today, k), "rhom": drv.Rx(i.RhoMean/today, k),
				"z": drv.Fx(i.Redshift, 64), "scale": drv.Rx(i.ScaleFactor, 1<<20), "om": drv.Rx(i.OmegaM, 1000),
				"ol": drv.Rx(i.OmegaL, 1000), "h0": drv.Fx(i.Hubble, 4), "w": drv.Fx(i.BoxWidth, 8)}
		},
	})
}
