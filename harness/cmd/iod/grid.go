package main

import (
	"math"
	"os"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

func int3(l []int) [3]int { return [3]int{l[0], l[1], l[2]} }

// gtet fills a buffer of the quantity asked for, writes it as a grid file and logs
// what the buffer says its finalised contents are.
func gtet(c drv.J) drv.J {
	q, ok := density.QuantityFromString(c.S("q"))
	if !ok {
		panic("no such quantity")
	}
	org, span := int3(c.Is("org")), int3(c.Is("span"))
	pw := float64(c.I("pw")) / 16
	g := geom.NewGridLocation(org, span, pw*float64(c.I("cells")), c.I("cells"))
	n := c.I("n")
	buf := density.NewBuffer(q, n, 1, g)
	if vals, ok := buf.ScalarBuffer(); ok {
		copy(vals, c.Fs("vals", 1))
	}
	if vals, ok := buf.VectorBuffer(); ok {
		w := c.Fs("vals", 1)
		for i := range vals {
			vals[i] = [3]float64{w[3*i], w[3*i+1], w[3*i+2]}
		}
	}
	if num, ok := buf.CountBuffer(); ok {
		copy(num, c.Is("num"))
	}
	cos := io.NewCosmoInfo(float64(c.I("h0")), float64(c.I("om"))/16, float64(c.I("ol"))/16, float64(c.I("z")), float64(c.I("bw")))
	ri := io.NewRenderInfo(c.I("particles"), c.I("cells"), c.I("skip"), c.S("axis"))
	loc := io.NewLocationInfo(org, span, pw)
	f, err := os.Create(path(c))
	must(err)
	defer f.Close()
	io.WriteBuffer(buf, cos, ri, loc, f)
	st, err := f.Stat()
	must(err)
	o := drv.J{"size": st.Size()}
	fin, ok := buf.FinalizedScalarBuffer()
	if !ok {
		xs, ys, zs, _ := buf.FinalizedVectorBuffer()
		fin = append(append(append(fin, xs...), ys...), zs...)
	}
	o["fin"], o["bits"] = drv.Fx32s(fin, 4), bits(fin)
	return o
}

func bits(vs []float32) []int {
	o := make([]int, len(vs))
	for i := range vs {
		o[i] = int(int32(math.Float32bits(vs[i])))
	}
	return o
}

// gbegin works in a directory the caller keeps.
func gbegin(c drv.J) drv.J {
	if dir != "" && os.Getenv("DRV_KEEP") == "" {
		os.RemoveAll(dir)
	}
	dir = c.S("dir")
	must(os.MkdirAll(dir, 0777))
	return drv.J{"e": "begin"}
}

func f3(v [3]float64, sc float64) []int { return drv.Fxs(v[:], sc) }
func i3(v [3]int64) []int               { return []int{int(v[0]), int(v[1]), int(v[2])} }

func readGridHeader(c drv.J) drv.J {
	hd, err := io.ReadGridHeader(path(c))
	if err != nil {
		return drv.J{"outcome": "err"}
	}
	o := drv.J{"hd": drv.J{
		"hi": int(int32(hd.EndiannessVersion >> 32)), "lo": int(int32(hd.EndiannessVersion)),
		"hsize": hd.Type.HeaderSize, "gtype": hd.Type.GridType, "vec": hd.Type.IsVectorGrid,
		"z": drv.Fx(hd.Cosmo.Redshift, 1), "a": drv.Fx(hd.Cosmo.ScaleFactor, 1024),
		"om": drv.Fx(hd.Cosmo.OmegaM, 16), "ol": drv.Fx(hd.Cosmo.OmegaL, 16), "h0": drv.Fx(hd.Cosmo.Hubble, 1),
		"bw":        drv.Fx(hd.Cosmo.BoxWidth, 1),
		"particles": hd.Render.Particles, "total": hd.Render.TotalPixels, "skip": hd.Render.SubsampleLength,
		"axis": hd.Render.ProjectionAxis, "porg": i3(hd.Loc.PixelOrigin), "pspan": i3(hd.Loc.PixelSpan),
		"pwid": drv.Fx(hd.Loc.PixelWidth, 16), "lorg": f3(hd.Loc.Origin, 16), "lspan": f3(hd.Loc.Span, 16),
	}}
	return o
}

// grids handed out earlier, and copies of them
var earlier, copies [][]float64

func readVals(c drv.J) drv.J {
	vals, err := io.ReadGrid(path(c))
	kept := true
	if err != nil {
		return drv.J{"outcome": "err"}
	}
	for i := range earlier {
		for k := range earlier[i] {
			kept = kept && math.Float64bits(earlier[i][k]) == math.Float64bits(copies[i][k])
		}
	}
	earlier, copies = append(earlier, vals), append(copies, append([]float64{}, vals...))
	if len(earlier) > 4 {
		earlier, copies = earlier[1:], copies[1:]
	}
	v32 := make([]float32, len(vals))
	for i := range vals {
		v32[i] = float32(vals[i])
		if float64(v32[i]) != vals[i] {
			return drv.J{"outcome": "notfloat32"}
		}
	}
	return drv.J{"fin": drv.Fx32s(v32, 4), "bits": bits(v32), "kept": kept}
}
