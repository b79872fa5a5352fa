// halod drives render/halo: search grids, subhalo finders, catalogues and radius definitions.
package main

import (
	"math"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/render/halo"
)

const u = 64

type held struct {
	g          *halo.Grid
	f          *halo.SubhaloFinder
	xs, ys, zs []float64
	before     [][]int // lists handed out earlier, and copies of them
	copies     [][]int
}

var slots = map[string]*held{}

// inUnits is what a whole number of a case counts: 1/64, times a power of two
func inUnits(c drv.J) float64 { return math.Ldexp(u, -c.I("u2")) }

func floats(c drv.J, k string) []float64 { return c.Fs(k, inUnits(c)) }

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func ints(a []int) []int { return append([]int{}, a...) }

func main() {
	handlers := map[string]drv.Handler{
		"fresh": func(c drv.J) drv.J { slots = map[string]*held{}; return nil },
		"grid": func(c drv.J) drv.J {
			h := &held{xs: floats(c, "xs"), ys: floats(c, "ys"), zs: floats(c, "zs")}
			h.g = halo.NewGrid(c.I("c"), float64(c.I("w"))/inUnits(c), len(h.xs))
			if c.B("early") { // a finder can be had before its grid is filled
				h.f = halo.NewSubhaloFinder(h.g)
			}
			h.g.Insert(h.xs, h.ys, h.zs)
			cells, listed := []drv.J{}, 0
			buf := make([]int, 0, h.g.MaxLength())
			for i := 0; i < h.g.TotalCells(); i++ {
				in := h.g.ReadIndexes(i, buf)
				listed += len(in)
				if n := h.g.Length(i); n > 0 || len(in) > 0 {
					cells = append(cells, drv.J{"at": i, "in": ints(in), "len": n})
				}
			}
			kept := same(h.xs, floats(c, "xs")) && same(h.ys, floats(c, "ys")) && same(h.zs, floats(c, "zs"))
			slots[c.S("g")] = h
			return drv.J{"cells": cells, "listed": listed, "total": h.g.TotalCells(), "longest": h.g.MaxLength(), "kept": kept}
		},
		"find": func(c drv.J) drv.J {
			h := slots[c.S("g")]
			if h.f == nil || c.B("anew") {
				h.f, h.before, h.copies = halo.NewSubhaloFinder(h.g), nil, nil
			}
			rs := floats(c, "rs")
			xs, ys, zs := append([]float64{}, h.xs...), append([]float64{}, h.ys...), append([]float64{}, h.zs...)
			h.f.FindSubhalos(xs, ys, zs, rs, float64(c.I("mk"))/float64(c.I("md")))
			kept := same(rs, floats(c, "rs")) && same(xs, h.xs) && same(ys, h.ys) && same(zs, h.zs)
			for i := range h.before {
				for k := range h.before[i] {
					kept = kept && h.before[i][k] == h.copies[i][k]
				}
			}
			inter, hosts, subs, counts := [][]int{}, [][]int{}, [][]int{}, [][]int{}
			for i := range rs {
				is := h.f.Intersects(i)
				h.before, h.copies = append(h.before, is), append(h.copies, ints(is))
				inter, hosts, subs = append(inter, ints(is)), append(hosts, ints(h.f.Hosts(i))), append(subs, ints(h.f.Subhalos(i)))
				counts = append(counts, []int{h.f.IntersectCount(i), h.f.HostCount(i), h.f.SubhaloCount(i)})
			}
			return drv.J{"inter": inter, "hosts": hosts, "subs": subs, "counts": counts, "kept": kept}
		},
		"bounds": func(c drv.J) drv.J {
			p := floats(c, "pos")
			n, w := c.I("c"), float64(c.I("w"))/inUnits(c)
			b := &halo.Bounds{Origin: [3]int{7, 7, 7}, Span: [3]int{9, 9, 9}}
			b.SphereBounds([3]float64{p[0], p[1], p[2]}, float64(c.I("r"))/inUnits(c), w/float64(n), w)
			val := make([][][]int, 3)
			for v := 0; v < n; v++ {
				// each axis on its own
				x, _, _ := b.ConvertIndices(v, (v+1)%n, (v+2)%n, n)
				_, y, _ := b.ConvertIndices((v+2)%n, v, (v+1)%n, n)
				_, _, z := b.ConvertIndices((v+1)%n, (v+2)%n, v, n)
				for d, place := range []int{x, y, z} {
					in := 0
					if b.Inside(v, n, d) {
						in = 1
					}
					val[d] = append(val[d], []int{in, place})
				}
			}
			return drv.J{"val": val, "origin": b.Origin[:], "span": b.Span[:]}
		},
	}
	handlers["findmany"] = handlers["find"]
	drv.Main(catalogHandlers(handlers))
}
