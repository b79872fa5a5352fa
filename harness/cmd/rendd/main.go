// rendd drives the boxes, overlaps and Monte Carlo interpolation of render.
package main

import (
	"fmt"
	"strconv"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

var boxes = map[int]render.Box{}
var qs = map[int]density.Quantity{}

func num(c drv.J, k string) float64 {
	v, err := strconv.ParseFloat(c.S(k), 64)
	if err != nil {
		panic("bad case: " + k)
	}
	return v
}

// unit is the length of 1/sub pixel
func unit(c drv.J) (L, u float64) {
	L = num(c, "L")
	return L, L / float64(c.I("cells")*c.I("sub"))
}

// One header, one box configuration and one array for each set of vectors are filled again and again.
var sharedHd io.SheetHeader
var sharedBox io.BoxConfig
var sharedVecs = map[string][]geom.Vec{}

func header(c drv.J, L, u float64) *io.SheetHeader {
	hd := &sharedHd
	*hd = io.SheetHeader{}
	hd.TotalWidth = L
	o, w := c.Is("O"), c.Is("Wd")
	for d := 0; d < 3; d++ {
		hd.Origin[d] = float32(float64(o[d]) * u)
		hd.Width[d] = float32(float64(w[d]) * u)
	}
	return hd
}

func quantity(s string) density.Quantity {
	q, ok := density.QuantityFromString(s)
	if !ok {
		panic("bad case: quantity")
	}
	return q
}

func newBox(c drv.J) render.Box {
	L, u := unit(c)
	x, w := c.Is("X"), c.Is("W")
	con := &sharedBox
	*con = io.BoxConfig{
		X: float64(x[0]) * u, Y: float64(x[1]) * u, Z: float64(x[2]) * u,
		XWidth: float64(w[0]) * u, YWidth: float64(w[1]) * u, ZWidth: float64(w[2]) * u,
		ProjectionAxis: c.S("axis"),
	}
	return render.NewBox(L, c.I("pts"), c.I("cells"), quantity(c.S("q")), con)
}

func location(b render.Box) *geom.GridLocation {
	return geom.NewGridLocation(b.CellOrigin(), b.CellSpan(), b.CellWidth()*float64(b.Cells()), b.Cells())
}

func vecs(c drv.J, k string, u float64) []geom.Vec {
	is := c.Is(k)
	out := append(sharedVecs[k][:0], make([]geom.Vec, len(is)/3)...)
	sharedVecs[k] = out
	for i := range out {
		for d := 0; d < 3; d++ {
			out[i][d] = float32(float64(is[3*i+d]) * u)
		}
	}
	return out
}

func flat3(vs [][3]float64) []float64 {
	out := make([]float64, 0, 3*len(vs))
	for _, v := range vs {
		out = append(out, v[0], v[1], v[2])
	}
	return out
}

// recorder keeps the samples a pass hands to the deposit, and deposits them
type recorder struct {
	render.Overlap
	unit  float64 // per pixel
	calls []drv.J
}

func (r *recorder) Interpolate(buf density.Buffer, xs, vs []geom.Vec, ptVal float64, weights density.Buffer, low, high, jump int) {
	o := r.BufferCellBounds().Origin
	x, w := []int{}, []int{}
	vb, vec := weights.VectorBuffer()
	for i := low; i < high; i += jump {
		for d := 0; d < 3; d++ {
			v := drv.Fx(float64(xs[i][d]), r.unit)
			if v != -2147483647 {
				v += o[d] * int(r.unit)
			}
			x = append(x, v)
			if vec {
				w = append(w, drv.Fx(vb[i][d], 4))
			}
		}
	}
	r.calls = append(r.calls, drv.J{"x": x, "w": w, "p": drv.Rx(ptVal, 1024)})
	r.Overlap.Interpolate(buf, xs, vs, ptVal, weights, low, high, jump)
}

// pass runs one Monte Carlo pass the way the render manager does, one worker after the other
func pass(c drv.J) drv.J {
	b, q := boxes[c.I("bid")], qs[c.I("bid")]
	L, u := unit(c)
	hd := header(c, L, u)
	segw, skip, workers, n := c.I("segw"), c.I("skip"), c.I("workers"), c.I("n")
	xs := vecs(c, "xs", u)
	var vs []geom.Vec
	if q.RequiresVelocity() {
		vs = vecs(c, "vs", .25)
	}
	var ubs [][]geom.Vec
	for _, x := range c.L("ub") {
		ubs = append(ubs, vecs(drv.J{"u": x}, "u", 1.0/16))
	}
	over := b.Overlap(hd)
	over.ScaleVecs(xs, hd.CellBounds(b.Cells()))
	calls := []drv.J{}
	w := segw / skip
	for id := 0; id < workers; id++ {
		r := &recorder{Overlap: b.Overlap(hd), unit: float64(16 * c.I("sub"))}
		mc := density.MonteCarlo(int64(segw), n, b.Cells(), int64(skip), ubs, r)
		buf := density.NewBuffer(q, over.BufferSize(), n, location(b))
		buf.Clear()
		mc.Interpolate(buf, xs, vs, float64(c.I("ptv"))/4, density.NilBuffer, id, w*w*w, workers)
		over.Add(buf, b.Vals())
		calls = append(calls, r.calls...)
	}
	return drv.J{"calls": calls, "kind": fmt.Sprintf("%T", over)}
}

func main() {
	const vs = 4096
	drv.Main(map[string]drv.Handler{
		"begin": func(c drv.J) drv.J {
			boxes = map[int]render.Box{}
			qs = map[int]density.Quantity{}
			return drv.J{}
		},
		"newbox": func(c drv.J) drv.J {
			b := newBox(c)
			L, _ := unit(c)
			boxes[c.I("bid")] = b
			qs[c.I("bid")] = quantity(c.S("q"))
			pax, pok := b.ProjectionAxis()
			r := b.CellWidth() * float64(c.I("cells")) / L
			co, cs := b.CellOrigin(), b.CellSpan()
			return drv.J{"co": co[:], "cs": cs[:], "rcells": b.Cells(), "rpts": b.Points(), "pax": pax, "pok": pok,
				"len": b.Vals().Length(), "cwok": r > 1-1e-12 && r < 1+1e-12}
		},
		"hdcb": func(c drv.J) drv.J {
			L, u := unit(c)
			cb := header(c, L, u).CellBounds(c.I("cells"))
			return drv.J{"co": cb.Origin[:], "cs": cb.Width[:]}
		},
		"deposit": func(c drv.J) drv.J {
			b, q := boxes[c.I("bid")], qs[c.I("bid")]
			L, u := unit(c)
			hd := header(c, L, u)
			over := b.Overlap(hd)
			buf := density.NewBuffer(q, over.BufferSize(), c.I("np"), location(b))
			buf.Clear()
			pts := vecs(c, "pts", u)
			over.ScaleVecs(pts, hd.CellBounds(b.Cells()))
			w := c.Fs("wts", 4)
			var weights density.Buffer = density.NilBuffer
			if q.RequiresVelocity() {
				weights = density.NewBuffer(density.Velocity, len(pts), 0, nil)
				vb, _ := weights.VectorBuffer()
				for i := range vb {
					copy(vb[i][:], w[3*i:3*i+3])
				}
			} else if len(w) > 0 {
				weights = density.WrapperDensityBuffer(w)
			}
			over.Interpolate(buf, pts, nil, float64(c.I("ptv"))/4, weights, 0, len(pts), 1)
			over.Add(buf, b.Vals())
			return drv.J{"kind": fmt.Sprintf("%T", over)}
		},
		"pass": pass,
		"vals": func(c drv.J) drv.J {
			v := boxes[c.I("bid")].Vals()
			q := qs[c.I("bid")]
			var raw []float64
			if s, ok := v.ScalarBuffer(); ok {
				raw = s
			} else if vb, ok := v.VectorBuffer(); ok {
				raw = flat3(vb)
			}
			cnt := []int{}
			if n, ok := v.CountBuffer(); ok {
				cnt = append(cnt, n...)
			}
			fin := []int{}
			if q == density.Density {
				f, _ := v.FinalizedScalarBuffer()
				for _, x := range f {
					fin = append(fin, drv.Rx(float64(x), vs))
				}
			} else if q == density.Velocity {
				x, y, z, _ := v.FinalizedVectorBuffer()
				for i := range x {
					fin = append(fin, drv.Rx(float64(x[i]), vs), drv.Rx(float64(y[i]), vs), drv.Rx(float64(z[i]), vs))
				}
			}
			return drv.J{"vals": drv.Rxs(raw, vs), "cnt": cnt, "fin": fin}
		},
	})
}
