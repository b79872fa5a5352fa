package main

import (
	"math"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/render/geom"
)

func toVec(xs []float64) geom.Vec {
	return geom.Vec{float32(xs[0]), float32(xs[1]), float32(xs[2])}
}

func fxVec(v *geom.Vec, sc float64) []int {
	return []int{drv.Fx(float64(v[0]), sc), drv.Fx(float64(v[1]), sc), drv.Fx(float64(v[2]), sc)}
}

// sc is one over the unit of a case, a power of two
func sc(c drv.J) float64 { return math.Ldexp(1, -c.I("u2")) }

func to3(xs []int) [3]int { return [3]int{xs[0], xs[1], xs[2]} }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// the registers of the running session
var (
	regs  []geom.Vec
	width float64
	unit  float64
	grid  *geom.Grid
)

func regsFx() [][]int {
	o := make([][]int, len(regs))
	for i := range regs {
		o[i] = fxVec(&regs[i], 1/unit)
	}
	return o
}

func vecHandlers(h map[string]drv.Handler) {
	h["load"] = func(c drv.J) drv.J {
		unit = c.F("u")
		width = float64(c.I("w")) * unit
		regs = nil
		for _, r := range c.L("regs") {
			v := geom.Vec{}
			for i, x := range r.([]interface{}) {
				v[i] = float32(x.(float64) * unit)
			}
			regs = append(regs, v)
		}
		return drv.J{"after": regsFx()}
	}
	h["vec"] = func(c drv.J) drv.J {
		dst, a, b := &regs[c.I("dst")-1], &regs[c.I("a")-1], &regs[c.I("b")-1]
		var r *geom.Vec
		form := c.S("form")
		switch c.S("op") {
		case "add":
			switch form {
			case "new":
				r = a.Add(b)
			case "self":
				r = a.AddSelf(b)
			default:
				r = a.AddAt(b, dst)
			}
		case "cross":
			switch form {
			case "new":
				r = a.Cross(b)
			case "self":
				r = a.CrossSelf(b)
			default:
				r = a.CrossAt(b, dst)
			}
		case "sub":
			switch form {
			case "new":
				r = a.Sub(b, width)
			case "self":
				r = a.SubSelf(b, width)
			default:
				r = a.SubAt(b, width, dst)
			}
		case "mod":
			switch form {
			case "new":
				r = a.Mod(width)
			case "self":
				r = a.ModSelf(width)
			default:
				r = a.ModAt(width, dst)
			}
		case "scale":
			ks := c.Is("k")
			k := float64(ks[0]) / float64(ks[1])
			switch form {
			case "new":
				r = a.Scale(k)
			case "self":
				r = a.ScaleSelf(k)
			default:
				r = a.ScaleAt(k, dst)
			}
		}
		same := r == dst
		if form == "new" {
			same = r != a && r != b
			*dst = *r
		}
		return drv.J{"after": regsFx(), "same": same}
	}
	h["dot"] = func(c drv.J) drv.J {
		v := regs[c.I("a")-1].Dot(&regs[c.I("b")-1])
		return drv.J{"v": drv.Fx(v, 1/(unit*unit)), "after": regsFx()}
	}
	h["norm"] = func(c drv.J) drv.J {
		v := toVec(c.Fs("va", sc(c)))
		n := v.Norm()
		return drv.J{"v": drv.Rx(n, 256*sc(c)), "after": fxVec(&v, sc(c))}
	}
	h["sub1"] = func(c drv.J) drv.J {
		W := float64(c.I("w")) / sc(c)
		f := func(g func(a, b *geom.Vec) *geom.Vec) []int {
			a, b := toVec(c.Fs("va", sc(c))), toVec(c.Fs("vb", sc(c)))
			return fxVec(g(&a, &b), sc(c))
		}
		return drv.J{"rs": [][]int{
			f(func(a, b *geom.Vec) *geom.Vec { return a.Sub(b, W) }),
			f(func(a, b *geom.Vec) *geom.Vec { return a.SubSelf(b, W) }),
			f(func(a, b *geom.Vec) *geom.Vec { return a.SubAt(b, W, b) }),
			f(func(a, b *geom.Vec) *geom.Vec { o := geom.Vec{9, 9, 9}; a.SubAt(b, W, &o); return &o }),
		}}
	}
	h["mod1"] = func(c drv.J) drv.J {
		W := float64(c.I("w")) / sc(c)
		f := func(g func(a *geom.Vec) *geom.Vec) []int {
			a := toVec(c.Fs("va", sc(c)))
			return fxVec(g(&a), sc(c))
		}
		return drv.J{"rs": [][]int{
			f(func(a *geom.Vec) *geom.Vec { return a.Mod(W) }),
			f(func(a *geom.Vec) *geom.Vec { return a.ModSelf(W) }),
			f(func(a *geom.Vec) *geom.Vec { o := geom.Vec{9, 9, 9}; a.ModAt(W, &o); return &o }),
		}}
	}
	h["tiny"] = func(c drv.J) drv.J {
		u := c.F("u")
		W := float64(c.I("w")) * u
		v := geom.Vec{}
		for i, m := range c.Is("m") { // m: which infinitesimal
			switch m {
			case 0:
				v[i] = float32(-math.SmallestNonzeroFloat32)
			case 1:
				v[i] = float32(-1e-12 * W)
			case 2:
				v[i] = math.Nextafter32(float32(W), 0)
			case 3:
				v[i] = float32(W)
			case 4:
				v[i] = math.Nextafter32(float32(2*W), 0)
			case 5:
				v[i] = float32(-W)
			case 6:
				v[i] = float32(-2e-8 * W)
			}
		}
		r := v.Mod(W)
		in, fl := make([]bool, 3), make([]int, 3)
		for i := range in {
			in[i] = r[i] >= 0 && float64(r[i]) < W
			fl[i] = int(math.Floor(float64(r[i]) / u))
		}
		return drv.J{"in": in, "fl": fl}
	}
	h["grid"] = func(c drv.J) drv.J {
		o, w := to3(c.Is("o")), to3(c.Is("w"))
		if grid == nil || c.B("fresh") {
			grid = geom.NewGrid(o, w)
		} else {
			grid.Init(o, w) // the same grid, given a new shape
		}
		vol := w[0] * w[1] * w[2]
		coords, back := make([][]int, vol), make([]int, vol)
		for i := range coords {
			x, y, z := grid.Coords(i)
			coords[i] = []int{x, y, z}
			back[i] = grid.Idx(x, y, z)
		}
		probe := [][]int{}
		for z := o[2] - 1; z <= o[2]+w[2]; z++ {
			for y := o[1] - 1; y <= o[1]+w[1]; y++ {
				for x := o[0] - 1; x <= o[0]+w[0]; x++ {
					idx, ok := grid.IdxCheck(x, y, z)
					probe = append(probe, []int{idx, b2i(ok), b2i(grid.BoundsCheck(x, y, z))})
				}
			}
		}
		return drv.J{"coords": coords, "back": back, "probe": probe, "size": []int{grid.Length, grid.Area, grid.Volume}}
	}
	// a grid far larger than memory: indices are taken apart into digits here
	h["huge"] = func(c drv.J) drv.J {
		o, w := to3(c.Is("o")), to3(c.Is("w"))
		if grid == nil || c.B("fresh") {
			grid = geom.NewGrid(o, w)
		} else {
			grid.Init(o, w)
		}
		ps, at, back, in := c.Is("ps"), []int{}, []int{}, []bool{}
		for k := 0; k+2 < len(ps); k += 3 {
			x, y, z := o[0]+ps[k], o[1]+ps[k+1], o[2]+ps[k+2]
			idx, ok := grid.IdxCheck(x, y, z)
			in = append(in, ok)
			if ok != grid.BoundsCheck(x, y, z) || (ok && idx != grid.Idx(x, y, z)) {
				idx = -1
			}
			if !ok {
				idx = 0
			}
			at = append(at, idx%w[0], idx/w[0]%w[1], idx/w[0]/w[1])
			x, y, z = grid.Coords(idx)
			back = append(back, x-o[0], y-o[1], z-o[2])
		}
		return drv.J{"at": at, "back": back, "in": in, "size": []int{grid.Length, grid.Area / w[0], grid.Volume / w[0] / w[1], grid.Area % w[0], grid.Volume % (w[0] * w[1])}}
	}
	bounds := func(c drv.J) (a, b *geom.CellBounds) {
		a = &geom.CellBounds{Origin: to3(c.Is("o1")), Width: to3(c.Is("w1"))}
		b = &geom.CellBounds{Origin: to3(c.Is("o2")), Width: to3(c.Is("w2"))}
		return
	}
	h["meet"] = func(c drv.J) drv.J {
		a, b := bounds(c)
		n := c.I("n")
		return drv.J{"r12": a.Intersect(b, n), "r21": b.Intersect(a, n),
			"u12": a.IntersectUnbounded(b), "u21": b.IntersectUnbounded(a)}
	}
	h["line"] = func(c drv.J) drv.J {
		a, b := bounds(c)
		return drv.J{"u12": a.IntersectUnbounded(b), "u21": b.IntersectUnbounded(a)}
	}
	h["rel"] = func(c drv.J) drv.J {
		n, sub, u := c.I("n"), float64(c.I("sub")), c.F("u")
		L := float64(n) * u
		a := &geom.CellBounds{Origin: to3(c.Is("o")), Width: [3]int{1, 1, 1}}
		b := &geom.CellBounds{Origin: to3(c.Is("c")), Width: [3]int{1, 1, 1}}
		vs := func() []geom.Vec {
			fs := c.F3s("ps", sub/u)
			o := make([]geom.Vec, len(fs))
			for i := range fs {
				o[i] = geom.Vec(fs[i])
			}
			return o
		}
		flat := func(vs []geom.Vec) []int {
			o := []int{}
			for i := range vs {
				o = append(o, fxVec(&vs[i], sub)...)
			}
			return o
		}
		s, d := vs(), vs()
		a.ScaleVecsSegment(s, n, L)
		a.ScaleVecsDomain(b, d, n, L)
		return drv.J{"seg": flat(s), "dom": flat(d)}
	}
}
