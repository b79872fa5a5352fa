package main

import (
	"math"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/math/rand"
	"github.com/phil-mansfield/gotetra/render/geom"
)

var (
	tet  *geom.Tetra
	idxs geom.TetraIdxs // reused by every call
)

func toVecs(c drv.J, k string, sc float64) []geom.Vec {
	fs := c.F3s(k, sc)
	o := make([]geom.Vec, len(fs))
	for i := range fs {
		o[i] = geom.Vec(fs[i])
	}
	return o
}

func flatVecs(vs []geom.Vec, sc float64) []int {
	o := make([]int, 0, 3*len(vs))
	for i := range vs {
		o = append(o, fxVec(&vs[i], sc)...)
	}
	return o
}

func corners() [][]int {
	o := make([][]int, 4)
	for i := range o {
		o[i] = fxVec(&tet.Corners[i], 1/ucorner)
	}
	return o
}

// ucorner is the unit the corners of the tetrahedron are given in, a power of two; answers are given in it.
var ucorner = 1.0

func lattice(m int) []geom.Vec {
	o := make([]geom.Vec, 0, (m+1)*(m+1)*(m+1))
	f := func(i int) float32 { return float32(i) / float32(m) }
	for x := 0; x <= m; x++ {
		for y := 0; y <= m; y++ {
			for z := 0; z <= m; z++ {
				o = append(o, geom.Vec{f(x), f(y), f(z)})
			}
		}
	}
	return o
}

func tetHandlers(h map[string]drv.Handler) {
	h["cube"] = func(c drv.J) drv.J {
		n, skip, idx := int64(c.I("n")), int64(c.I("skip")), int64(c.I("idx"))
		t, nw, cart := [][]int64{}, [][]int64{}, [][]int64{}
		for d := 0; d < geom.TetraDirCount; d++ {
			r := idxs.Init(idx, n, skip, d)
			if r != &idxs {
				panic("Init returned another object")
			}
			t = append(t, append([]int64{}, idxs[:]...))
			nw = append(nw, append([]int64{}, geom.NewTetraIdxs(idx, n, skip, d)[:]...))
			idxs.InitCartesian(idx%n, idx/n%n, idx/n/n, n, d)
			cart = append(cart, append([]int64{}, idxs[:]...))
		}
		return drv.J{"t": t, "nw": nw, "cart": cart}
	}
	mids := func(idx, n, skip int64) []drv.J {
		o := []drv.J{}
		for d := 0; d < geom.TetraCenteredCount; d++ {
			_, ok := idxs.InitCentered(idx, n, skip, d)
			t := []int64{}
			if ok {
				t = append(t, idxs[:]...)
			}
			o = append(o, drv.J{"ok": ok, "t": t})
		}
		return o
	}
	h["centered"] = func(c drv.J) drv.J {
		n, skip, idx := int64(c.I("n")), int64(c.I("skip")), int64(c.I("idx"))
		m := 2*skip + 1
		return drv.J{"ref": mids(skip*(1+m+m*m), m, skip), "at": mids(idx, n, skip)}
	}
	// grids whose indices do not fit into 32 bits: corners relative to the point
	h["far"] = func(c drv.J) drv.J {
		n, skip := int64(c.I("n")), int64(c.I("skip"))
		p := c.Is("p")
		idx := int64(p[0]) + n*int64(p[1]) + n*n*int64(p[2])
		rel := func(t []int64) [][]int64 {
			o := make([][]int64, len(t))
			for k, i := range t {
				o[k] = []int64{i%n - int64(p[0]), i/n%n - int64(p[1]), i/n/n - int64(p[2])}
			}
			return o
		}
		t, cart := [][][]int64{}, [][][]int64{}
		for d := 0; d < geom.TetraDirCount; d++ {
			idxs.Init(idx, n, skip, d)
			t = append(t, rel(idxs[:]))
			idxs.InitCartesian(int64(p[0]), int64(p[1]), int64(p[2]), n, d)
			cart = append(cart, rel(idxs[:]))
		}
		mid := []drv.J{}
		for d := 0; d < geom.TetraCenteredCount; d++ {
			_, ok := idxs.InitCentered(idx, n, skip, d)
			r := [][]int64{}
			if ok {
				r = rel(idxs[:])
			}
			mid = append(mid, drv.J{"ok": ok, "t": r})
		}
		return drv.J{"t": t, "cart": cart, "mid": mid}
	}
	h["fold"] = func(c drv.J) drv.J {
		vs := lattice(c.I("m"))
		geom.DistributeUnit(vs)
		return drv.J{"img": flatVecs(vs, float64(c.I("m")))}
	}
	h["foldpts"] = func(c drv.J) drv.J {
		m := float64(c.I("m"))
		vs := toVecs(c, "ps", m)
		geom.DistributeUnit(vs)
		return drv.J{"img": flatVecs(vs, m)}
	}
	h["tet"] = func(c drv.J) drv.J {
		var v [4]geom.Vec
		ucorner = math.Ldexp(1, c.I("u2"))
		for k, x := range c.L("c") {
			for i, y := range x.([]interface{}) {
				v[k][i] = float32(y.(float64) * ucorner)
			}
		}
		if tet == nil || c.B("fresh") {
			tet = geom.NewTetra(&v[0], &v[1], &v[2], &v[3])
		} else {
			tet.Init(&v[0], &v[1], &v[2], &v[3])
		}
		return drv.J{"after": corners()}
	}
	h["vol"] = func(c drv.J) drv.J {
		return drv.J{"v": drv.Rx(tet.Volume(), 384/(ucorner*ucorner*ucorner)), "after": corners()}
	}
	h["bary"] = func(c drv.J) drv.J {
		return drv.J{"v": fxVec(tet.Barycenter(), 4/ucorner), "after": corners()}
	}
	h["has"] = func(c drv.J) drv.J {
		ps := toVecs(c, "ps", 1/ucorner)
		in := make([]bool, len(ps))
		for i := range ps {
			in[i] = tet.Contains(&ps[i])
		}
		return drv.J{"in": in, "after": corners()}
	}
	h["dist"] = func(c drv.J) drv.J {
		m := float64(c.I("m"))
		ps := toVecs(c, "ps", m)
		out, o64 := make([]geom.Vec, len(ps)), make([][3]float64, len(ps))
		if c.B("wide") {
			tet.DistributeTetra64(ps, o64)
			tet.DistributeTetra(ps, out)
		} else {
			tet.DistributeTetra(ps, out)
			tet.DistributeTetra64(ps, o64)
		}
		f := []int{}
		for i := range o64 {
			f = append(f, drv.Fxs(o64[i][:], m/ucorner)...)
		}
		return drv.J{"out": flatVecs(out, m/ucorner), "out64": f, "psafter": flatVecs(ps, m), "after": corners()}
	}
	h["foldtet"] = func(c drv.J) drv.J {
		m := c.I("m")
		vs := lattice(m)
		xs, ys, zs := make([]float64, len(vs)), make([]float64, len(vs)), make([]float64, len(vs))
		for i, v := range vs {
			xs[i], ys[i], zs[i] = float64(v[0]), float64(v[1]), float64(v[2])
		}
		tet.Distribute(xs, ys, zs, vs)
		return drv.J{"img": flatVecs(vs, float64(m)/ucorner), "after": corners()}
	}
	h["cells"] = func(c drv.J) drv.J {
		cw := float64(c.I("cw2")) / 2 * ucorner
		b := &geom.CellBounds{Origin: [3]int{77, 77, 77}, Width: [3]int{-7, -7, -7}}
		if c.B("new") {
			b = tet.CellBounds(cw)
		} else {
			tet.CellBoundsAt(cw, b)
		}
		return drv.J{"o": b.Origin, "w": b.Width, "after": corners()}
	}
	h["sample"] = func(c drv.J) drv.J {
		m := c.I("m")
		gen := rand.New(rand.GeneratorType(c.I("gen")), uint64(c.I("seed")))
		out := make([]geom.Vec, m)
		tet.RandomSample(gen, make([]float64, 3*m), out)
		o := []int{}
		for _, v := range out {
			for i := 0; i < 3; i++ {
				o = append(o, drv.Rx(float64(v[i]), 64/ucorner))
			}
		}
		return drv.J{"out": o, "after": corners()}
	}
}
