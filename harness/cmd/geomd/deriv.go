package main

import (
	"math"
	"strconv"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/render/geom"
)

var (
	ops   = map[string]geom.DerivOp{"add": geom.Add, "sub": geom.Subtract, "none": geom.None}
	optns = map[string]*geom.DerivOptions{}
)

func optRec(o *geom.DerivOptions) drv.J {
	op := "?"
	for k, v := range ops {
		if v == o.Op {
			op = k
		}
	}
	return drv.J{"periodic": o.Periodic, "op": op, "order": o.Order}
}

func optsAfter() drv.J {
	return drv.J{"a": optRec(optns["a"]), "b": optRec(optns["b"]), "nil": optRec(geom.DerivOptionsDefault)}
}

func fold(x, c, n int) int {
	m := (x - c + n/2) % n
	if m < 0 {
		m += n
	}
	return m - n/2
}

func derivHandlers(h map[string]drv.Handler) {
	h["fresh"] = func(c drv.J) drv.J {
		optns["a"] = &geom.DerivOptions{Periodic: false, Op: geom.None, Order: 4}
		optns["b"] = &geom.DerivOptions{Periodic: false, Op: geom.None, Order: 4}
		return drv.J{"after": optsAfter()}
	}
	h["opts"] = func(c drv.J) drv.J {
		*optns[c.S("o")] = geom.DerivOptions{Periodic: c.B("periodic"), Op: ops[c.S("op")], Order: c.I("order")}
		return drv.J{"after": optsAfter()}
	}
	h["deriv"] = func(c drv.J) drv.J {
		w, cells := to3(c.Is("w")), c.I("cells")
		dx, _ := strconv.ParseFloat(c.S("u"), 64)
		fu := math.Ldexp(1, c.I("v2")) // what the field is measured in
		var opt *geom.DerivOptions     // nil unless named
		per := false
		if c.S("o") != "nil" {
			opt = optns[c.S("o")]
			per = opt.Periodic
		}
		cent := to3(c.Is("c"))
		vol := w[0] * w[1] * w[2]
		fields, copies := [][]float32{}, [][]float32{}
		for _, f := range c.L("f") {
			vals := make([]float32, vol)
			for idx := range vals {
				p := [3]int{idx % w[0], idx / w[0] % w[1], idx / w[0] / w[1]}
				for a := 0; a < 3; a++ {
					if per && cells == w[a] {
						p[a] = fold(p[a], cent[a], w[a])
					}
				}
				v := 0.0
				for _, t := range f.([]interface{}) {
					q := t.([]interface{})
					m := q[0].(float64)
					for a := 0; a < 3; a++ {
						m *= math.Pow(float64(p[a]), q[a+1].(float64))
					}
					v += m
				}
				vals[idx] = float32(v * fu)
			}
			fields = append(fields, vals)
			copies = append(copies, append([]float32{}, vals...))
		}
		pre := c.Is("pre")
		var outs [3][]float32
		for m := range outs {
			outs[m] = make([]float32, vol)
			for i := range outs[m] {
				outs[m][i] = float32(float64(pre[m]+i%5) * fu / dx)
			}
		}
		g := geom.NewGridLocation(to3(c.Is("org")), w, dx*float64(cells), cells)
		n := 3
		switch c.S("kind") {
		case "deriv":
			n = 1
			g.Deriv(fields[0], outs[0], c.I("axis")-1, opt)
		case "grad":
			g.Gradient(fields[0], outs, opt)
		case "div":
			n = 1
			g.Divergence([3][]float32{fields[0], fields[1], fields[2]}, outs[0], opt)
		case "curl":
			g.Curl([3][]float32{fields[0], fields[1], fields[2]}, outs, opt)
		}
		kept := true
		for i := range fields {
			for j := range fields[i] {
				kept = kept && fields[i][j] == copies[i][j]
			}
		}
		res := [][]int{}
		for m := 0; m < n; m++ {
			r := make([]int, vol)
			for i, v := range outs[m] {
				r[i] = drv.Rx(float64(v)*dx/fu, 64)
			}
			res = append(res, r)
		}
		return drv.J{"out": res, "kept": kept, "after": optsAfter()}
	}
}
