package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/render/halo"
	"github.com/phil-mansfield/gotetra/render/io"
)

var (
	exps   []int // of the columns
	radii  = []halo.Val{halo.RadVir, halo.Rad200b, halo.Rad200c, halo.Rad500c, halo.Rad2500c}
	defs   = []halo.Radius{halo.RVirial, halo.R200m, halo.R200c, halo.R500c, halo.R2500c}
	radCol = []int{10, 36, 37, 38, 39}
	types  = map[string]halo.Radius{"vir": halo.RVirial, "r200c": halo.R200c, "r200m": halo.R200m, "r500c": halo.R500c, "r2500c": halo.R2500c}
	cols   = []halo.Val{
		halo.Scale, halo.ID, halo.DescScale, halo.DescID, halo.NumProg, halo.PID, halo.UPID, halo.DescPID, halo.Phantom, halo.SAMMVir,
		halo.MVir, halo.RVir, halo.Rs, halo.Vrms, halo.MMP, halo.ScaleOfLastMMP, halo.VMax, halo.X, halo.Y, halo.Z, halo.Vx, halo.Vy,
		halo.Vz, halo.Jx, halo.Jy, halo.Jz, halo.Spin, halo.BreadthFirstID, halo.DepthFirstID, halo.TreeRootID, halo.OrigHaloID,
		halo.SnapNum, halo.NextCoprogenitorDepthFirstID, halo.LastProgenitorDepthFirstID, halo.RsKylpin, halo.MVirAll, halo.M200b,
		halo.M200c, halo.M500c, halo.M2500c, halo.XOff, halo.Voff, halo.SpinBullock, halo.BToA, halo.CToA, halo.Ax, halo.Ay, halo.Az,
		halo.BToA500c, halo.CToA500c, halo.Ax500c, halo.Ay500c, halo.Az500c, halo.TU, halo.MAcc, halo.MPeak, halo.VAcc, halo.VPeak,
		halo.HalfmassScale, halo.AccRateInst, halo.AccRate100Myr, halo.AccRateTdyn,
	}
)

func path(k string) string { return filepath.Join(os.Getenv("DRV_TMP"), "cat_"+k) }

// One header is filled again and again, as readers do that go through snapshots.
var shared io.CosmologyHeader

func header(c drv.J) *io.CosmologyHeader {
	shared = io.CosmologyHeader{Z: float64(c.I("n")) / 8, OmegaM: float64(c.I("a")) / 100, OmegaL: float64(100-c.I("a")) / 100, H100: float64(c.I("h")) / 100}
	return &shared
}

func unit(col int) float64 { return math.Ldexp(1, -exps[col]) }

func table(c drv.J) drv.J {
	exps = c.Is("ex")
	var sb strings.Builder
	gaps := []string{" ", "  ", "\t", " \t"}
	sb.WriteString("# scale(0) id(1) desc_scale(2)\n")
	for i, r := range c.L("rows") {
		if c.B("messy") && i%3 == 1 {
			sb.WriteString("\n# note 1 2 3\n")
		}
		row := drv.J{"r": r}.Is("r")
		for k, v := range row {
			if k > 0 || c.B("messy") && i%2 == 0 {
				sb.WriteString(gaps[(i+k)%(1+3*b2i(c.B("messy")))])
			}
			fmt.Fprintf(&sb, "%v", float64(v)*math.Ldexp(1, exps[k]))
		}
		for k := 0; k < c.I("extra"); k++ {
			sb.WriteString(" -7.5")
		}
		sb.WriteString("\n")
	}
	if err := os.WriteFile(path(c.S("t")), []byte(sb.String()), 0644); err != nil {
		panic(err)
	}
	return nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func outcome(err error) drv.J {
	if err != nil {
		return drv.J{"outcome": "err", "msg": strings.ReplaceAll(err.Error(), "\"", "'")}
	}
	return nil
}

func read(c drv.J) drv.J {
	hd := header(c)
	var flags []halo.Val
	for _, v := range c.Is("vals") {
		if v >= 100 {
			flags = append(flags, radii[v-100])
		} else {
			flags = append(flags, cols[v])
		}
	}
	get := halo.ReadBinaryRockstarVals
	if c.S("f") == "t" || c.S("f") == "u" {
		get = halo.ReadRockstarVals
	}
	ids, vals, err := get(path(c.S("f")), hd, flags...)
	if err != nil {
		return outcome(err)
	}
	out := make([][]int, len(vals))
	for k, col := range vals {
		out[k] = []int{}
		v := -1
		if k < len(flags) {
			v = c.Is("vals")[k]
		}
		switch {
		case v >= 100:
			ms := make([]float64, len(col))
			defs[v-100].Mass(hd, col, ms)
			out[k] = drv.Rxs(ms, unit(radCol[v-100]))
		case v == 11 || v == 12 || v == 34:
			out[k] = drv.Rxs(col, 1000*unit(v))
		case v >= 0:
			out[k] = drv.Fxs(col, unit(v))
		}
	}
	if ids == nil {
		ids = []int{}
	}
	return drv.J{"ids": ids, "out": out}
}

func sorted(c drv.J) drv.J {
	hd, rt := header(c), types[c.S("rt")]
	ids, xs, ys, zs, ms, rs, err := halo.ReadRockstar(path(c.S("t")), rt, hd)
	if err != nil {
		return outcome(err)
	}
	out, desc, back := [][]int{}, true, make([]float64, len(rs))
	if len(xs) != len(ids) || len(ys) != len(ids) || len(zs) != len(ids) || len(ms) != len(ids) || len(rs) != len(ids) {
		return drv.J{"outcome": "torn"}
	}
	for i := range rs {
		desc = desc && (i == 0 || rs[i-1] >= rs[i])
	}
	for i := range rs {
		var m, r int
		if rt == halo.RVirial {
			rt.Radius(hd, ms[i:i+1], back[i:i+1])
			m, r = drv.Rx(back[i], 1000*unit(11)), drv.Rx(rs[i], 1000*unit(11))
		} else {
			col := map[halo.Radius]int{halo.R200c: 37, halo.R200m: 36, halo.R500c: 38, halo.R2500c: 39}[rt]
			rt.Mass(hd, rs[i:i+1], back[i:i+1])
			m, r = drv.Fx(ms[i], unit(col)), drv.Rx(back[i], unit(col))
		}
		out = append(out, []int{ids[i], drv.Fx(xs[i], unit(17)), drv.Fx(ys[i], unit(18)), drv.Fx(zs[i], unit(19)), m, r})
	}
	return drv.J{"out": out, "desc": desc}
}

func radius(c drv.J) drv.J {
	hd, rt := header(c), types[c.S("rt")]
	rs := c.Fs("rs", 8)
	ms, back := make([]float64, len(rs)), make([]float64, len(rs))
	copy(ms, rs)
	if c.B("inplace") {
		rt.Mass(hd, ms, ms)
		copy(back, ms)
		rt.Radius(hd, back, back)
	} else {
		rt.Mass(hd, rs, ms)
		rt.Radius(hd, ms, back)
	}
	kept := same(rs, c.Fs("rs", 8))
	u := cosmo.RhoCritical(70, 0.5, 0.5, 0) * float64(c.I("delta")) / 1000 * 4 * math.Pi / 3
	for i := range ms {
		ms[i] /= u
	}
	return drv.J{"ms": drv.Rxs(ms, math.Ldexp(1, c.I("k"))), "back": drv.Rxs(back, 8*1048576), "kept": kept}
}

func name(c drv.J) drv.J {
	r, ok := halo.RadiusFromString(c.S("name"))
	o := drv.J{"ok": ok, "rt": "", "again": false}
	if ok {
		for k, v := range types {
			if v == r {
				o["rt"] = k
			}
		}
		q, ok2 := halo.RadiusFromString(r.String())
		o["again"] = ok2 && q == r
	}
	return o
}

// limited makes writes beyond a file size fail until the function it returns is called
func limited(size int) func() {
	if size < 0 {
		return func() {}
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic("bad case: " + err.Error())
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(size), Max: old.Max})
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

func catalogHandlers(m map[string]drv.Handler) map[string]drv.Handler {
	m["table"], m["read"], m["sorted"], m["radius"], m["name"] = table, read, sorted, radius, name
	m["convert"] = func(c drv.J) drv.J {
		defer limited(c.I("limit"))()
		return outcome(halo.RockstarConvert(path(c.S("t")), path(c.S("b"))))
	}
	m["topn"] = func(c drv.J) drv.J {
		defer limited(c.I("limit"))()
		return outcome(halo.RockstarConvertTopN(path(c.S("t")), path(c.S("b")), c.I("n")))
	}
	m["cut"] = func(c drv.J) drv.J {
		st, err := os.Stat(path(c.S("b")))
		if err == nil && st.Size() > int64(c.I("size")) {
			err = os.Truncate(path(c.S("b")), int64(c.I("size")))
		}
		if err != nil {
			panic("bad case: " + err.Error())
		}
		return nil
	}
	m["missing"] = func(c drv.J) drv.J {
		hd, no := header(drv.J{}), path("none")+"/none"
		var err error
		switch c.S("op") {
		case "convert":
			err = halo.RockstarConvert(no, path("p"))
		case "topn":
			err = halo.RockstarConvertTopN(no, path("p"), 3)
		case "convert to":
			table(drv.J{"t": "v", "ex": []interface{}{}, "rows": []interface{}{}})
			err = halo.RockstarConvert(path("v"), no)
		case "topn to":
			table(drv.J{"t": "v", "ex": []interface{}{}, "rows": []interface{}{}})
			err = halo.RockstarConvertTopN(path("v"), no, 1)
		case "bin":
			_, _, err = halo.ReadBinaryRockstarVals(no, hd, halo.X)
		case "text":
			_, _, err = halo.ReadRockstarVals(no, hd, halo.X)
		case "sorted":
			_, _, _, _, _, _, err = halo.ReadRockstar(no, halo.R200m, hd)
		}
		return outcome(err)
	}
	return m
}
