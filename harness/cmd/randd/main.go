// randd drives math/rand: generators and Sobol sequences held in named slots.
package main

import (
	"math"
	"strconv"
	"sync"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/math/rand"
)

const f24 = 1 << 24

type sobol struct {
	seq  *rand.SobolSequence
	dim  int
	out  [][]float64
	copy [][]float64
}

var (
	gens   = map[string]*rand.Generator{}
	sobols = map[string]*sobol{}
)

func kind(s string) rand.GeneratorType {
	switch s {
	case "xorshift":
		return rand.Xorshift
	case "golang":
		return rand.Golang
	case "tausworthe":
		return rand.Tausworthe
	}
	return rand.Default
}

func seed(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func num(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func bits(vs []float64) []string {
	o := make([]string, len(vs))
	for i, v := range vs {
		o[i] = strconv.FormatUint(math.Float64bits(v), 16)
	}
	return o
}

// stream draws n values one by one from a fresh generator.
func stream(c drv.J) drv.J {
	g := rand.New(kind(c.S("gt")), seed(c.S("seed")))
	vs, fs, in := make([]float64, c.I("n")), make([]int, c.I("n")), true
	for i := range vs {
		vs[i] = g.Uniform(0, 1)
		fs[i] = int(math.Floor(vs[i] * f24))
		in = in && vs[i] >= 0 && vs[i] < 1
	}
	return drv.J{"bits": bits(vs), "fs": fs, "in": in}
}

// draw takes n values: one by one, as one batch, or as batches of several sizes.
func draw(g *rand.Generator, lo, hi float64, n int, cuts []int) []float64 {
	if len(cuts) == 0 {
		vs := make([]float64, n)
		for i := range vs {
			vs[i] = g.Uniform(lo, hi)
		}
		return vs
	}
	buf := make([]float64, n)
	for i := range buf {
		buf[i] = 0.25 + float64(i) // to be overwritten
	}
	at := 0
	for k := 0; at < n; k++ {
		m := cuts[k%len(cuts)]
		if at+m > n {
			m = n - at
		}
		g.UniformAt(lo, hi, buf[at:at+m])
		at += m
	}
	return buf
}

func main() {
	drv.Main(map[string]drv.Handler{
		"fresh": func(c drv.J) drv.J {
			gens, sobols = map[string]*rand.Generator{}, map[string]*sobol{}
			return nil
		},
		"stream": stream,
		"again":  stream,
		"make": func(c drv.J) drv.J {
			gens[c.S("g")] = rand.New(kind(c.S("gt")), seed(c.S("seed")))
			return nil
		},
		"unit": func(c drv.J) drv.J {
			return drv.J{"bits": bits(draw(gens[c.S("g")], 0, 1, c.I("n"), c.Is("cuts")))}
		},
		"range": func(c drv.J) drv.J {
			g := gens[c.S("g")]
			out, in := make([]int, c.I("n")), true
			if c.B("whole") {
				lo, hi := c.I("lo"), c.I("hi")
				for i := range out {
					v := g.UniformInt(lo, hi)
					in = in && lo <= v && v < hi
					out[i] = drv.Rx(float64(v-lo)/float64(hi-lo), f24)
				}
			} else {
				lo, hi := num(c.S("lo")), num(c.S("hi"))
				for i, v := range draw(g, lo, hi, c.I("n"), c.Is("cuts")) {
					in = in && lo <= v && v < hi
					out[i] = drv.Rx((v-lo)/(hi-lo), f24)
				}
			}
			if c.B("loose") {
				out = make([]int, len(out))
			}
			return drv.J{"out": out, "in": in}
		},
		"int": func(c drv.J) drv.J {
			lo, out, in := c.I("lo"), make([]int, c.I("n")), true
			for i := range out {
				v := gens[c.S("g")].UniformInt(lo, lo+c.I("w"))
				in = in && lo <= v && v < lo+c.I("w")
				if v -= lo; v > 1<<30 || v < -1<<30 {
					v = drv.Bad
				}
				out[i] = v
			}
			return drv.J{"out": out, "in": in}
		},
		"par": func(c drv.J) drv.J {
			by := c.L("by")
			outs := make([][]string, len(by))
			var wg sync.WaitGroup
			for i := range by {
				b := drv.J(by[i].(map[string]interface{}))
				g := gens[b.S("g")]
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					outs[i] = bits(draw(g, 0, 1, b.I("n"), b.Is("cuts")))
				}(i)
			}
			wg.Wait()
			return drv.J{"outs": outs}
		},
		"sinit": func(c drv.J) drv.J {
			s := sobols[c.S("g")]
			if s == nil || c.B("anew") {
				s = &sobol{seq: rand.NewSobolSequence()}
				if c.B("zero") {
					s.seq = new(rand.SobolSequence)
					s.seq.Init()
				}
			} else {
				s.seq.Init()
			}
			s.dim = c.I("dim")
			sobols[c.S("g")] = s
			return nil
		},
		"snext": func(c drv.J) drv.J {
			s := sobols[c.S("g")]
			var p []float64
			t := make([]float64, s.dim)
			for i := 0; i < c.I("n"); i++ {
				if c.B("at") {
					for k := range t {
						t[k] = 0.3125
					}
					s.seq.NextAt(t)
					p = t
				} else {
					p = s.seq.Next(s.dim)
				}
			}
			out := drv.Fxs(p, 1<<30)
			kept := len(p) == s.dim
			for i := range s.out {
				for k := range s.out[i] {
					kept = kept && s.out[i][k] == s.copy[i][k]
				}
			}
			if !c.B("at") && len(s.out) < 64 {
				s.out = append(s.out, p)
				s.copy = append(s.copy, append([]float64{}, p...))
			}
			return drv.J{"out": out, "kept": kept}
		},
	})
}
