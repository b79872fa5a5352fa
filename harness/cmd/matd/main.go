// matd drives math/mat: matrices, their products and LU factorisations held in reused objects.
package main

import (
	"math"
	"reflect"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/math/mat"
)

const sc = 65536

func rows(c drv.J, k string) [][]int {
	var out [][]int
	for _, r := range c.L(k) {
		out = append(out, drv.J{"r": r}.Is("r"))
	}
	return out
}

// flat lays a matrix out by rows, row i scaled by 2^rs[i].
func flat(rs []int, m [][]int) []float64 {
	var v []float64
	for i, r := range m {
		s := 1.0
		if i < len(rs) {
			s = math.Ldexp(1, rs[i])
		}
		for _, x := range r {
			v = append(v, float64(x)*s)
		}
	}
	return v
}

// same is the list of n times the exponent k.
func same(c drv.J, k string, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = c.I(k)
	}
	return out
}

func f32(v []float64) []float32 {
	o := make([]float32, len(v))
	for i := range v {
		o[i] = float32(v[i])
	}
	return o
}

func f64(v []float32) []float64 {
	o := make([]float64, len(v))
	for i := range v {
		o[i] = float64(v[i])
	}
	return o
}

func dirty(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = 77.25
	}
	return v
}

// fold cuts a flat vector into rows of w values.
func fold(v []float64, w int, conv func(float64) int) [][]int {
	var out [][]int
	for i := 0; i+w <= len(v); i += w {
		r := make([]int, w)
		for j := range r {
			r[j] = conv(v[i+j])
		}
		out = append(out, r)
	}
	return out
}

func rx(v float64) int { return drv.Rx(v, sc) }
func ex(v float64) int { return drv.Fx(v, 1) }

// An object is a factorisation in either precision.
type object struct {
	n   int
	rs  []int
	l64 *mat.LUFactors
	l32 *mat.LUFactors32
	a64 []float64 // the matrix it was made from, which must survive
	k64 []float64
	a32 []float32
	k32 []float32
}

func (o *object) kept() bool {
	return reflect.DeepEqual(o.a64, o.k64) && reflect.DeepEqual(o.a32, o.k32)
}

func main() {
	objs := map[string]*object{}
	m64 := func(v []float64, m [][]int) *mat.Matrix { return mat.NewMatrix(v, len(m[0]), len(m)) }
	m32 := func(v []float32, m [][]int) *mat.Matrix32 { return mat.NewMatrix32(v, len(m[0]), len(m)) }

	factor := func(c drv.J, o *object) {
		a := rows(c, "a")
		v := flat(c.Is("rs"), a)
		if c.I("t") == 64 {
			k := append([]float64{}, v...)
			m := m64(v, a)
			if c.B("alloc") {
				o.l64 = m.LU()
			} else {
				if o.l64 == nil {
					o.l64 = mat.NewLUFactors(c.I("n"))
				}
				m.LUFactorsAt(o.l64)
			}
			o.a64, o.k64 = v, k
		} else {
			v32 := f32(v)
			k := append([]float32{}, v32...)
			m := m32(v32, a)
			if c.B("alloc") {
				o.l32 = m.LU()
			} else {
				if o.l32 == nil {
					o.l32 = mat.NewLUFactors32(c.I("n"))
				}
				m.LUFactorsAt(o.l32)
			}
			o.a32, o.k32 = v32, k
		}
		o.n, o.rs = len(a), c.Is("rs")
	}

	// one-shot operations work on the matrix itself
	withMatrix := func(c drv.J) (o *object, x64 *mat.Matrix, x32 *mat.Matrix32) {
		if !c.B("one") {
			return objs[c.S("lu")], nil, nil
		}
		a := rows(c, "a")
		o = &object{n: len(a), rs: c.Is("rs")}
		v := flat(o.rs, a)
		if c.I("t") == 64 {
			o.a64, o.k64 = v, append([]float64{}, v...)
			x64 = m64(v, a)
		} else {
			o.a32 = f32(v)
			o.k32 = append([]float32{}, o.a32...)
			x32 = m32(o.a32, a)
		}
		return
	}

	h := map[string]drv.Handler{
		"fresh": func(c drv.J) drv.J { objs = map[string]*object{}; return drv.J{} },
		"factor": func(c drv.J) drv.J {
			o := objs[c.S("lu")]
			if o == nil || c.B("fresh") {
				o = &object{}
			}
			factor(c, o)
			objs[c.S("lu")] = o
			return drv.J{"kept": o.kept()}
		},
		"solve": func(c drv.J) drv.J {
			o, x64, x32 := withMatrix(c)
			b := flat(nil, [][]int{c.Is("b")})
			for i := range b {
				if i < len(o.rs) {
					b[i] = math.Ldexp(b[i], o.rs[i])
				}
			}
			var out []float64
			kept := true
			if c.I("t") == 64 {
				kb := append([]float64{}, b...)
				switch {
				case x64 != nil:
					out = x64.SolveVector(b)
				case c.B("alias"):
					out = o.l64.SolveVector(b, b)
				default:
					x := dirty(len(b))
					out = o.l64.SolveVector(b, x)
					kept = &x[0] == &out[0]
				}
				kept = kept && (c.B("alias") || reflect.DeepEqual(b, kb))
			} else {
				b32 := f32(b)
				kb := append([]float32{}, b32...)
				var o32 []float32
				switch {
				case x32 != nil:
					o32 = x32.SolveVector(b32)
				case c.B("alias"):
					o32 = o.l32.SolveVector(b32, b32)
				default:
					x := f32(dirty(len(b)))
					o32 = o.l32.SolveVector(b32, x)
					kept = &x[0] == &o32[0]
				}
				kept = kept && (c.B("alias") || reflect.DeepEqual(b32, kb))
				out = f64(o32)
			}
			return drv.J{"out": drv.Rxs(out, sc), "kept": kept && o.kept()}
		},
		"solvem": func(c drv.J) drv.J {
			o, x64, x32 := withMatrix(c)
			bm := rows(c, "b")
			b := flat(o.rs, bm)
			var out []float64
			kept := true
			if c.I("t") == 64 {
				kb := append([]float64{}, b...)
				B := m64(b, bm)
				switch {
				case x64 != nil:
					out = x64.SolveMatrix(B).Vals
				case c.B("alias"):
					out = o.l64.SolveMatrix(B, B).Vals
				default:
					x := m64(dirty(len(b)), bm)
					out = o.l64.SolveMatrix(B, x).Vals
					kept = &x.Vals[0] == &out[0]
				}
				kept = kept && (c.B("alias") || reflect.DeepEqual(b, kb))
			} else {
				b32 := f32(b)
				kb := append([]float32{}, b32...)
				B := m32(b32, bm)
				var o32 []float32
				switch {
				case x32 != nil:
					o32 = x32.SolveMatrix(B).Vals
				case c.B("alias"):
					o32 = o.l32.SolveMatrix(B, B).Vals
				default:
					x := m32(f32(dirty(len(b))), bm)
					o32 = o.l32.SolveMatrix(B, x).Vals
					kept = &x.Vals[0] == &o32[0]
				}
				kept = kept && (c.B("alias") || reflect.DeepEqual(b32, kb))
				out = f64(o32)
			}
			return drv.J{"out": fold(out, o.n, rx), "kept": kept && o.kept()}
		},
		"inv": func(c drv.J) drv.J {
			o, x64, x32 := withMatrix(c)
			var out []float64
			d := make([][]int, o.n)
			for i := range d {
				d[i] = make([]int, o.n)
			}
			if c.I("t") == 64 {
				if x64 != nil {
					out = x64.Invert().Vals
				} else {
					out = o.l64.InvertAt(m64(dirty(o.n*o.n), d)).Vals
				}
			} else {
				if x32 != nil {
					out = f64(x32.Invert().Vals)
				} else {
					out = f64(o.l32.InvertAt(m32(f32(dirty(o.n*o.n)), d)).Vals)
				}
			}
			for i := range out { // the inverse of diag(2^rs) a is inv(a) diag(2^-rs)
				out[i] = math.Ldexp(out[i], o.rs[i%o.n])
			}
			return drv.J{"out": fold(out, o.n, rx), "kept": o.kept()}
		},
		"det": func(c drv.J) drv.J {
			o, x64, x32 := withMatrix(c)
			var d float64
			switch {
			case x64 != nil:
				d = x64.Determinant()
			case x32 != nil:
				d = float64(x32.Determinant())
			case c.I("t") == 64:
				d = o.l64.Determinant()
			default:
				d = float64(o.l32.Determinant())
			}
			for _, e := range o.rs {
				d = math.Ldexp(d, -e)
			}
			return drv.J{"out": drv.Rx(d, 16), "kept": o.kept()}
		},
		"mult": func(c drv.J) drv.J {
			a, b := rows(c, "a"), rows(c, "b")
			va, vb := flat(same(c, "u", len(a)), a), flat(same(c, "v", len(b)), b)
			ka, kb := flat(same(c, "u", len(a)), a), flat(same(c, "v", len(b)), b)
			var out []float64
			var w, h int
			kept := true
			if c.I("t") == 64 {
				A, B := m64(va, a), m64(vb, b)
				var O *mat.Matrix
				if c.B("at") {
					at := mat.NewMatrix(dirty(len(a)*len(b[0])), len(b[0]), len(a))
					O = A.MultAt(B, at)
					kept = O == at
				} else {
					O = A.Mult(B)
				}
				out, w, h = O.Vals, O.Width, O.Height
			} else {
				wa, wb := f32(va), f32(vb)
				A, B := m32(wa, a), m32(wb, b)
				var O *mat.Matrix32
				if c.B("at") {
					at := mat.NewMatrix32(f32(dirty(len(a)*len(b[0]))), len(b[0]), len(a))
					O = A.MultAt(B, at)
					kept = O == at
				} else {
					O = A.Mult(B)
				}
				out, w, h = f64(O.Vals), O.Width, O.Height
				va, vb = f64(wa), f64(wb)
			}
			return drv.J{"out": fold(out, w, func(v float64) int { return ex(math.Ldexp(v, -c.I("u")-c.I("v"))) }), "kept": kept && w*h == len(out) && reflect.DeepEqual(va, ka) && reflect.DeepEqual(vb, kb)}
		},
		"mulvec": func(c drv.J) drv.J {
			a := rows(c, "a")
			va, vb := flat(same(c, "u", len(a)), a), flat(same(c, "v", 1), [][]int{c.Is("b")})
			out := dirty(len(a))
			mat.MultVec(m64(va, a), vb, out)
			return drv.J{"out": drv.Fxs(out, math.Ldexp(1, -c.I("u")-c.I("v"))), "kept": reflect.DeepEqual(va, flat(same(c, "u", len(a)), a)) && reflect.DeepEqual(vb, flat(same(c, "v", 1), [][]int{c.Is("b")}))}
		},
		"vecmul": func(c drv.J) drv.J {
			a := rows(c, "a")
			va, vb := flat(same(c, "u", len(a)), a), flat(same(c, "v", 1), [][]int{c.Is("b")})
			out := dirty(len(a[0]))
			mat.VecMult(vb, m64(va, a), out)
			return drv.J{"out": drv.Fxs(out, math.Ldexp(1, -c.I("u")-c.I("v"))), "kept": reflect.DeepEqual(va, flat(same(c, "u", len(a)), a)) && reflect.DeepEqual(vb, flat(same(c, "v", 1), [][]int{c.Is("b")}))}
		},
		"transp": func(c drv.J) drv.J {
			a := rows(c, "a")
			va := flat(nil, a)
			A := m64(va, a)
			var O *mat.Matrix
			if c.B("at") {
				O = mat.NewMatrix(dirty(len(va)), len(a), len(a[0]))
				A.TransposeAt(O)
			} else {
				O = A.Transpose()
			}
			return drv.J{"out": fold(O.Vals, O.Width, ex), "kept": O.Width == len(a) && O.Height == len(a[0]) && reflect.DeepEqual(va, flat(nil, a))}
		},
		"bigtransp": func(c drv.J) drv.J {
			w, h := c.I("w"), c.I("h")
			v := make([]float64, w*h)
			for i := range v {
				v[i] = float64(i)
			}
			O := mat.NewMatrix(v, w, h).Transpose()
			var out [][]int
			add := func(i int) {
				if i >= 0 && i < len(O.Vals) {
					out = append(out, []int{i / h, i % h, ex(O.Vals[i])})
				}
			}
			for k := 0; k <= 400; k++ {
				add(int(float64(len(O.Vals)-1) * float64(k) / 400))
			}
			for _, at := range []int{0, 8000000, 8000001, 16000000, len(O.Vals) / 2, len(O.Vals)} {
				for d := -6; d <= 6; d++ {
					add(at + d)
					add(at + h + d)
				}
			}
			kept := O.Width == h && O.Height == w
			for i := range v {
				kept = kept && v[i] == float64(i)
			}
			return drv.J{"out": out, "kept": kept}
		},
		"make": func(c drv.J) drv.J {
			if c.I("t") == 64 {
				m := mat.NewMatrix(make([]float64, c.I("n")), c.I("w"), c.I("h"))
				return drv.J{"out": []int{m.Width, m.Height}}
			}
			m := mat.NewMatrix32(make([]float32, c.I("n")), c.I("w"), c.I("h"))
			return drv.J{"out": []int{m.Width, m.Height}}
		},
	}
	drv.Main(h)
}
