import runpy, os
b1 = runpy.run_path(os.path.join(os.path.dirname(__file__), "batch1.py"))
prog, GT, RUN, SHEET = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"]
SEEDS = []
def S(**k): SEEDS.append(k)

MUST = '''
func near(a, b float64) bool { return math.Abs(a-b) < 1e-9*(1+math.Abs(b)) }
'''

S(id="c18-leading-zeros", property="C18",
  edits=[("math/mat/mat.go", '''	for i := 0; i < n; i++ {
		sum := 0.0
		for j := 0; j < i; j++ {
			sum += lu[i*n + j] * ys[j]
		}
		ys[i] = (ys[i] - sum)
	}
''', '''	// Leading zeros of the right hand side do not contribute.
	first := 0
	for first < n && bs[first] == 0 { first++ }
	for i := first; i < n; i++ {
		sum := 0.0
		for j := first; j < i; j++ {
			sum += lu[i*n + j] * ys[j]
		}
		ys[i] = (ys[i] - sum)
	}
''')],
  needs="a right hand side which starts with zeros and a matrix whose factorisation exchanges the first row with a later one",
  breaks="forward substitution skips entries which the row exchanges have made nonzero",
  demo=prog(["math", GT + "math/mat"], MUST + r'''
func main() {
	m := mat.NewMatrix([]float64{1, 2, 3, 4, 1, 2, 2, 8, 1}, 3, 3)
	for _, x := range [][]float64{{1, 2, 3}, {-5, 1, 1}, {1, -2, 1}} {
		b := make([]float64, 3)
		mat.MultVec(m, x, b)
		got := m.SolveVector(b)
		for i := range x { if !near(got[i], x[i]) { fail("solution %v of right hand side %v, expected %v", got, b, x) } }
	}
	inv := m.Invert()
	p := m.Mult(inv)
	for i := range p.Vals { e := 0.0; if i%4 == 0 { e = 1 }; if math.Abs(p.Vals[i]-e) > 1e-9 { fail("inverse: %v", p.Vals) } }
}
'''))

S(id="c18-transpose-blocks", property="C18",
  edits=[("math/mat/mat.go", "const transposeRecWidth = 16000000", "const transposeRecWidth = 24"),
         ("math/mat/mat.go", '''				mXLow, mYLow + newMYWidth,
				mXWidth, mYWidth - newMYWidth,
				outXLow + newMYWidth, outYLow)''', '''				mXLow, mYLow + newMYWidth,
				mXWidth, newMYWidth,
				outXLow + newMYWidth, outYLow)''')],
  needs="a matrix of more than 24 rows or columns whose number of rows is halved unevenly",
  breaks="the last row of blocks of odd height is not transposed",
  demo=prog([GT + "math/mat"], r'''
func main() {
	for _, d := range [][2]int{{3, 4}, {30, 51}, {51, 51}, {7, 99}, {64, 64}} {
		w, h := d[0], d[1]
		v := make([]float64, w*h)
		for i := range v { v[i] = float64(i + 1) }
		m := mat.NewMatrix(v, w, h)
		t := m.Transpose()
		for y := 0; y < h; y++ { for x := 0; x < w; x++ {
			if t.Vals[x*h+y] != v[y*w+x] { fail("%dx%d: element (%d, %d) is %g", w, h, x, y, t.Vals[x*h+y]) }
		}}
	}
}
'''))

S(id="c19-same-knots", property="C19",
  edits=[("math/interpolate/spline.go", '''	if xs[0] < xs[1] {
		sp.incr = true
''', '''	if &xs[0] == &lastXs[0] && sp.dx != 0 {
		// Same points as last time: they have already been checked.
	} else if xs[0] < xs[1] {
		sp.incr = true
'''), ("math/interpolate/spline.go", '''	sp.xs, sp.ys = xs, ys

	if xs[0]''', '''	lastXs := sp.xs
	sp.xs, sp.ys = xs, ys

	if xs[0]'''),] [::-1],
  needs="reinitialising a spline with the array it already holds after the points in it were put into the opposite order",
  breaks="the spline keeps the old direction of the table and refuses or misplaces points",
  demo=prog(["math", GT + "math/interpolate"], MUST + r'''
func main() {
	defer func() { if r := recover(); r != nil { fail("%v", r) } }()
	xs, ys := []float64{0, 1, 2, 4}, []float64{1, 3, 2, 5}
	sp := interpolate.NewSpline(xs, ys)
	a := []float64{sp.Eval(0.5), sp.Eval(3)}
	for i, j := 0, 3; i < j; i, j = i+1, j-1 { xs[i], xs[j] = xs[j], xs[i]; ys[i], ys[j] = ys[j], ys[i] }
	sp.Init(xs, ys)
	b := []float64{sp.Eval(0.5), sp.Eval(3)}
	if !near(a[0], b[0]) || !near(a[1], b[1]) { fail("%v and reversed %v", a, b) }
}
'''))

S(id="c19-batch-rows", property="C19",
  edits=[("math/interpolate/cubic_interpolators.go", '''	for i := range xs { out[0][i] = bi.Eval(xs[i], ys[i]) }
	return out[0]
}

func (bi *BiCubic) Ref()''', '''	row := math.NaN()
	for i := range xs {
		if ys[i] == row {
			// Still on the same row.
			out[0][i] = bi.xSpline.Eval(xs[i])
			continue
		}
		if i > 0 { row = ys[i-1] }
		out[0][i] = bi.Eval(xs[i], ys[i])
	}
	return out[0]
}

func (bi *BiCubic) Ref()''')],
  needs="a batch of points which returns to a row right after leaving it",
  breaks="the third point of a batch with rows a, b, a is evaluated on row b",
  demo=prog(["math", GT + "math/interpolate"], MUST + r'''
func main() {
	g := []float64{0, 1, 2, 3}
	vals := make([]float64, 16)
	for i := range vals { vals[i] = float64((i*i*7)%13) }
	xs, ys := []float64{0.5, 1.5, 0.25, 2, 2, 1}, []float64{1.5, 2.5, 1.5, 0.5, 0.5, 0.5}
	a := interpolate.NewBiCubic(g, g, vals).EvalAll(xs, ys)
	for i := range xs {
		if b := interpolate.NewBiCubic(g, g, vals).Eval(xs[i], ys[i]); !near(a[i], b) { fail("point %d: %g in a batch, %g alone", i, a[i], b) }
	}
}
'''))

S(id="c20-kernel-cache", property="C20",
  edits=[("math/interpolate/filter.go", '''	k.savgol(pOrder, dOrder)
	fact := float64(factorial(dOrder))
''', '''	k.cachedSavgol(pOrder, dOrder)
	fact := float64(factorial(dOrder))
'''), ("math/interpolate/filter.go", '''func (k *Kernel) savgol(m, ld int) {''', '''// savgolCache holds the weights of the last kernel of every width.
var savgolCache = map[int]*savgolEntry{}

type savgolEntry struct {
	m, ld int
	cs []float64
}

func (k *Kernel) cachedSavgol(m, ld int) {
	e, ok := savgolCache[len(k.cs)]
	if !ok || e.m != m || e.ld != ld {
		k.savgol(m, ld)
		savgolCache[len(k.cs)] = &savgolEntry{ m, ld, k.cs }
		return
	}
	copy(k.cs, e.cs)
}

func (k *Kernel) savgol(m, ld int) {''')],
  needs="two derivative kernels in a row with equal orders and width, of nonzero derivative order with dx != 1",
  breaks="the cached weights are those already scaled for the first kernel, so the second is scaled twice",
  demo=prog(["math", GT + "math/interpolate"], MUST + r'''
func main() {
	xs := make([]float64, 21)
	for i := range xs { xs[i] = 3 * float64(i) * 0.5 }
	for n := 0; n < 3; n++ {
		for _, w := range []int{5, 7} {
			k := interpolate.NewSavGolDerivKernel(0.5, 1, 2, w)
			if d := k.Convolve(xs, interpolate.Extension)[10]; !near(d, 3) { fail("kernel %d of width %d: slope %g", n, w, d) }
		}
	}
}
'''))

S(id="c20-pad-buffer", property="C20",
  edits=[("math/interpolate/filter.go", '''	cs []float64
	center int
}
''', '''	cs []float64
	center int
	pad []float64
}
'''), ("math/interpolate/filter.go", '''	nl, nr := k.center, len(k.cs) - 1 - k.center
	var x float64

	for i := 0; i <= nl; i++ {
		sum := 0.0
		for j, c := range k.cs {
			idx := i + j - k.center
			if idx < 0 {
				switch b {
				case Periodic: x = xs[n + idx]
				case Reflection: x = xs[-idx]
				case ZeroPad: x = 0
				case Extension: x = xs[0]
				}
			} else {
				x = xs[idx]
			}
			sum += x * c
		}
		out[i] = sum
	}
''', '''	nl, nr := k.center, len(k.cs) - 1 - k.center
	var x float64

	// Copy the lower edge behind its extension.
	if len(k.pad) != 2*nl + nr + 1 { k.pad = make([]float64, 2*nl + nr + 1) }
	copy(k.pad[nl:], xs)
	if b != ZeroPad {
		for i := 0; i < nl; i++ { k.pad[i] = b.Get(xs, i - nl) }
	}
	for i := 0; i <= nl; i++ {
		sum := 0.0
		for j, c := range k.cs { sum += k.pad[i + j] * c }
		out[i] = sum
	}
''')],
  needs="one kernel used with zero padding after it was used with another boundary rule",
  breaks="the zero padding is what the previous series left in the buffer",
  demo=prog(["math", GT + "math/interpolate"], MUST + r'''
func main() {
	xs := []float64{5, 3, 8, 1, 9, 2, 7, 7, 4, 6, 0, 2}
	for _, w := range []int{3, 5, 7} {
		k := interpolate.NewTophatKernel(w)
		for _, b := range []interpolate.BoundaryCondition{interpolate.ZeroPad, interpolate.Periodic, interpolate.Reflection, interpolate.Extension, interpolate.ZeroPad} {
			out := k.Convolve(xs, b)
			for i := range xs {
				sum := 0.0
				for j := -(w / 2); j <= w/2; j++ { sum += b.Get(xs, i+j) }
				if !near(out[i], sum/float64(w)) { fail("width %d, boundary %d: point %d is %g, expected %g", w, b, i, out[i], sum/float64(w)) }
			}
		}
	}
}
'''))

S(id="c21-prefetch", property="C21",
  edits=[("math/rand/golang.go", '''type golangGenerator struct {
	r *rand.Rand
}
''', '''type golangGenerator struct {
	r *rand.Rand
	buf [16]float64
	left int
}
'''), ("math/rand/golang.go", '''	return gen.r.Float64()
}
''', '''	if gen.left == 0 {
		gen.NextSequence(gen.buf[:])
		gen.left = len(gen.buf)
	}
	gen.left--
	return gen.buf[len(gen.buf) - 1 - gen.left]
}
''')],
  needs="a batch drawn from a Go generator after a number of single draws which is not a multiple of 16",
  breaks="batches are drawn behind the values already fetched ahead for single draws",
  demo=prog([GT + "math/rand"], r'''
func main() {
	for _, gt := range []rand.GeneratorType{rand.Xorshift, rand.Golang, rand.Tausworthe} {
		a, b := rand.New(gt, 11), rand.New(gt, 11)
		var x, y []float64
		for i := 0; i < 60; i++ { x = append(x, a.Uniform(0, 1)) }
		for len(y) < 60 {
			y = append(y, b.Uniform(0, 1), b.Uniform(0, 1))
			buf := make([]float64, 8)
			b.UniformAt(0, 1, buf)
			y = append(y, buf...)
		}
		for i := range x { if x[i] != y[i] { fail("generator %d, value %d: %g one by one, %g mixed", gt, i, x[i], y[i]) } }
	}
}
'''))

S(id="c21-sobol-restart", property="C21",
  edits=[("math/rand/sobol.go", "	for i := range seq.ix { seq.ix[i] = 0 }", "	for i := uint32(0); i < uint32(len(seq.mdeg)) - 1; i++ { seq.ix[i] = 0 }")],
  needs="restarting a sequence which was drawn in six coordinates",
  breaks="the sixth coordinate goes on from where it was",
  demo=prog([GT + "math/rand"], r'''
func main() {
	for dim := 1; dim <= 6; dim++ {
		s := rand.NewSobolSequence()
		var first [][]float64
		for i := 0; i < 37; i++ { first = append(first, s.Next(dim)) }
		s.Init()
		for i := range first {
			p := s.Next(dim)
			for k := range p { if p[k] != first[i][k] { fail("%d coordinates, point %d after a restart: %v, expected %v", dim, i, p, first[i]) } }
		}
	}
}
'''))

S(id="c21-seed-digits", property="C21",
  edits=[("math/rand/tausworthe.go", '''	for digit := 0; digit < tauswortheDigitsRandomized; digit++ {
		for i, _ := range gen.seq { gen.seq[i] += digitGen.Uniform(0, f) }
		f /= 2.0
	}
''', '''	for digit := 0; digit < tauswortheDigitsRandomized; digit++ {
		for i, _ := range gen.seq { gen.seq[i] += digitGen.Uniform(0, f) }
		f /= 2.0
	}
	tauswortheSpare = digitGen
'''), ("math/rand/tausworthe.go", '''	digitGen := New(Golang, seed)
''', '''	digitGen := tauswortheSpare
	if digitGen == nil {
		digitGen = New(Golang, seed)
	} else {
		digitGen.backend.Init(seed % (1 << 31))
	}
'''), ("math/rand/tausworthe.go", '''type tauswortheGenerator struct {''', '''// tauswortheSpare is the generator of the last initialisation, kept to save
// making another one.
var tauswortheSpare *Generator

type tauswortheGenerator struct {''')],
  needs="a default generator with a seed of 2^31 or above which is not the first one of the process",
  breaks="the stream of such a seed depends on whether another generator was made before",
  demo=prog([GT + "math/rand"], r'''
func main() {
	const seed = 1<<40 + 12345
	a := rand.New(rand.Tausworthe, seed)
	b := rand.New(rand.Tausworthe, seed)
	for i := 0; i < 10; i++ { if x, y := a.Uniform(0, 1), b.Uniform(0, 1); x != y { fail("draw %d: %g and %g from the same seed", i, x, y) } }
}
'''))

# halo: the package needs the module table, given here as a stand-in
STUB = '''package table
import ("bufio"; "fmt"; "os"; "strconv"; "strings")
type TextConfig struct{}
func ReadTable(fname string, colIdxs []int, _ *TextConfig) ([][]float64, error) {
	f, err := os.Open(fname)
	if err != nil { return nil, err }
	defer f.Close()
	cols := make([][]float64, len(colIdxs))
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<16), 1<<24)
	for sc.Scan() {
		ws := strings.Fields(sc.Text())
		if len(ws) == 0 || ws[0][0] == '#' { continue }
		for i, c := range colIdxs {
			if c >= len(ws) { return nil, fmt.Errorf("no column %d", c) }
			x, err := strconv.ParseFloat(ws[c], 64)
			if err != nil { return nil, err }
			cols[i] = append(cols[i], x)
		}
	}
	return cols, sc.Err()
}
'''
HALO_SH = '''#!/bin/bash
# exit 0: the property holds for the cases in demo.go; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/table" "$tmp/demo"
cp "$here/table.go" "$tmp/table/table.go"; printf 'module github.com/phil-mansfield/table\\n' > "$tmp/table/go.mod"
cp "$here/demo.go" "$tmp/demo/main.go"
cat > "$tmp/demo/go.mod" <<M
module demo
go 1.16
require github.com/phil-mansfield/gotetra v0.0.0
require github.com/phil-mansfield/table v0.0.0
replace github.com/phil-mansfield/gotetra => $repo
replace github.com/phil-mansfield/table => $tmp/table
M
grep -E "gcfg|warnings|pyplot" "$repo/go.mod" | grep -v -e '^module' | sed 's/^require *//; s/^[[:space:]]*/require /; s/ *$//' >> "$tmp/demo/go.mod"
cp "$repo/go.sum" "$tmp/demo/go.sum"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod DEMO_TMP="$tmp"
(cd "$tmp/demo" && go build -o "$tmp/run" .) || exit 2
timeout 120 "$tmp/run"
'''

S(id="c22-list-order", property="C22", demo_sh=HALO_SH, files={"table.go": STUB},
  edits=[("render/halo/grid.go", "	for i := range xs {\n		x, y, z := xs[i], ys[i], zs[i]\n		if x",
          "	// Small indices come first in every cell.\n	for i := len(xs) - 1; i >= 0; i-- {\n		x, y, z := xs[i], ys[i], zs[i]\n		if x"),
         ("render/halo/finder.go", "if j <= ih { continue }", "if j <= ih { break }")],
  needs="a cell holding a halo and, behind it in the cell's list, a smaller one which it intersects",
  breaks="each change is harmless alone; together the search stops at the first larger halo of a cell",
  demo=prog([GT + "render/halo"], r'''
func main() {
	xs := []float64{1, 1.5, 2, 7.9, 0.1, 5}
	ys := []float64{1, 1.25, 1, 1, 1, 5}
	zs := []float64{1, 1, 1.5, 1, 1, 5}
	rs := []float64{1, 0.75, 0.5, 0.25, 0.25, 0.125}
	for _, cells := range []int{1, 2, 4, 8} {
		g := halo.NewGrid(cells, 8, len(xs))
		g.Insert(xs, ys, zs)
		f := halo.NewSubhaloFinder(g)
		f.FindSubhalos(xs, ys, zs, rs, 1)
		for i := range xs {
			var want []int
			for j := range xs {
				d2 := 0.0
				for _, d := range []float64{xs[i] - xs[j], ys[i] - ys[j], zs[i] - zs[j]} {
					if d > 4 { d -= 8 }
					if d < -4 { d += 8 }
					d2 += d * d
				}
				if r := rs[i] + rs[j]; j != i && r*r >= d2 { want = append(want, j) }
			}
			if fmt.Sprint(f.Intersects(i)) != fmt.Sprint(want) { fail("%d cells: halo %d intersects %v, expected %v", cells, i, f.Intersects(i), want) }
		}
	}
}
'''))

S(id="c22-cover-radius", property="C22", demo_sh=HALO_SH, files={"table.go": STUB},
  edits=[("render/halo/finder.go", '''		maxSR := cMax[ih]
''', '''		maxSR := rh
		if ih + 1 < len(rs) { maxSR = cMax[ih+1] }
'''), ("render/halo/finder.go", '''	max := xs[len(xs) - 1]
	for i := len(xs) - 1; i >= 0; i-- {
		x := xs[i]
		if x > max { max = x }
		ms[i] = max
	}
''', '''	max := xs[len(xs) - 1]
	for i := len(xs) - 1; i >= 0; i-- {
		// Largest radius from here on.
		ms[i] = max
		if xs[i] > max { max = xs[i] }
	}
''')],
  needs="halos of clearly different sizes, close to the limit of intersecting, with a cell boundary in between",
  breaks="the search is widened by the radius of the halo after the next one instead of the next one's",
  demo=prog([GT + "render/halo"], r'''
func main() {
	for k := 0; k < 16; k++ {
		xs, ys, zs := []float64{float64(k), float64(k+5) , 9.5}, []float64{4, 4, 12}, []float64{4, 4, 12}
		if xs[1] >= 16 { xs[1] -= 16 }
		rs := []float64{3, 2.25, 0.125}
		g := halo.NewGrid(16, 16, 3)
		g.Insert(xs, ys, zs)
		f := halo.NewSubhaloFinder(g)
		f.FindSubhalos(xs, ys, zs, rs, 1)
		if f.SubhaloCount(0) != 1 || f.HostCount(1) != 1 { fail("halos at x = %g and %g: %v, %v", xs[0], xs[1], f.Intersects(0), f.Intersects(1)) }
	}
}
'''))

TABLE = r'''
func must(err error) { if err != nil { fmt.Println("demo error:", err); os.Exit(3) } }
func write(file string, n int, at func(row, col int) float64) {
	f, err := os.Create(file); must(err); defer f.Close()
	for i := 0; i < n; i++ { for c := 0; c < 62; c++ { fmt.Fprint(f, at(i, c), " ") }; fmt.Fprintln(f) }
}
'''
S(id="c23-shared-columns", property="C23", demo_sh=HALO_SH, files={"table.go": STUB},
  edits=[("render/halo/io.go", '''	vals, err = getter(file, colIdxs)
	if err != nil { return nil, nil, err }
''', '''	// Read every column only once.
	place, uniqueIdxs := map[int]int{}, []int{}
	for _, idx := range colIdxs {
		if _, ok := place[idx]; !ok {
			place[idx] = len(uniqueIdxs)
			uniqueIdxs = append(uniqueIdxs, idx)
		}
	}
	cols, err := getter(file, uniqueIdxs)
	if err != nil { return nil, nil, err }
	vals = make([][]float64, len(colIdxs))
	for i, idx := range colIdxs { vals[i] = cols[place[idx]] }
''')],
  needs="asking for a mass together with the radius of the same definition, or twice for a length",
  breaks="both share the column, so the conversion of one changes the other",
  demo=prog([GT + "render/halo", GT + "render/io"], TABLE + r'''
func main() {
	file := os.Getenv("DEMO_TMP") + "/t"
	write(file, 4, func(r, c int) float64 { if c == 1 { return float64(100 + r) }; return float64(1000*(c+1) + r) })
	hd := &io.CosmologyHeader{Z: 0, OmegaM: 0.25, OmegaL: 0.75, H100: 0.7}
	must(halo.RockstarConvert(file, file+"b"))
	_, one, err := halo.ReadRockstarVals(file, hd, halo.M200b); must(err)
	_, rad, err := halo.ReadRockstarVals(file, hd, halo.Rad200b); must(err)
	for k, get := range []func(string, *io.CosmologyHeader, ...halo.Val) ([]int, [][]float64, error){halo.ReadRockstarVals, halo.ReadBinaryRockstarVals} {
		_, v, err := get([]string{file, file + "b"}[k], hd, halo.M200b, halo.Rad200b, halo.M200b); must(err)
		for i := range one[0] { if v[0][i] != one[0][i] || v[2][i] != one[0][i] || v[1][i] != rad[0][i] { fail("row %d: %g %g %g", i, v[0][i], v[1][i], v[2][i]) } }
	}
}
'''))

S(id="c23-top-heap", property="C23", demo_sh=HALO_SH, files={"table.go": STUB},
  edits=[("render/halo/io.go", '''	idxs := idxSort(cols[M200b])[len(cols[0]) - n:]
''', '''	idxs := topIndices(cols[M200b], n)
'''), ("render/halo/io.go", '''func RockstarConvertTopN(''', '''// topIndices returns the indices of the n largest values in one pass.
func topIndices(xs []float64, n int) []int {
	idxs := make([]int, 0, n)
	min := -1
	for i, x := range xs {
		if len(idxs) < n {
			idxs = append(idxs, i)
		} else if n > 0 && x > xs[idxs[min]] {
			idxs[min] = i
		} else {
			continue
		}
		min = 0
		for k := range idxs {
			if xs[idxs[k]] < xs[idxs[min]] && idxs[k] < i { min = k }
		}
	}
	return idxs
}

func RockstarConvertTopN('''),],
  needs="a table in which a halo which enters the selection is itself the smallest of it when the next one is compared",
  breaks="the newest halo is never the one to be replaced, so a larger one is thrown out",
  demo=prog([GT + "render/halo", GT + "render/io"], TABLE + r'''
func main() {
	ms := []float64{50, 60, 10, 20, 40, 30, 70, 5}
	file := os.Getenv("DEMO_TMP") + "/t"
	write(file, len(ms), func(r, c int) float64 { if c == 1 { return float64(r) }; return ms[r] })
	hd := &io.CosmologyHeader{Z: 0, OmegaM: 0.25, OmegaL: 0.75, H100: 0.7}
	for n := 0; n <= len(ms)+1; n++ {
		must(halo.RockstarConvertTopN(file, file+"b", n))
		ids, v, err := halo.ReadBinaryRockstarVals(file+"b", hd, halo.M200b); must(err)
		want := n
		if n > len(ms) { want = len(ms) }
		if len(ids) != want { fail("%d of %d halos", len(ids), want) }
		in := map[int]bool{}
		for i, id := range ids { in[id] = true; if v[0][i] != ms[id] { fail("torn row") } }
		for i, m := range ms { if !in[i] { for _, k := range v[0] { if k < m { fail("top %d keeps %g and drops %g", n, k, m) } } } }
	}
}
'''))
