import runpy, os
b1 = runpy.run_path(os.path.join(os.path.dirname(__file__), "batch1.py"))
prog, GT, RUN, SHEET = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"]
b2 = runpy.run_path(os.path.join(os.path.dirname(__file__), "batch2.py"))
HALO_SH, STUB = b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c05-header-memo", property="C05",
  edits=[("render/io/io.go", '''	if err = f.Close(); err != nil { return err }
	return nil
}

// ReadPositionsAt''', "	return f.Close()\n}\n\n// ReadPositionsAt"), ("render/io/io.go", '''	f, _, err := readSheetHeaderAt(file, hdBuf)
	if err != nil { return err }
	return f.Close()
}

// ReadPositionsAt''', '''	info, err := os.Stat(file)
	if err != nil { return err }
	key := headerKey{ file, info.Size(), info.ModTime().Unix() }
	headerMutex.Lock()
	defer headerMutex.Unlock()
	if hd, ok := headers[key]; ok {
		*hdBuf = hd
		return nil
	}
	f, _, err := readSheetHeaderAt(file, hdBuf)
	if err != nil { return err }
	headers[key] = *hdBuf
	return f.Close()
}

// The header of every sheet is wanted several times in a run: when the
// regions are planned and again for each region which needs the sheet.
type headerKey struct {
	file string
	size, modified int64
}

var (
	headerMutex sync.Mutex
	headers = map[headerKey]SheetHeader{}
)

// ReadPositionsAt'''), ("render/io/io.go", '''	"runtime"
''', '''	"runtime"
	"sync"
''')],
  needs="a sheet file replaced by another of the same size within one second, by a process that has read its header before",
  breaks="the old header is reported for the new file",
  demo=prog([GT + "render/io", GT + "render/geom", "math"], SHEET + r'''
func main() {
	file := os.Getenv("DEMO_TMP") + "/s.dat"
	for k := 0; k < 40; k++ {
		off := float32(k % 7)
		sheet(file, 2, 20, func(x, y, z int) geom.Vec { return geom.Vec{off + float32(x), off + float32(y), off + float32(z)} }, nil)
		hd := &io.SheetHeader{}
		must(io.ReadSheetHeaderAt(file, hd))
		if math.Abs(float64(hd.Origin[0]-off)) > 1e-5 { fail("round %d: origin %v, want %g", k, hd.Origin, off) }
	}
}
'''))

S(id="c06-shared-grid", property="C06",
  edits=[("render/io/output.go", '''    vals := make([]float64, len(val32s))
    for i, x''', '''    vals := gridBuf
    if cap(vals) < len(val32s) { vals = make([]float64, len(val32s)) }
    vals = vals[:len(val32s)]
    gridBuf = vals
    for i, x'''), ("render/io/output.go", '''func ReadGrid(fname''', '''// Grids can be large, so the space they are read into is only allocated once.
var gridBuf []float64

func ReadGrid(fname''')],
  needs="two grid files read one after the other, the second no longer than the first, and the first values still in use",
  breaks="the values read from the first file are overwritten by those of the second",
  demo=prog([GT + "render/io", GT + "render/density"], r'''
func must(err error) { if err != nil { fmt.Println("demo error:", err); os.Exit(3) } }
func write(file string, n int, off float64) {
	rhos := make([]float64, n*n*n)
	for i := range rhos { rhos[i] = off + float64(i) }
	f, err := os.Create(file); must(err)
	must(io.WriteBuffer(density.WrapperDensityBuffer(rhos), io.NewCosmoInfo(70, 0.25, 0.75, 0, 100), io.NewRenderInfo(10, 16, 1, ""),
		io.NewLocationInfo([3]int{0, 0, 0}, [3]int{n, n, n}, 1), f))
	must(f.Close())
}
func main() {
	a, b := os.Getenv("DEMO_TMP")+"/a.gtet", os.Getenv("DEMO_TMP")+"/b.gtet"
	write(a, 3, 0); write(b, 2, 1000)
	xs, err := io.ReadGrid(a); must(err)
	ys, err := io.ReadGrid(b); must(err)
	for i := range xs { if xs[i] != float64(i) { fail("first grid: value %d is %g", i, xs[i]) } }
	for i := range ys { if ys[i] != 1000+float64(i) { fail("second grid: value %d is %g", i, ys[i]) } }
}
'''))

S(id="c09-base-names", property="C09",
  edits=[("render/render.go", "man.renderers[i].validSegs[file] = true", "man.renderers[i].validSegs[path.Base(file)] = true"),
         ("render/render.go", "return r.validSegs[file]", "return r.validSegs[path.Base(file)]"),
         ("render/render.go", '''		if intersect {
			man.files = append(man.files, file)
		}''', '''		if intersect && !seen[path.Base(file)] {
			// Inputs may overlap: render every segment once.
			seen[path.Base(file)] = true
			man.files = append(man.files, file)
		}'''),
         ("render/render.go", '''	maxBufSize := 0

	for _, file''', '''	maxBufSize := 0
	seen := make(map[string]bool)

	for _, file''')],
  needs="sheets of the same name in different directories rendered together",
  breaks="only the first of them is rendered",
  demo=prog([GT + "render", GT + "render/io", GT + "render/geom", GT + "render/density", "math"], SHEET + r'''
func main() {
	render.NumCores = 2
	tmp := os.Getenv("DEMO_TMP")
	must(os.MkdirAll(tmp+"/a", 0755)); must(os.MkdirAll(tmp+"/b", 0755))
	vel := func(x, y, z int) geom.Vec { return geom.Vec{1, 2, 3} }
	sheet(tmp+"/a/s.dat", 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{3.5, 3.5, 3.5} }, vel)
	sheet(tmp+"/b/s.dat", 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{9.5, 9.5, 9.5} }, vel)
	total := func(files ...string) float64 {
		box := &io.BoxConfig{XWidth: 16, YWidth: 16, ZWidth: 16}
		b := render.NewBox(16, 4, 16, density.Density, box)
		man, err := render.NewManager(files, []render.Box{b}, false, density.Density); must(err)
		must(man.RenderDensity())
		vals, _ := b.Vals().ScalarBuffer()
		s := 0.0
		for _, v := range vals { s += v }
		return s
	}
	a, b, both := total(tmp+"/a/s.dat"), total(tmp+"/b/s.dat"), total(tmp+"/a/s.dat", tmp+"/b/s.dat")
	if a <= 0 || b <= 0 { fmt.Println("demo error: empty", a, b); os.Exit(3) }
	if math.Abs(a+b-both) > 1e-6*both { fail("%g + %g != %g", a, b, both) }
}
'''))

S(id="c17-depth-limit", property="C17",
  edits=[("math/sort/quick.go", '''	if len(xs) < manualLen {
		return Shell(xs)
	} else {
		pivIdx := partition(xs)
		Quick(xs[0: pivIdx])
		Quick(xs[pivIdx: len(xs)])
		return xs
	}
}
''', '''	limit := 0
	for n := len(xs); n > 0; n >>= 1 { limit += 2 }
	quick(xs, limit)
	return xs
}

// quick sorts xs via quicksort. Badly partitioned arrays, i.e. those which
// haven't been dealt with after limit partitions, are heap sorted.
func quick(xs []float64, limit int) {
	if len(xs) < manualLen {
		Shell(xs)
	} else if limit == 0 {
		heap(xs)
	} else {
		pivIdx := partition(xs)
		quick(xs[0: pivIdx], limit-1)
		quick(xs[pivIdx: len(xs)], limit-1)
	}
}

func heap(xs []float64) {
	for i := len(xs)/2 - 1; i > 0; i-- { sift(xs, i) }
	for end := len(xs) - 1; end > 0; end-- {
		xs[0], xs[end] = xs[end], xs[0]
		sift(xs[:end], 0)
	}
}

func sift(xs []float64, i int) {
	for {
		child := 2*i + 1
		if child >= len(xs) { return }
		if child+1 < len(xs) && xs[child+1] > xs[child] { child++ }
		if xs[i] >= xs[child] { return }
		xs[i], xs[child] = xs[child], xs[i]
		i = child
	}
}
''')],
  needs="an array that median-of-three partitions badly, level after level",
  breaks="the heap is not built at its root, so the largest value of a badly partitioned part ends in the wrong place",
  demo=prog([GT + "math/sort", "math/rand"], r'''
// killer builds an array against which the given sorter partitions badly, by letting each pivot be the smallest values.
func partitionIdx(idx []int, less func(a, b int) bool) int { return 0 }

func main() {
	// values that grow from the middle outwards and runs of few distinct values
	check := func(name string, xs []float64) {
		count := map[float64]int{}
		for _, x := range xs { count[x]++ }
		sort.Quick(xs)
		for i, x := range xs {
			count[x]--
			if i > 0 && xs[i-1] > x { fail("%s, %d values: not sorted at %d", name, len(xs), i) }
		}
		for _, c := range count { if c != 0 { fail("%s: values lost", name) } }
	}
	for n := 100; n <= 3000; n += 137 {
		xs := make([]float64, n)
		for i := range xs { xs[i] = float64(i); if i >= n/2 { xs[i] = float64(n - i) } }
		check("organ pipe", xs)
		for seed := int64(0); seed < 20; seed++ {
			r := rand.New(rand.NewSource(seed))
			for i := range xs { xs[i] = r.Float64() }
			check("random", xs)
		}
		check("killer", killer(n))
	}
}

// killer undoes the partitions of the sorter from the sorted end: every pivot splits off as little as possible.
func killer(n int) []float64 {
	// follow the swaps of a median of three partition symbolically, giving out the smallest values as pivots
	val := make([]float64, n)
	for i := range val { val[i] = -1 }
	idx := make([]int, n)
	for i := range idx { idx[i] = i }
	next := 0.0
	get := func(i int) float64 { if val[i] < 0 { return 1e9 }; return val[i] }
	lo := 0
	for n-lo >= 8 {
		p := idx[lo:]
		m := len(p)
		// the first and the middle become the two smallest values left
		a, b, c := 0, m/2, m-1
		if val[p[a]] < 0 { val[p[a]] = next; next++ }
		if val[p[b]] < 0 { val[p[b]] = next; next++ }
		// sort3 of positions a, b, c by value
		if get(p[a]) > get(p[b]) { p[a], p[b] = p[b], p[a] }
		if get(p[b]) > get(p[c]) { p[b], p[c] = p[c], p[b] }
		if get(p[a]) > get(p[b]) { p[a], p[b] = p[b], p[a] }
		p[1], p[b] = p[b], p[1]
		mid := get(p[1])
		i, j := 1, m-1
		for {
			i++
			for i < m && get(p[i]) < mid { i++ }
			j--
			for get(p[j]) > mid { j-- }
			if j < i { break }
			p[i], p[j] = p[j], p[i]
		}
		p[1], p[j] = p[j], p[1]
		if j < 1 { j = 1 }
		lo += j
	}
	for i := range val { if val[i] < 0 { val[i] = next; next++ } }
	return val
}
'''))

S(id="c18-determinant-kept", property="C18",
  edits=[("math/mat/mat.go", '''	d := luf.d
	lu := luf.lu.Vals
	n := luf.lu.Width

	for i := 0; i < luf.lu.Width; i++ {
		d *= lu[i*n + i]
	}
	return d
}''', '''	if !luf.detKnown {
		luf.det = luf.d
		lu := luf.lu.Vals
		n := luf.lu.Width
		for i := 0; i < luf.lu.Width; i++ {
			luf.det *= lu[i*n + i]
		}
		luf.detKnown = true
	}
	return luf.det
}'''), ("math/mat/mat.go", '''	pivot []int
	d float64
}''', '''	pivot []int
	d float64
	// The determinant, once somebody has asked for it.
	det float64
	detKnown bool
}''')],
  needs="factors that are refilled after their determinant has been taken", breaks="the determinant of the earlier matrix is returned",
  demo=prog([GT + "math/mat", "math"], r'''
func main() {
	lu := mat.NewLUFactors(2)
	for _, m := range [][]float64{{2, 1, 1, 3}, {0, 1, 1, 0}, {4, 0, 0, 4}} {
		mat.NewMatrix(m, 2, 2).LUFactorsAt(lu)
		want := m[0]*m[3] - m[1]*m[2]
		for k := 0; k < 2; k++ { if got := lu.Determinant(); math.Abs(got-want) > 1e-9 { fail("det %v = %g, want %g", m, got, want) } }
		a := mat.NewMatrix(m, 2, 2)
		if got := a.Determinant(); math.Abs(got-want) > 1e-9 { fail("det %v = %g", m, got) }
	}
}
'''))

S(id="c22-early-finder", property="C22", demo_sh=HALO_SH, files={"table.go": STUB},
  edits=[("render/halo/finder.go", '''		subhalos: make([]int, 0, int(2.5 * float64(len(g.Next)))),
	}''', '''		subhalos: make([]int, 0, int(2.5 * float64(len(g.Next)))),
		maxLen: g.MaxLength(),
	}'''), ("render/halo/finder.go", "	subhaloStarts, subhalos []int\n", "	subhaloStarts, subhalos []int\n	// The number of halos in the fullest cell.\n	maxLen int\n"),
  ("render/halo/finder.go", "buf := make([]int, 0, sf.g.MaxLength())", "buf := make([]int, 0, sf.maxLen)")],
  needs="a finder made before its grid is filled", breaks="the buffer for a cell's halos is too short and the search stops with a panic",
  demo=prog([GT + "render/halo"], r'''
func main() {
	xs, ys, zs := []float64{1, 1.2, 9}, []float64{1, 1.1, 9}, []float64{1, 1, 9}
	rs := []float64{1, 0.5, 0.5}
	g := halo.NewGrid(4, 16, 3)
	sf := halo.NewSubhaloFinder(g)
	g.Insert(xs, ys, zs)
	sf.FindSubhalos(xs, ys, zs, rs, 1)
	if is := sf.Intersects(0); len(is) != 1 || is[0] != 1 { fail("pairs of 0: %v", is) }
	if is := sf.Intersects(2); len(is) != 0 { fail("pairs of 2: %v", is) }
}
'''))
