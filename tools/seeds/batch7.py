import runpy, os
d = os.path.dirname(__file__)
b1, b2, b3 = (runpy.run_path(os.path.join(d, "batch%d.py" % k)) for k in (1, 2, 3))
prog, GT, RUN, SHEET, BUILD, HALO_SH, STUB = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"], b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c19-near-row", property="C19",
  edits=[("math/interpolate/cubic_interpolators.go", '''func (bi *BiCubic) Eval(x, y float64) float64 {
	if y != bi.lastY {
''', '''// sameRow returns true if two evaluations can use the same spline.
func sameRow(y1, y2 float64) bool {
	return math.Abs(y1 - y2) <= 1e-8
}

func (bi *BiCubic) Eval(x, y float64) float64 {
	if !sameRow(y, bi.lastY) {
''')],
  needs="a table whose spacing is tiny (all of it may lie within 1e-8)", breaks="every row is taken for the first one",
  demo=prog([GT+"math/interpolate", "math"], r'''
func main() {
	for _, u := range []float64{1, 1e-4, 1e-9, 1e-12} {
		xs, ys := []float64{0, 1, 2, 3, 4}, []float64{0, u, 2*u, 3*u, 4*u}
		vals := []float64{}
		for j := range ys { for i := range xs { vals = append(vals, float64(i) + 10*float64(j)) } }
		bi := interpolate.NewBiCubic(xs, ys, vals)
		for j := range ys { for i := range xs {
			if v := bi.Eval(xs[i], ys[j]); math.Abs(v - vals[j*5+i]) > 1e-6 { fail("spacing %g: node (%d, %d) is %g, want %g", u, i, j, v, vals[j*5+i]) }
		} }
	}
}
'''))

S(id="c18-small-scale", property="C18",
  edits=[("math/mat/mat.go", '''		if m.Vals[k*n + k] == 0 { m.Vals[k*n + k] = 1e-20 }
''', '''		// Pivots must not vanish.
		if math.Abs(m.Vals[k*n + k]) < 1e-20 { m.Vals[k*n + k] = 1e-20 }
''')],
  needs="an invertible matrix whose entries are smaller than 1e-20", breaks="its pivots are replaced",
  demo=prog([GT+"math/mat", "math"], r'''
func main() {
	for _, u := range []float64{1, 1e10, 1e-10, 1e-24, 1e-100} {
		m := mat.NewMatrix([]float64{2*u, u, u, 3*u}, 2, 2)
		b, x := []float64{5*u, 10*u}, make([]float64, 2)
		m.LU().SolveVector(b, x)
		if math.Abs(x[0] - 1) > 1e-9 || math.Abs(x[1] - 3) > 1e-9 { fail("scale %g: solution %v, want [1 3]", u, x) }
	}
}
'''))

S(id="c22-single-distance", property="C22", demo_sh=HALO_SH, files={"table.go": STUB},
  edits=[("render/halo/finder.go", '''		if dr*dr >= dx*dx + dy*dy + dz*dz {
''', '''		if float32(dr*dr) >= float32(dx*dx + dy*dy + dz*dz) {
''')],
  needs="spheres which miss each other by a tiny distance", breaks="they count as overlapping",
  demo=prog([GT+"render/halo"], r'''
func main() {
	for _, gap := range []float64{-1e-6, -1e-9, 1e-9, 1e-6, 1e-3} {
		xs, ys, zs, rs := []float64{10, 13 + gap}, []float64{5, 5}, []float64{5, 5}, []float64{2, 1}
		g := halo.NewGrid(4, 40, 2)
		g.Insert(xs, ys, zs)
		sf := halo.NewSubhaloFinder(g)
		sf.FindSubhalos(xs, ys, zs, rs, 1)
		if want := gap < 0; (sf.SubhaloCount(0) == 1) != want { fail("gap %g: overlap is %v", gap, !want) }
	}
}
'''))

S(id="c11-tiny-volume", property="C11",
  edits=[("render/geom/tetra.go", '''	t.volume = math.Abs(t.signedVolume(
		&t.Corners[0], &t.Corners[1], &t.Corners[2], &t.Corners[3]),
	)
''', '''	vol := math.Abs(t.signedVolume(
		&t.Corners[0], &t.Corners[1], &t.Corners[2], &t.Corners[3]),
	)
	// Round-off of a flat tetrahedron.
	if vol < 1e-9 { vol = 0 }
	t.volume = vol
''')],
  needs="a tetrahedron less than about 0.002 across", breaks="it has no volume and contains nothing",
  demo=prog([GT+"render/geom", "math"], r'''
func main() {
	for _, u := range []float32{1, 1. / 64, 1. / 1024, 1. / 65536} {
		c := [4]geom.Vec{{0, 0, 0}, {u, 0, 0}, {0, u, 0}, {0, 0, u}}
		t := geom.NewTetra(&c[0], &c[1], &c[2], &c[3])
		want := math.Pow(float64(u), 3) / 6
		if v := t.Volume(); math.Abs(v/want - 1) > 1e-5 { fail("side %g: volume %g, want %g", u, v, want) }
	}
}
'''))

S(id="c09-shared-interpolator", property="C09",
  edits=[("render/render.go", '''	for id := range man.workspaces {
		// TODO: fix this int64 silliness
		man.workspaces[id].intr = density.MonteCarlo(
			man.hd.SegmentWidth, r.box.Points(), r.box.Cells(),
			int64(man.skip), man.unitBufs, r.over,
		)
''', '''	// TODO: fix this int64 silliness
	intr := density.MonteCarlo(
		man.hd.SegmentWidth, r.box.Points(), r.box.Cells(),
		int64(man.skip), man.unitBufs, r.over,
	)

	for id := range man.workspaces {
		man.workspaces[id].intr = intr
''')],
  needs="two workers inside of their tetrahedra at the same time",
  breaks="they overwrite each other's corners and samples",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	// an empty band between two slabs, which no tetrahedron reaches
	n := 16
	sheet(f, n, 64, func(x, y, z int) geom.Vec { return geom.Vec{float32(x) + 0.5, float32(y) + 0.5, float32(z) + 0.5} }, nil)
	for i := 0; i < 60; i++ {
		render.NumCores = 8
		box := render.NewBox(64, 200, 64, density.Density, &io.BoxConfig{XWidth: 20, YWidth: 20, ZWidth: 20})
		man, err := render.NewManager([]string{f}, []render.Box{box}, false, density.Density); must(err)
		must(man.RenderDensity())
		v, _ := box.Vals().ScalarBuffer()
		// every pixel of the uniform inner part holds the mean density to the noise of 1200 samples
		for k, x := range v {
			ix, iy, iz := k % 21, k / 21 % 21, k / 441
			if ix > 1 && ix < 15 && iy > 1 && iy < 15 && iz > 1 && iz < 15 && (x < 44 || x > 84) { fail("pixel %d %d %d of the uniform part: %g, want about 64", ix, iy, iz, x) }
		}
	}
}
'''))

S(id="c14-worker-counts", property="C14",
  edits=[("render/hist.go", '''			id := <-out
			for j := 0; j < info.Bins; j++ {
				man.boxes[bi].Counts[j] += man.hists[id][j]
			}			
''', '''			id := <-out
'''), ("render/hist.go", '''	default:
		panic("Non-implemented quantity: " + man.quantity)
	}

''', '''	default:
		panic("Non-implemented quantity: " + man.quantity)
	}

	for j := 0; j < info.Bins; j++ {
		box.Counts[j] += hist[j]
	}
''')],
  needs="two workers ending at the same time", breaks="one of two additions to a bin is lost",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density", "bytes"], SHEET + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	w := [3]int{16, 16, 16}
	buf := density.NewBuffer(density.Density, 4096, 1, geom.NewGridLocation([3]int{}, w, 16, 16))
	b := &bytes.Buffer{}
	io.WriteBuffer(buf, io.NewCosmoInfo(70, 0.25, 0.75, 0, 16), io.NewRenderInfo(1, 16, 1, ""), io.NewLocationInfo([3]int{}, w, 1), b)
	must(os.WriteFile(tmp+"/g.gtet", b.Bytes(), 0666))
	render.NumCores = 8
	sheet(tmp+"/a.dat", 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x) + 1, float32(y) + 1, float32(z) + 1} }, nil)
	bins := 20000
	for i := 0; i < 400; i++ {
		boxes := []render.HistBox{render.NewHistBox(&io.BoxConfig{XWidth: 8, YWidth: 8, ZWidth: 8}, bins)}
		man, err := render.NewHistManager([]string{tmp + "/a.dat"}, boxes, 4, "Density", tmp+"/g.gtet"); must(err)
		must(man.Hist(&render.HistInfo{Min: -1e-9, Max: float64(bins), Bins: bins, Scale: "Linear"}))
		sum := 0
		for _, c := range boxes[0].Counts { sum += c }
		if sum != 8 * 6 * 4 { fail("run %d: %d values counted, want %d", i, sum, 8 * 6 * 4) }
	}
}
'''))
