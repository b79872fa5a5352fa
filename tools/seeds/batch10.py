import runpy, os
d = os.path.dirname(__file__)
b1, b2, b3 = (runpy.run_path(os.path.join(d, "batch%d.py" % k)) for k in (1, 2, 3))
prog, GT, RUN, SHEET, BUILD, HALO_SH, STUB = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"], b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c13-whole-box", property="C13",
  edits=[("render/geom/deriv.go", "	if !opt.Periodic || g.Cells !=  g.Width[axis]{\n", """	// Only grids which fill the box are periodic.
	fills := g.Width == [3]int{ g.Cells, g.Cells, g.Cells }
	if !opt.Periodic || !fills {
""")],
  needs="a grid that fills the box along some of its axes, but not along all", breaks="the axes that fill the box are not differentiated periodically",
  demo=prog([GT+"render/geom"], r'''
func main() {
	g := geom.NewGridLocation([3]int{0, 0, 0}, [3]int{5, 8, 6}, 8, 8)
	n := 5 * 8 * 6
	vecs := [3][]float32{make([]float32, n), make([]float32, n), make([]float32, n)}
	for i := 0; i < n; i++ { vecs[1][i] = float32((i / 5 % 8) * (i / 5 % 8) % 7) }
	out, y := make([]float32, n), make([]float32, n)
	op := &geom.DerivOptions{true, geom.None, 4}
	g.Divergence(vecs, out, op)
	g.Deriv(vecs[1], y, 1, op)
	for i := range y {
		j := i / 5 % 8
		at := func(d int) float32 { return vecs[1][i + 5 * ((j + d + 8) % 8 - j)] }
		if w := (-at(2) + 8 * at(1) - 8 * at(-1) + at(-2)) / 12; w - y[i] > 1e-4 || y[i] - w > 1e-4 { fail("pixel %d: %g, want %g", i, y[i], w) }
	}
	for i := range out { if out[i] != y[i] { fail("pixel %d: %g, want %g", i, out[i], y[i]) } }
}
'''))

S(id="c24-whole-hubble", property="C24",
  edits=[("cosmo/param.go", "	H100 := H0 / 100\n", "	H100 := math.Floor(H0) / 100\n")],
  needs="a Hubble constant that is not a whole number", breaks="densities are off by the ratio of the Hubble constants squared",
  demo=prog([GT+"cosmo", "math"], r'''
func main() {
	want := cosmo.RhoCritical(70, 0.25, 0.75, 0)
	for _, h := range []float64{70, 50, 67.11, 73.8} {
		if r := cosmo.RhoCritical(h, 0.25, 0.75, 0); math.Abs(r / want - 1) > 1e-6 { fail("H0 = %g: %g, want %g", h, r, want) }
	}
}
'''))

S(id="c01-empty-catalog", property="C01",
  edits=[("render/main/main.go", '''		N := hs[i].Count

		idBuf = idBuf[0: N]
''', '''		// There is nothing left to read.
		N := hs[i].Count; if N == 0 { break }

		idBuf = idBuf[0: N]
''')],
  needs="a snapshot one of whose files, not the last, holds no particles", breaks="the files after the empty one are left out: their particles stay at the origin",
  demo=prog([GT+"render/io", GT+"render/geom", "encoding/binary", "os/exec"], RUN + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	part := func(lo, hi int) (xs, vs [][3]float32, ids []uint64) {
		for i := lo; i < hi; i++ {
			xs = append(xs, [3]float32{float32(i % 2), float32(i / 2 % 2), float32(i / 4)})
			vs = append(vs, [3]float32{1, 2, 3})
			ids = append(ids, uint64(i + 1))
		}
		return
	}
	for i, r := range [][2]int{{0, 3}, {3, 3}, {3, 8}} {
		xs, vs, ids := part(r[0], r[1])
		snapshot(fmt.Sprintf("%s/in/snap.%d", tmp, i), r[1] - r[0], 2, xs, vs, ids, 8)
	}
	con := "[ConvertSnapshot]\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nInputFormat = LGadget-2\nCells = 1\nGadget2IDSize = 64\n" +
		"XUnits = 1\nVUnits = 1\nMUnits = 1\n"
	must(os.WriteFile(tmp+"/c.txt", []byte(con), 0666))
	run(bin, "-ConvertSnapshot", tmp+"/c.txt")
	es, err := os.ReadDir(tmp + "/out"); must(err)
	v := make([]geom.Vec, 27)
	must(io.ReadSheetPositionsAt(tmp + "/out/" + es[0].Name(), v))
	for i := range v {
		x, y, z := i % 3 % 2, i / 3 % 3 % 2, i / 9 % 2
		if v[i] != (geom.Vec{float32(x), float32(y), float32(z)}) { fail("site %d: %v", i, v[i]) }
	}
}
'''))

S(id="c02-masked-rows", property="C02",
  edits=[("render/main/main.go", '''	yStart := shd.SegmentWidth * ((shd.Idx / shd.Cells) % shd.Cells)
	zStart := shd.SegmentWidth * (shd.Idx / (shd.Cells * shd.Cells))
''', '''	yStart := shd.SegmentWidth * ((shd.Idx / shd.Cells) & (shd.Cells - 1))
	zStart := shd.SegmentWidth * (shd.Idx / (shd.Cells * shd.Cells))
''')],
  needs="a number of cells per side that is not a power of two", breaks="some rows of segments are written twice and others never",
  demo=prog([GT+"render/io", GT+"render/geom", "encoding/binary", "os/exec"], RUN + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	var xs, vs [][3]float32
	var ids []uint64
	for i := 0; i < 27; i++ {
		xs = append(xs, [3]float32{float32(i % 3), float32(i / 3 % 3), float32(i / 9)})
		vs = append(vs, [3]float32{1, 2, 3})
		ids = append(ids, uint64(i + 1))
	}
	snapshot(tmp+"/in/snap.0", 27, 3, xs, vs, ids, 27)
	con := "[ConvertSnapshot]\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nInputFormat = LGadget-2\nCells = 3\nGadget2IDSize = 64\n" +
		"XUnits = 1\nVUnits = 1\nMUnits = 1\n"
	must(os.WriteFile(tmp+"/c.txt", []byte(con), 0666))
	run(bin, "-ConvertSnapshot", tmp+"/c.txt")
	es, err := os.ReadDir(tmp + "/out"); must(err)
	seen := map[geom.Vec]int{}
	for _, e := range es {
		v := make([]geom.Vec, 8)
		must(io.ReadSheetPositionsAt(tmp + "/out/" + e.Name(), v))
		seen[v[0]]++
	}
	if len(seen) != 27 { fail("%d different segments, want 27", len(seen)) }
}
'''))

